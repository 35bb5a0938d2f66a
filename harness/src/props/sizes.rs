//! Properties of the modes that change sizes: C06, C07 (resize), C08, C09, C10 (split).

use serde::{Deserialize, Serialize};

use super::*;
use crate::engine::*;
use crate::exec::*;
use crate::report::*;

/// What a resize must print: the networks of the target mask whose numbers continue (or begin) the
/// number of the original.
pub fn resized(net: &Net, mask: u128) -> Vec<Net> {
    let have = net.net_bits();
    let want = mask.count_ones();
    let number = net.number();
    let f = net.fam;
    if want >= have {
        let extra = want - have;
        assert!(extra <= 17);
        (0..1u128 << extra).map(|i| Net { fam: f, base: pdep(if have == 0 { i } else { number << extra | i }, mask), mask }).collect()
    } else {
        let drop = have - want;
        vec![Net { fam: f, base: pdep(if drop >= 128 { 0 } else { number >> drop }, mask), mask }]
    }
}

/// The blocks of a resize: the original and the results.
pub fn parse_resize<'a>(lines: &[&'a str]) -> R<(Vec<&'a str>, Vec<Titled<'a>>)> {
    let (mut blocks, rest) = titled(lines)?;
    if let Some(l) = rest.first() {
        return violation(format!("unexpected line in the output of resize: {:?}", l));
    }
    if blocks.is_empty() {
        return violation("resize printed nothing");
    }
    let original = blocks.remove(0).rows;
    Ok((original, blocks))
}
/// Runs a resize and compares everything it prints with the model.
fn check_resize(x: &mut Exec, option: &str, net: &Net, given: &str, target: &str, mask: u128) -> R<Vec<Net>> {
    if mask.count_ones() > net.net_bits() + 13 {
        x.cpu_seconds = 40; // what is moderate is up to C29
    }
    let out = x.run(&[option, given, target])?.ok()?;
    let lines = out.lines()?;
    let (original, results) = parse_resize(&lines)?;
    check_rows(&original, net, None)?;
    let want = resized(net, mask);
    for (i, w) in want.iter().enumerate() {
        match results.get(i) {
            None => return violation(format!("result {} of {} is missing: {}", i + 1, want.len(), w.shown())),
            Some(b) => {
                check_rows(&b.rows, w, None)?;
                // several results are numbered
                let digits: String = b.title.chars().filter(char::is_ascii_digit).collect();
                if want.len() > 1 && digits != (i + 1).to_string() {
                    return violation(format!("result {} is headed {:?}", i + 1, b.title));
                }
            }
        }
    }
    if results.len() > want.len() {
        return violation(format!("{} results instead of {}; the first one too many is {:?}", results.len(), want.len(), results[want.len()].rows));
    }
    Ok(want)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CidrResize {
    pub net: Spec,
    pub target: u32,
    pub as_mask: bool,
}
pub struct C06;
impl Property for C06 {
    type Case = CidrResize;
    const ID: &'static str = "C06";
    const RULE: &'static str = "a CIDR network of either family (any base, also at the ends of the space and across the 64-bit halves, given with random host bits) and a target prefix between 0 and 9 bits longer, equal, or any number of bits shorter; the target is written as a prefix or as a mask. Systematic: all pairs of original and target prefix with at most 6 additional bits, for three bases, and seven resizes into 1024 to 131072 networks. Every row of every block is compared with the model. Non-trivial: the target differs from the original prefix.";
    const QUICK: u64 = 160_000;
    fn gen(&self, g: &mut Gen) -> CidrResize {
        let f = g.fam();
        let a = g.value(f);
        let p = g.prefix(f);
        let target = match g.weighted(&[6, 1, 4]) {
            0 => {
                let most = *g.pick(&[2, 4, 4, 6, 9]);
                (p + g.range(1, most) as u32).min(f.bits())
            }
            1 => p,
            _ => g.below(p as u64 + 1) as u32,
        };
        CidrResize { net: Spec::new(f, a, f.prefix_mask(p)), target, as_mask: g.chance(1, 3) }
    }
    fn shrink(&self, c: &CidrResize) -> Vec<CidrResize> {
        let mut out = Vec::new();
        let p = c.net.net().net_bits();
        if c.as_mask {
            out.push(CidrResize { as_mask: false, ..c.clone() });
        }
        if c.target > p + 1 {
            out.push(CidrResize { target: c.target - 1, ..c.clone() });
        }
        if c.target + 1 < p {
            out.push(CidrResize { target: c.target + 1, ..c.clone() });
        }
        for s in c.net.simpler() {
            let q = s.net().net_bits();
            // keep the distance where possible
            let t = c.target as i64 + q as i64 - p as i64;
            if q != p && (0..=s.fam().bits() as i64).contains(&t) {
                out.push(CidrResize { net: s, target: t as u32, ..c.clone() });
            }
            if c.target <= q + (c.target - p.min(c.target)).max(9) {
                out.push(CidrResize { net: s, ..c.clone() });
            }
        }
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = CidrResize>> {
        Box::new([Fam::V4, Fam::V6].into_iter().flat_map(|f| {
            let n = f.bits();
            (0..=n).flat_map(move |p| {
                (0..=(p + 6).min(n)).filter(move |t| f == Fam::V4 || *t + 3 >= p || (p + t) % 5 == 0).flat_map(move |t| {
                    [0, f.ones(), 0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA & f.ones()]
                        .into_iter()
                        .map(move |a| CidrResize { net: Spec::new(f, a, f.prefix_mask(p)), target: t, as_mask: (p + t) % 2 == 1 })
                })
            })
        }).chain([(Fam::V4, 0u128, 10u32), (Fam::V4, 16, 11), (Fam::V4, 19, 13), (Fam::V6, 48, 13), (Fam::V6, 60, 11), (Fam::V6, 116, 12), (Fam::V4, 15, 17)].into_iter().map(|(f, p, extra)| {
            // many
            let p = p as u32;
            CidrResize { net: Spec::new(f, if p == 116 { f.ones() } else { 0x5F5A_1234_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A & f.ones() }, f.prefix_mask(p)), target: p + extra, as_mask: p % 2 == 0 }
        })))
    }
    fn check(&self, c: &CidrResize, x: &mut Exec) -> R<Verdict> {
        let f = c.net.fam();
        let net = c.net.net();
        let mask = f.prefix_mask(c.target);
        let target = if c.as_mask { fmt_addr(f, mask) } else { c.target.to_string() };
        let want = check_resize(x, "-r", &net, &c.net.text(), &target, mask)?;
        let p = net.prefix().unwrap();
        Ok(Verdict::new(p != c.target)
            .label(f == Fam::V6, "ipv6")
            .label(c.target > p, "subnets")
            .label(c.target < p, "supernet")
            .label(want.last().unwrap().last() == f.ones(), "reaches the end of the space")
            .label(p < 64 && c.target > 64, "across the 64-bit halves"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MaskResize {
    pub net: Spec,
    pub target: Addr,
}
impl MaskResize {
    fn modest(&self) -> bool {
        self.target.v.count_ones() <= self.net.net().net_bits() + 17
    }
}
pub struct C07;
impl Property for C07 {
    type Case = MaskResize;
    const ID: &'static str = "C07";
    const RULE: &'static str = "original and target masks of either family, at least one of them lopsided in most cases, with 0-9 more network bits, equally many, or any number fewer; bit positions as runs, several runs, scattered, at both ends. The printed rows (network, first and last host, broadcast - which together with the base determines the mask - and count) are compared with the network-number model; for equally large masks the way back is run as well. Systematic: all pairs of 5-bit mask patterns at six places, and three resizes into thousands of networks and one into 131072. Non-trivial: a lopsided mask among the two, and the masks differ.";
    const QUICK: u64 = 150_000;
    fn gen(&self, g: &mut Gen) -> MaskResize {
        let f = g.fam();
        let n = f.bits();
        let m = if g.chance(3, 4) {
            g.mask(f)
        } else {
            let hb = g.below(n as u64 + 1) as u32;
            g.mask_with_host_bits(f, hb)
        };
        let a = g.value(f);
        let have = m.count_ones();
        let want = match g.weighted(&[6, 3, 4]) {
            0 => {
                let most = *g.pick(&[1, 3, 3, 6, 9]);
                (have + g.range(1, most) as u32).min(n)
            }
            1 => have,
            _ => g.below(have as u64 + 1) as u32,
        };
        let t = match g.below(4) {
            0 => f.prefix_mask(want),
            1 => {
                // the same mask with bits turned on or off
                let mut t = m;
                while t.count_ones() < want {
                    t |= 1 << g.below(n as u64);
                }
                while t.count_ones() > want {
                    t &= !(1 << g.below(n as u64));
                }
                t
            }
            _ => g.mask_with_host_bits(f, n - want),
        };
        MaskResize { net: Spec::new(f, a, m), target: Addr::new(f, t) }
    }
    fn shrink(&self, c: &MaskResize) -> Vec<MaskResize> {
        let f = c.net.fam();
        let mut out: Vec<MaskResize> = simpler_masks(f, c.target.v).into_iter().map(|t| MaskResize { net: c.net, target: Addr::new(f, t) }).collect();
        out.extend(c.net.simpler().into_iter().map(|net| MaskResize { net, target: c.target }));
        out.retain(MaskResize::modest);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = MaskResize>> {
        let places = [(Fam::V4, 0u32, 0xFFFF_FFE0u128), (Fam::V4, 14, 0xFFF8_0000), (Fam::V4, 27, 0), (Fam::V6, 62, u128::MAX << 67), (Fam::V6, 123, 0), (Fam::V6, 0, u128::MAX << 5)];
        Box::new(places.into_iter().flat_map(|(f, at, rest)| {
            (0..32u128).flat_map(move |m| {
                (0..32u128).map(move |t| {
                    let a = 0x5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A ^ ((m * 37 + t * 11) << at);
                    MaskResize { net: Spec::new(f, a & f.ones(), rest | m << at), target: Addr::new(f, rest | t << at) }
                })
            })
        }).chain([(Fam::V4, 0xFF00_FF00u128, 0xFF3F_FFE0u128), (Fam::V4, 0x0000_FFFF, 0xFFF_FFFF0), (Fam::V6, u128::MAX << 70 | 3, u128::MAX << 57 | 1), (Fam::V4, 0x00F0_0F00, 0xFFF7_FFC0)].into_iter().map(|(f, m, t)| MaskResize {
            // many
            net: Spec::new(f, 0x5F5A_1234_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A & f.ones(), m & f.ones()),
            target: Addr::new(f, t & f.ones()),
        })))
    }
    fn check(&self, c: &MaskResize, x: &mut Exec) -> R<Verdict> {
        let net = c.net.net();
        let f = net.fam;
        let want = check_resize(x, "--resize", &net, &c.net.text(), &c.target.text(), c.target.v)?;
        let have = net.net_bits();
        let bits = c.target.v.count_ones();
        if have == bits {
            // and back again
            check_resize(x, "-r", &want[0], &want[0].shown(), &c.net.mask.text(), net.mask)?;
        }
        let lopsided = net.prefix().is_none() || want[0].prefix().is_none();
        Ok(Verdict::new(lopsided && c.target.v != net.mask)
            .label(f == Fam::V6, "ipv6")
            .label(lopsided, "lopsided")
            .label(net.prefix().is_none() && want[0].prefix().is_none(), "both lopsided")
            .label(bits > have, "subnets")
            .label(bits < have, "supernet")
            .label(bits == have, "equally large"))
    }
}

// ------------------------------------------------------------------------------------------------

/// A split: a CIDR network and host counts (decimal, of any size).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SplitCase {
    pub net: Spec,
    pub counts: Vec<String>,
}
/// Host bits of the smallest network with that many usable hosts; `None` if there is none at all.
fn needed(count: &str) -> Option<u32> {
    let n: u128 = count.parse().ok()?;
    // the smallest h with 2^h >= n + 2, that is 2^h > n + 1
    let most = n.checked_add(1)?; // more than 2^128 addresses otherwise
    Some(128 - most.leading_zeros())
}
impl SplitCase {
    fn fits(&self) -> bool {
        let (mut hi, mut lo) = (0u128, 0u128);
        for c in &self.counts {
            match needed(c) {
                None => return false,
                Some(128) => hi += 1,
                Some(h) => {
                    let (s, carry) = lo.overflowing_add(1 << h);
                    lo = s;
                    hi += carry as u128;
                }
            }
        }
        match self.net.net().host_bits() {
            128 => hi == 0 || (hi == 1 && lo == 0),
            h => hi == 0 && lo <= 1 << h,
        }
    }
    fn run(&self, long: bool, x: &mut Exec) -> R<Out> {
        if self.counts.len() > 10_000 {
            x.cpu_seconds = 40; // what is moderate is up to C29
        }
        x.run(&self.argv(long))
    }
    fn argv(&self, long: bool) -> Vec<String> {
        let mut a = vec![if long { "--split" } else { "-s" }.to_string(), self.net.text()];
        a.extend(self.counts.iter().cloned());
        a
    }
    /// A count that needs exactly `h` host bits.
    fn count_for(g: &mut Gen, h: u32) -> String {
        assert!((1..=128).contains(&h));
        let top = if h == 128 { u128::MAX - 1 } else { (1u128 << h) - 2 };
        let bottom = if h == 1 { 0 } else { (1u128 << (h - 1)) - 1 };
        let n = match g.below(4) {
            0 => top,
            1 => bottom,
            2 => bottom + g.below(3).min((top - bottom) as u64) as u128,
            _ => bottom + g.u128() % (top - bottom + 1),
        };
        n.to_string()
    }
    fn big_count(g: &mut Gen) -> String {
        match g.below(7) {
            6 => g.source_number().to_string(),
            0 => "340282366920938463463374607431768211454".into(), // 2^128 - 2
            1 => "340282366920938463463374607431768211455".into(), // 2^128 - 1
            2 => "340282366920938463463374607431768211456".into(), // 2^128
            3 => "1361129467683753853853498429727072845824".into(), // 2^130
            4 => format!("1{}", "0".repeat(g.range(30, 60) as usize)),
            _ => {
                let p = 1u128 << g.below(128);
                let d = g.below(5) as u128;
                p.saturating_add(d).saturating_sub(2).to_string()
            }
        }
    }
    pub fn gen(g: &mut Gen) -> SplitCase {
        let f = g.fam();
        let a = g.value(f);
        let p = match g.weighted(&[4, 2, 1]) {
            0 => g.prefix(f),
            1 => f.bits() - g.range(1, 8) as u32,
            _ => g.below(4) as u32,
        };
        let net = Spec::new(f, a, f.prefix_mask(p));
        let hb = f.bits() - p;
        let mut counts: Vec<String> = Vec::new();
        match g.weighted(&[7, 3, 1]) {
            0 => {
                // cut the network into pieces, then perhaps spoil it
                let mut pieces = if hb >= 1 { vec![hb] } else { Vec::new() };
                let most = *g.pick(&[30, 30, 30, 30, 30, 30, 30, 400]);
                let cuts = g.small(most);
                for _ in 0..cuts {
                    if pieces.is_empty() {
                        break;
                    }
                    let i = if g.chance(1, 2) { pieces.len() - 1 } else { g.below(pieces.len() as u64) as usize };
                    if pieces[i] >= 2 {
                        pieces[i] -= 1;
                        let h = pieces[i];
                        pieces.push(h);
                    }
                }
                counts = pieces.iter().map(|h| SplitCase::count_for(g, *h)).collect();
                match g.below(8) {
                    0 | 1 => {
                        for _ in 0..g.range(1, 3) {
                            if counts.len() > 1 {
                                let i = g.below(counts.len() as u64) as usize;
                                counts.remove(i);
                            }
                        }
                    }
                    2 | 3 => {
                        // shrink some requests
                        for c in counts.iter_mut() {
                            if g.chance(1, 3) {
                                let h = needed(c).unwrap();
                                let h = g.range(1, h as u64) as u32;
                                *c = SplitCase::count_for(g, h);
                            }
                        }
                    }
                    4 => {
                        // one more than fits
                        let h = if hb >= 1 { g.range(1, hb as u64) as u32 } else { 1 };
                        counts.push(SplitCase::count_for(g, h));
                    }
                    5 => {
                        // one more host somewhere
                        if !counts.is_empty() {
                            let i = g.below(counts.len() as u64) as usize;
                            let n: u128 = counts[i].parse().unwrap();
                            counts[i] = n.saturating_add(1).to_string();
                        }
                    }
                    _ => {}
                }
                g.shuffle(&mut counts);
            }
            1 => {
                let n = 1 + g.small(20);
                let max = 1u64 << hb.min(30);
                for _ in 0..n {
                    let c = match g.below(4) {
                        3 => g.source_number().min(max as u128) as u64,
                        0 => g.below(10),
                        1 => g.below(max / n + 2),
                        _ => g.small(max.min(1000)),
                    };
                    counts.push(c.to_string());
                }
            }
            _ => {
                let n = 1 + g.small(5);
                for _ in 0..n {
                    let c = if g.chance(1, 2) { SplitCase::big_count(g) } else { g.below(100).to_string() };
                    counts.push(c);
                }
            }
        }
        if counts.is_empty() {
            counts.push(g.below(4).to_string());
        }
        counts.truncate(if g.chance(1, 20) { 400 } else { 40 });
        SplitCase { net, counts }
    }
    fn simpler(&self) -> Vec<SplitCase> {
        let mut out: Vec<SplitCase> = shorter(&self.counts, 1).into_iter().map(|counts| SplitCase { net: self.net, counts }).collect();
        for v in simpler_elements(&self.counts, |c| match c.parse::<u128>() {
            Ok(0) => vec![],
            Ok(n) => vec!["0".to_string(), (n / 2).to_string(), (n - 1).to_string()],
            Err(_) => vec![u128::MAX.to_string()],
        }) {
            out.push(SplitCase { net: self.net, counts: v });
        }
        for net in self.net.simpler() {
            if net.net().prefix().is_some() {
                out.push(SplitCase { net, counts: self.counts.clone() });
            }
        }
        out
    }
    /// Small universe: every list of up to four sizes for small networks, in several places.
    fn all_small() -> Box<dyn Iterator<Item = SplitCase>> {
        let places = [
            Spec::new(Fam::V4, 0x0A00_0000, 0xFFFF_FFF0),
            Spec::new(Fam::V4, 0xFFFF_FFFF, 0xFFFF_FFF0),
            Spec::new(Fam::V4, 0, 0xFFFF_FFF8),
            Spec::new(Fam::V4, 0x0A00_0001, 0xFFFF_FFFC),
            Spec::new(Fam::V4, 0x0A00_0001, 0xFFFF_FFFE),
            Spec::new(Fam::V4, 0xFFFF_FFFF, 0xFFFF_FFFF),
            Spec::new(Fam::V6, u128::MAX, u128::MAX << 4),
            Spec::new(Fam::V6, 0, u128::MAX << 3),
        ];
        let counts = ["0", "1", "2", "3", "6", "14", "15"];
        Box::new(places.into_iter().flat_map(move |net| {
            (1..=4usize).flat_map(move |len| {
                (0..7usize.pow(len as u32)).map(move |mut i| {
                    let mut v = Vec::new();
                    for _ in 0..len {
                        v.push(counts[i % 7].to_string());
                        i /= 7;
                    }
                    SplitCase { net, counts: v }
                })
            })
        }))
    }
    /// Many requests: around the numbers that fit into a byte or two, exactly as many as fit, one more.
    fn all_many() -> Box<dyn Iterator<Item = SplitCase>> {
        let mut out: Vec<(Spec, usize, u8)> = Vec::new();
        for n in [41usize, 63, 64, 65, 100, 127, 128, 129, 199, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 2049, 4096, 4097] {
            for kind in 0..4 {
                out.push((Spec::new(Fam::V4, 0x0A00_0000, 0xFF00_0000), n, kind));
                if n < 600 {
                    out.push((Spec::new(Fam::V6, u128::MAX << 3, u128::MAX << 60), n, kind));
                }
            }
            if n.is_power_of_two() {
                for more in 0..2 {
                    out.push((Spec::new(Fam::V4, 0xFFFF_FFFF, Fam::V4.prefix_mask(30 - n.trailing_zeros())), n + more, 0));
                    out.push((Spec::new(Fam::V6, 1 << 127, Fam::V6.prefix_mask(126 - n.trailing_zeros())), n + more, 0));
                }
            }
        }
        out.push((Spec::new(Fam::V4, 0x0A00_0000, 0xFF00_0000), 66_000, 1));
        out.push((Spec::new(Fam::V4, 0x0A00_0000, 0xFFFC_0000), 65_536, 0));
        out.push((Spec::new(Fam::V4, 0x0A00_0000, 0xFFFC_0000), 65_537, 0));
        Box::new(out.into_iter().map(|(net, n, kind)| {
            let counts = (0..n)
                .map(|i| match kind {
                    0 => "2",
                    1 => ["2", "2", "6", "2", "2", "0", "2"][i % 7],
                    2 => ["1", "200", "5", "2", "30", "62", "14", "3", "6"][i * i % 9],
                    _ if i + 1 == n => "1000",
                    _ => "1",
                })
                .map(String::from)
                .collect();
            SplitCase { net, counts }
        }))
    }
    /// Whole and half address spaces and networks across the 64-bit boundary.
    fn all_large() -> Box<dyn Iterator<Item = SplitCase>> {
        Box::new([Fam::V4, Fam::V6].into_iter().flat_map(|f| {
            let n = f.bits();
            (0..=n).flat_map(move |p| {
                [0u128, f.ones()].into_iter().flat_map(move |a| {
                    let hb = n - p;
                    let all = |h: u32| (if h == 128 { u128::MAX - 1 } else { (1u128 << h).saturating_sub(2) }).to_string();
                    let mut lists = vec![vec![all(hb)]];
                    if hb >= 2 {
                        lists.push(vec![all(hb - 1), all(hb - 1)]);
                        lists.push(vec![all(hb - 1), "0".into(), all(hb - 1)]);
                        lists.push(vec![all(hb - 1)]);
                        // halves, quarters, ... down to two addresses
                        let mut v: Vec<String> = (1..hb).map(all).collect();
                        v.push(all(1));
                        v.truncate(130);
                        lists.push(v);
                        lists.push(vec!["0".into()]);
                    }
                    lists.push(vec![(if hb == 128 { u128::MAX } else { (1u128 << hb) - 1 }).to_string()]);
                    lists.into_iter().map(move |counts| SplitCase { net: Spec::new(f, a, f.prefix_mask(p)), counts })
                })
            })
        }))
    }
}

fn labels(c: &SplitCase, v: Verdict) -> Verdict {
    let net = c.net.net();
    v.label(net.fam == Fam::V6, "ipv6")
        .label(c.fits(), "fits")
        .label(!c.fits(), "does not fit")
        .label(net.last() == net.fam.ones(), "reaches the end of the space")
        .label(c.counts.iter().any(|n| n == "0"), "a request for zero hosts")
        .label(c.counts.len() > 8, "more than eight requests")
        .label(c.counts.len() > 40, "more than forty requests")
}

/// Slices of a split that must have succeeded, checked for form.
fn slices(c: &SplitCase, out: &Out) -> R<(Vec<Net>, Vec<Net>)> {
    if out.status != Status::Code(0) {
        return violation(format!("the requests fit, but the split gave {}", out.describe()));
    }
    let s = parse_split(out.text()?)?;
    if s.complains {
        return violation("the requests fit, but the split complains");
    }
    if s.slices.len() != c.counts.len() {
        return violation(format!("{} slices for {} requests", s.slices.len(), c.counts.len()));
    }
    let nets: Vec<Net> = s.slices.iter().map(|b| network_of(&b.rows)).collect::<R<_>>()?;
    Ok((nets, s.unused))
}

pub struct C08;
impl Property for C08 {
    type Case = SplitCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a CIDR network of either family and any size and 1-40, now and then up to 400, host counts, mostly obtained by cutting the network into random pieces (each count at, just above or anywhere between the bounds of its size; then perhaps dropping, reducing or adding some and shuffling), otherwise free or huge; systematic: all lists of one to four counts out of seven for eight small networks, exact and nearly exact divisions of every prefix at both ends of the space, and 41 to 66,000 requests of four kinds, as many as fit and one more. Where the requests fit, every slice is checked for size, place, disjointness and all its printed rows. Non-trivial: the requests fit and there are at least two slices of different sizes.";
    const QUICK: u64 = 200_000;
    fn gen(&self, g: &mut Gen) -> SplitCase {
        SplitCase::gen(g)
    }
    fn shrink(&self, c: &SplitCase) -> Vec<SplitCase> {
        c.simpler()
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = SplitCase>> {
        Box::new(SplitCase::all_small().chain(SplitCase::all_large()).chain(SplitCase::all_many()))
    }
    fn check(&self, c: &SplitCase, x: &mut Exec) -> R<Verdict> {
        if !c.fits() {
            return Ok(labels(c, Verdict::new(false)));
        }
        let net = c.net.net();
        let n = net.fam.bits();
        let out = c.run(false, x)?;
        let (nets, _) = slices(c, &out)?;
        let s = parse_split(out.text()?)?;
        check_rows(&s.original, &net, None)?;
        for (i, (slice, count)) in nets.iter().zip(&c.counts).enumerate() {
            let want = n - needed(count).unwrap();
            if slice.fam != net.fam || slice.prefix() != Some(want) {
                return violation(format!("request {} for {} hosts: got {}, the smallest sufficient network has prefix {}", i + 1, count, slice.shown(), want));
            }
            if !net.covers(slice) {
                return violation(format!("request {} for {} hosts: {} lies outside {}", i + 1, count, slice.shown(), net.shown()));
            }
            check_rows(&s.slices[i].rows, slice, None)?;
            let digits: Vec<&str> = s.slices[i].title.split(' ').filter(|w| w.bytes().all(|b| b.is_ascii_digit())).collect();
            if !digits.is_empty() && digits != [count.as_str()] {
                return violation(format!("request {} for {} hosts is headed {:?}", i + 1, count, s.slices[i].title));
            }
        }
        let mut sorted: Vec<&Net> = nets.iter().collect();
        sorted.sort_by_key(|s| s.base);
        for w in sorted.windows(2) {
            if !w[0].disjoint(w[1]) {
                return violation(format!("the slices {} and {} share addresses", w[0].shown(), w[1].shown()));
            }
        }
        let sizes: std::collections::HashSet<u32> = nets.iter().map(|s| s.host_bits()).collect();
        Ok(labels(c, Verdict::new(sizes.len() > 1)))
    }
}

pub struct C09;
impl Property for C09 {
    type Case = SplitCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "the splits of C08; where the requests fit, the networks listed as unused must be exactly the unique smallest ascending CIDR cover of the network minus the printed slices, which must lie inside the network and not overlap. Non-trivial: the requests fit and something is left over, or the network is used up exactly by at least two slices.";
    const QUICK: u64 = 220_000;
    fn gen(&self, g: &mut Gen) -> SplitCase {
        SplitCase::gen(g)
    }
    fn shrink(&self, c: &SplitCase) -> Vec<SplitCase> {
        c.simpler()
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = SplitCase>> {
        Box::new(SplitCase::all_small().chain(SplitCase::all_large()).chain(SplitCase::all_many()))
    }
    fn check(&self, c: &SplitCase, x: &mut Exec) -> R<Verdict> {
        if !c.fits() {
            return Ok(labels(c, Verdict::new(false)));
        }
        let net = c.net.net();
        let out = c.run(true, x)?;
        let (mut nets, unused) = slices(c, &out)?;
        nets.sort_by_key(|s| s.base);
        let mut free: Vec<Net> = Vec::new();
        let mut next = Some(net.base);
        for s in &nets {
            if !net.covers(s) || next.is_none_or(|n| s.base < n) {
                return violation(format!("the slice {} lies outside {} or overlaps another slice", s.shown(), net.shown()));
            }
            if s.base > next.unwrap() {
                free.extend(cover_interval(net.fam, next.unwrap(), s.base - 1));
            }
            next = if s.last() == net.last() { None } else { Some(s.last() + 1) };
        }
        if let Some(n) = next {
            free.extend(cover_interval(net.fam, n, net.last()));
        }
        if unused != free {
            let show = |v: &[Net]| v.iter().map(Net::shown).collect::<Vec<_>>().join(" ");
            return violation(format!("unused networks are listed as [{}], expected [{}]", show(&unused), show(&free)));
        }
        Ok(labels(c, Verdict::new(!free.is_empty() || nets.len() > 1)).label(free.is_empty(), "nothing left over"))
    }
}

pub struct C10;
impl Property for C10 {
    type Case = SplitCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "the splits of C08 (dense around exact capacity: exact divisions, one more request, one more host, counts up to beyond 2^130); the verdict of the program is compared with the sum of the smallest sizes. Non-trivial: the sum is between half and twice the size of the network, or some count needs more than the whole address space.";
    const QUICK: u64 = 240_000;
    fn gen(&self, g: &mut Gen) -> SplitCase {
        SplitCase::gen(g)
    }
    fn shrink(&self, c: &SplitCase) -> Vec<SplitCase> {
        c.simpler()
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = SplitCase>> {
        Box::new(SplitCase::all_small().chain(SplitCase::all_large()).chain(SplitCase::all_many()))
    }
    fn check(&self, c: &SplitCase, x: &mut Exec) -> R<Verdict> {
        let out = c.run(false, x)?;
        if c.fits() {
            slices(c, &out)?;
        } else {
            if !out.clean() {
                return violation(format!("the requests do not fit; the split gave {}", out.describe()));
            }
            let s = parse_split(out.text()?)?;
            let message = String::from_utf8_lossy(&out.err).to_lowercase();
            if !s.complains && !message.contains("too small") && !message.contains("not enough") {
                return violation(format!("the requests do not fit, but the split does not say so: {}", out.describe()));
            }
            if !s.unused.is_empty() {
                return violation(format!("the requests do not fit, but unused networks are listed: {:?}", s.unused));
            }
        }
        let hb = c.net.net().host_bits() as f64;
        let sum: f64 = c.counts.iter().map(|n| needed(n).map_or(f64::INFINITY, |h| (h as f64).exp2())).sum();
        let ratio = sum / hb.exp2();
        Ok(labels(c, Verdict::new((0.5..=2.0).contains(&ratio) || ratio.is_infinite()))
            .label(ratio == 1.0, "exact division")
            .label(ratio > 1.0 && ratio <= 1.5, "slightly too much"))
    }
}
