//! Properties of the modes that print lists: C02 (enumerate), C03, C04 (minimize), C05 (derange).

use serde::{Deserialize, Serialize};

use super::*;
use crate::engine::*;
use crate::exec::*;

/// Compares a printed list with the expected one.
pub fn expect_lines(out: &Out, want: &[String]) -> R<()> {
    let got = out.lines()?;
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return violation(format!("line {} of {} is missing: {:?}", i + 1, want.len(), w)),
            Some(g) if g != w => return violation(format!("line {}: expected {:?}, got {:?} (expected {} lines, got {})", i + 1, w, g, want.len(), got.len())),
            _ => {}
        }
    }
    if got.len() > want.len() {
        return violation(format!("line {}: {:?} is too much (expected {} lines, got {})", want.len() + 1, got[want.len()], want.len(), got.len()));
    }
    Ok(())
}
fn shown(nets: &[Net]) -> Vec<String> {
    nets.iter().map(Net::shown).collect()
}

pub struct C02;
impl Property for C02 {
    type Case = Spec;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a network with 0 to 13 host bits (one run, two runs, scattered, at the top, across the 64-bit boundary), base anywhere including both ends of the space, host bits of the given address random; systematic: every mask with at most two host bits (IPv4 all, IPv6 all single and a third of the pairs) with three bases, and networks of 14 to 17 host bits (18 in the thorough tier). The listing is compared line by line with the model. Non-trivial: at least four members.";
    const QUICK: u64 = 150_000;
    fn gen(&self, g: &mut Gen) -> Spec {
        let f = g.fam();
        let hb = match g.weighted(&[12, 6, 1]) {
            0 => g.below(6),
            1 => g.range(5, 9),
            _ => g.range(9, 13),
        } as u32;
        let m = g.mask_with_host_bits(f, hb);
        let a = g.value(f);
        Spec::new(f, a, m)
    }
    fn shrink(&self, c: &Spec) -> Vec<Spec> {
        let most = c.net().host_bits().max(13);
        c.simpler().into_iter().filter(|s| s.net().host_bits() <= most).collect()
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Spec>> {
        let mut out = Vec::new();
        // long lists, contiguous and lopsided
        let sizes: &[u32] = if tier == Tier::Quick { &[14, 15, 16, 17] } else { &[14, 15, 16, 17, 18] };
        for h in sizes {
            for f in [Fam::V4, Fam::V6] {
                let base = 0xFE5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A & f.ones();
                let n = f.bits();
                out.push(Spec::new(f, base, f.prefix_mask(n - h)));
                out.push(Spec::new(f, f.ones(), f.prefix_mask(n - h)));
                if *h <= 17 {
                    out.push(Spec::new(f, base, f.ones() & !(((1 << (h / 2)) - 1) << (n / 2 - 3) | ((1 << h.div_ceil(2)) - 1) << 1)));
                }
            }
        }
        for f in [Fam::V4, Fam::V6] {
            let n = f.bits();
            let mut wilds = vec![0u128];
            for a in 0..n {
                wilds.push(1 << a);
                for b in 0..a {
                    if f == Fam::V4 || (a + b) % 3 == 0 || a == 64 || b == 63 || a == 127 || b == 0 {
                        wilds.push(1 << a | 1 << b);
                    }
                }
            }
            for w in wilds {
                for base in [0, f.ones(), 0x5555_5555_5555_5555_5555_5555_5555_5555 & f.ones()] {
                    out.push(Spec::new(f, base, !w & f.ones()));
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Spec, x: &mut Exec) -> R<Verdict> {
        let net = c.net();
        let text = c.text();
        let out = x.run(&["-e", &text])?.ok()?;
        let want: Vec<String> = (0..=net.last_index()).map(|i| fmt_addr(net.fam, net.member(i))).collect();
        expect_lines(&out, &want)?;
        let w = net.wild();
        Ok(Verdict::new(net.host_bits() >= 2)
            .label(net.prefix().is_none(), "lopsided")
            .label(net.fam == Fam::V6, "ipv6")
            .label(net.last() == net.fam.ones(), "reaches the end of the space")
            .label(w >> 64 != 0 && w as u64 != 0, "host bits in both 64-bit halves")
            .label(c.has_host_bits_set(), "address with host bits")
            .label(net.host_bits() == 0, "single member"))
    }
}

// ------------------------------------------------------------------------------------------------

pub struct C03;
fn tree(root: Net, depth: u32) -> Vec<Net> {
    let p = root.prefix().unwrap();
    let n = root.fam.bits();
    let mut out = Vec::new();
    for d in 0..=depth {
        for i in 0..1u128 << d {
            let shift = n - p - d;
            out.push(Net::cidr(root.fam, root.base | if shift >= 128 { 0 } else { i << shift }, p + d));
        }
    }
    out
}
impl Property for C03 {
    type Case = Vec<Net>;
    const ID: &'static str = "C03";
    const RULE: &'static str = "lists of 1-60, now and then up to 400, CIDR networks of one family: clusters around a common ancestor (siblings, nested, next neighbours, duplicates), minimal covers cut to pieces and shuffled, and unrelated networks; systematic: every subset of the 15 nodes of a three-level prefix tree at three places (IPv4 root, IPv4 end of space, IPv6 across the 64-bit boundary), in shuffled order, 32 to 512 equally large neighbours with at most one missing, and rows and scattered networks of up to 4097. The output must equal the unique minimal cover computed by an interval model (which also makes it sorted, idempotent and independent of order and repetition; the latter two are additionally run for every eighth case). Non-trivial: the minimal cover differs from the sorted input.";
    const QUICK: u64 = 380_000;
    fn gen(&self, g: &mut Gen) -> Vec<Net> {
        let f = g.fam();
        match g.weighted(&[6, 3, 1]) {
            0 => {
                let max = *g.pick(&[6, 16, 40]);
                g.cidr_cluster(f, max)
            }
            1 => {
                // cut random intervals to pieces: everything must merge again
                let mut nets = Vec::new();
                for _ in 0..g.range(1, 3) {
                    let a = g.value(f);
                    let b = if g.chance(1, 2) { (a.saturating_add(g.below(300) as u128)).min(f.ones()) } else { g.value(f) };
                    nets.extend(cover_interval(f, a.min(b), a.max(b)));
                }
                let most = *g.pick(&[20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 300]);
                let cuts = g.small(most);
                for _ in 0..cuts {
                    let i = g.below(nets.len() as u64) as usize;
                    let n = nets[i];
                    let p = n.prefix().unwrap();
                    if p < f.bits() {
                        let half = Net::cidr(f, n.base, p + 1);
                        nets.push(Net::cidr(f, half.last().wrapping_add(1), p + 1));
                        if g.chance(7, 8) {
                            nets[i] = half;
                        } else {
                            nets.push(half);
                        }
                    }
                }
                g.shuffle(&mut nets);
                nets.truncate(if most > 20 { 400 } else { 60 });
                nets
            }
            _ => {
                let n = 1 + g.small(30);
                (0..n).map(|_| g.cidr_net(f)).collect()
            }
        }
    }
    fn shrink(&self, c: &Vec<Net>) -> Vec<Vec<Net>> {
        let mut out = shorter(c, 1);
        out.extend(simpler_elements(c, simpler_nets));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Vec<Net>>> {
        let roots = [Net::cidr(Fam::V4, 0, 0), Net::cidr(Fam::V4, 0xFFFF_FFF8, 29), Net::cidr(Fam::V6, 0x2001_0db8 << 96, 62)];
        let mut rows = Vec::new();
        for (f, base, p) in [(Fam::V4, 0x0A00_0000u128, 8u32), (Fam::V4, 0xFFFF_FE00, 23), (Fam::V6, 0x2001_0db8 << 96, 60), (Fam::V6, 0, 0)] {
            for k in 5..=9 {
                for missing in [u128::MAX, 0, 1, (1 << k) - 1] {
                    let mut v: Vec<Net> = (0..1u128 << k).filter(|i| *i != missing).map(|i| Net::cidr(f, base | i << (f.bits() - p - k), p + k)).collect();
                    fixed_shuffle(&mut v, (k as u64).wrapping_add(missing as u64));
                    rows.push(v);
                }
            }
        }
        for (f, step) in [(Fam::V4, 9u32), (Fam::V6, 60)] {
            for n in [1023u128, 1024, 1025, 2049, 4097] {
                // networks that do not touch, each several times or with a part of it; and a row of some of them
                let mut v: Vec<Net> = (0..n).map(|i| Net::cidr(f, i << step, f.bits() - step + 1 + (i % 4 == 3) as u32)).collect();
                fixed_shuffle(&mut v, n as u64);
                rows.push(v.clone());
                let mut v: Vec<Net> = v[..n as usize / 2].iter().flat_map(|n| [*n, Net::cidr(f, n.base, n.prefix().unwrap() + 2)]).collect();
                fixed_shuffle(&mut v, n as u64);
                rows.push(v);
            }
            for k in [10u32, 11] {
                let mut v: Vec<Net> = (5..1u128 << k).map(|i| Net::cidr(f, i << step, f.bits() - step)).collect();
                fixed_shuffle(&mut v, k as u64);
                rows.push(v);
            }
        }
        Box::new(rows.into_iter().chain(roots.into_iter().flat_map(|r| {
            let t = tree(r, 3);
            (1u32..1 << t.len()).map(move |set| {
                let mut v: Vec<Net> = t.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, n)| *n).collect();
                fixed_shuffle(&mut v, set as u64);
                v
            })
        })))
    }
    fn check(&self, c: &Vec<Net>, x: &mut Exec) -> R<Verdict> {
        let mut argv = vec!["-m".to_string()];
        argv.extend(shown(c));
        let want = aggregate(c);
        let out = x.run(&argv)?.ok()?;
        expect_lines(&out, &shown(&want))?;
        if (c.len() as u128).wrapping_add(c[0].base) % 8 == 0 {
            // reversed with repetitions, and once more on the result
            let mut again = vec!["--minimize".to_string()];
            again.extend(shown(c).into_iter().rev());
            again.extend(shown(&c[..c.len().div_ceil(2)]));
            expect_lines(&x.run(&again)?.ok()?, &shown(&want))?;
            let mut again = vec!["-m".to_string()];
            again.extend(shown(&want));
            expect_lines(&x.run(&again)?.ok()?, &shown(&want))?;
        }
        let mut sorted = c.clone();
        sorted.sort();
        let iv = intervals(c);
        Ok(Verdict::new(sorted != want)
            .label(c[0].fam == Fam::V6, "ipv6")
            .label(want.len() < c.len(), "fewer than given")
            .label(c.len() > 20, "more than 20 networks")
            .label(c.len() > 100, "more than 100 networks")
            .label(iv[0].0 == 0, "reaches the start of the space")
            .label(iv.last().unwrap().1 == c[0].fam.ones(), "reaches the end of the space")
            .label(want.iter().any(|w| c.iter().filter(|n| w.covers(n) && *n != w).count() > 2 && !c.contains(w)), "several merged into one"))
    }
}

// ------------------------------------------------------------------------------------------------

pub struct C04;
impl Property for C04 {
    type Case = Vec<Net>;
    const ID: &'static str = "C04";
    const RULE: &'static str = "lists of 1-30, now and then up to 400, networks of one family whose masks and bases vary in a shared set of 2-11 bit positions anywhere in the address (so that they overlap, cross, nest and neighbour each other), a third of them lopsided networks cut to pieces that join again, sometimes with arbitrary ones added; systematic: rows of 32 to 256 lopsided neighbours with at most one missing, 512 and 1024 that cannot be joined, and all pairs and a third of all triples of the 27 networks over three bit positions, at several positions. Exact union equality is decided by splitting cubes; antichain, unmergeability, count, order, idempotence and independence of argument order are checked on the output. Non-trivial: at least one lopsided network, and an output that differs from the sorted input.";
    const QUICK: u64 = 240_000;
    fn gen(&self, g: &mut Gen) -> Vec<Net> {
        let f = g.fam();
        let n = f.bits() as u64;
        let long = g.chance(1, 150);
        let k = if long { g.range(6, 11) } else { g.range(2, 8) };
        let mut bits: Vec<u32> = Vec::new();
        match g.below(3) {
            0 => {
                // neighbouring positions
                let at = g.below(n - k + 1);
                bits.extend((0..k).map(|i| (at + i) as u32));
            }
            1 => {
                while bits.len() < k as usize {
                    let b = g.below(n) as u32;
                    if !bits.contains(&b) {
                        bits.push(b);
                    }
                }
            }
            _ => {
                // around the middle and both ends
                let pool = [0, 1, 2, n / 2 - 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, 7, 8];
                for _ in 0..k {
                    let b = *g.pick(&pool) as u32;
                    if !bits.contains(&b) {
                        bits.push(b);
                    }
                }
            }
        }
        let universe = bits.iter().fold(0u128, |m, b| m | 1 << b);
        let fixed_base = g.value(f) & !universe;
        let fixed_mask = match g.below(4) {
            0 | 1 => f.ones(),
            2 => g.mask(f),
            _ => g.lopsided_mask(f),
        } & !universe;
        let style = if long { 2 } else { g.below(3) };
        let masks: Vec<u128> = (0..g.range(1, 4)).map(|_| g.u128() & universe).collect();
        let count = 1 + g.small(if style == 0 { 29 } else { 15 });
        let mut out = Vec::new();
        if g.chance(1, 3) {
            // cut one network up by its lowest host bits, so that the pieces join again
            let start = Net::new(f, fixed_base | g.u128() & universe, fixed_mask | g.pick(&masks) & g.u128());
            let mut pieces = vec![start];
            for _ in 0..1 + g.small(20) {
                let i = g.below(pieces.len() as u64) as usize;
                let n = pieces[i];
                let wild = !n.mask & f.ones();
                if wild == 0 {
                    continue;
                }
                let highest = 1u128 << (127 - wild.leading_zeros());
                let bit = if g.chance(7, 8) { highest } else { wild & wild.wrapping_neg() };
                pieces[i] = Net::new(f, n.base, n.mask | bit);
                pieces.push(Net::new(f, n.base | bit, n.mask | bit));
            }
            if g.chance(1, 4) {
                let i = g.below(pieces.len() as u64) as usize;
                pieces.swap_remove(i);
            }
            g.shuffle(&mut pieces);
            out = pieces;
        }
        let count = if long {
            g.range(40, 400)
        } else if out.is_empty() {
            count
        } else {
            g.small(3)
        };
        for _ in 0..count {
            let m = match style {
                0 => *g.pick(&masks),
                1 => g.u128() & universe,
                _ if long => universe & !(g.u128() & g.u128() & g.u128()),
                _ => universe & !(g.u128() & g.u128()),
            };
            let b = g.u128() & universe;
            out.push(Net::new(f, fixed_base | b, fixed_mask | m));
        }
        if g.chance(1, 6) {
            out.push(g.net(f));
        }
        if g.chance(1, 4) {
            let again = *g.pick(&out);
            out.push(again);
        }
        out
    }
    fn shrink(&self, c: &Vec<Net>) -> Vec<Vec<Net>> {
        let mut out = shorter(c, 1);
        out.extend(simpler_elements(c, simpler_nets));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Vec<Net>>> {
        let places: Vec<(Fam, [u32; 3])> = vec![(Fam::V4, [0, 1, 2]), (Fam::V4, [7, 8, 31]), (Fam::V6, [63, 64, 127]), (Fam::V6, [0, 63, 64])];
        let mut rows = Vec::new();
        for (f, base, mask) in [
            (Fam::V4, 0x0A00_0102u128, 0xFF00_FFFDu128),
            (Fam::V4, 0xFFFF_FFFF, 0xF0F0_F0F0),
            (Fam::V6, 0x2001_0db8 << 96 | 7, u128::MAX << 80 | 0xFFFF),
            (Fam::V6, u128::MAX, 0xF0F0_F0F0_F0F0_F0F0_F0F0_F0F0_F0F0_F0F0),
        ] {
            for k in [5, 6, 7, 8, 10, 11u32] {
                if k > (!mask & f.ones()).count_ones() {
                    continue;
                }
                // the highest host bits become network bits
                let mut finer = mask;
                let mut new = 0u128;
                for _ in 0..k {
                    let wild = !finer & f.ones();
                    let bit = 1 << (127 - wild.leading_zeros());
                    finer |= bit;
                    new |= bit;
                }
                if k > 8 {
                    // every second one, so that none can be joined; and some more than once
                    let mut v: Vec<Net> = (0..1u128 << k).filter(|i| i.count_ones() % 2 == 1).map(|i| Net::new(f, base & mask | pdep(i, new), finer)).collect();
                    fixed_shuffle(&mut v, k as u64);
                    let again = v[..70].to_vec();
                    v.extend(again);
                    rows.push(v);
                    continue;
                }
                for missing in [u128::MAX, 0, (1 << k) - 1] {
                    let mut v: Vec<Net> = (0..1u128 << k).filter(|i| *i != missing).map(|i| Net::new(f, base & mask | pdep(i, new), finer)).collect();
                    fixed_shuffle(&mut v, (k as u64).wrapping_add(missing as u64));
                    rows.push(v);
                }
            }
        }
        Box::new(rows.into_iter().chain(places.into_iter().flat_map(|(f, pos)| {
            let mut nets = Vec::new();
            for code in 0..27u32 {
                let (mut base, mut mask, mut c) = (0u128, f.ones(), code);
                for p in pos {
                    match c % 3 {
                        0 => mask &= !(1 << p),
                        1 => {}
                        _ => base |= 1 << p,
                    }
                    c /= 3;
                }
                nets.push(Net::new(f, base, mask));
            }
            let mut out = Vec::new();
            for i in 0..27 {
                for j in 0..27 {
                    if i < j {
                        out.push(vec![nets[j], nets[i]]);
                    }
                    for k in 0..j {
                        if i < k && (i + j + k) % 3 == 0 {
                            out.push(vec![nets[k], nets[i], nets[j]]);
                        }
                    }
                }
            }
            out.into_iter()
        })))
    }
    fn check(&self, c: &Vec<Net>, x: &mut Exec) -> R<Verdict> {
        let f = c[0].fam;
        let mut argv = vec!["-m".to_string()];
        argv.extend(shown(c));
        let out = x.run(&argv)?.ok()?;
        let mut got: Vec<Net> = Vec::new();
        for l in out.lines()? {
            match parse_shown_net(l) {
                Some(n) if n.fam == f && n.shown() == l => got.push(n),
                _ => return violation(format!("{:?} is not a network in the program's notation", l)),
            }
        }
        // same union
        let mut budget = 400_000u64;
        let mut exact = true;
        for (xs, ys, what) in [(c, &got, "is no longer covered"), (&got, c, "was not covered by the input")] {
            for n in xs {
                match covered_by_union(n, ys, &mut budget) {
                    Some(true) => {}
                    Some(false) => return violation(format!("{} {}; output {:?}", n.shown(), what, got)),
                    None => exact = false,
                }
            }
        }
        for (i, a) in got.iter().enumerate() {
            for (j, b) in got.iter().enumerate() {
                if i != j && a.covers(b) {
                    return violation(format!("{} contains {} in the output", a.shown(), b.shown()));
                }
                if a.mask == b.mask && b.number() == a.number().wrapping_add(1) && a.number() % 2 == 0 {
                    return violation(format!("{} and {} in the output form one network", a.shown(), b.shown()));
                }
                if i < j && (a.base, a.mask) >= (b.base, b.mask) {
                    return violation(format!("the output is not sorted: {} before {}", a.shown(), b.shown()));
                }
            }
        }
        if got.len() > c.len() || got.is_empty() {
            return violation(format!("{} networks given, {} printed", c.len(), got.len()));
        }
        // other order and repetitions; once more on the result
        let mut other = c.clone();
        fixed_shuffle(&mut other, c.len() as u64 ^ c[0].base as u64);
        other.extend_from_slice(&c[..c.len().div_ceil(2)]);
        let mut argv = vec!["-m".to_string()];
        argv.extend(shown(&other));
        let again = x.run(&argv)?.ok()?;
        if again.out != out.out {
            return violation(format!("other output for other argument order: {:?} and {:?}", out.text()?, again.text()?));
        }
        let mut argv = vec!["-m".to_string()];
        argv.extend(shown(&got));
        let again = x.run(&argv)?.ok()?;
        if again.out != out.out {
            return violation(format!("not idempotent: {:?} becomes {:?}", out.text()?, again.text()?));
        }
        let mut sorted = c.clone();
        sorted.sort_by_key(|n| (n.base, n.mask));
        let lop = c.iter().any(|n| n.prefix().is_none());
        Ok(Verdict::new(lop && sorted != got && exact)
            .label(!exact, "union only partly decided")
            .label(lop, "lopsided")
            .label(f == Fam::V6, "ipv6")
            .label(got.len() < c.len(), "fewer than given")
            .label(got.iter().any(|n| !c.contains(n)), "merged")
            .label(got.iter().enumerate().any(|(i, a)| got[..i].iter().any(|b| !a.disjoint(b))), "crossing networks remain"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Range {
    pub one: Addr,
    pub other: Addr,
}
pub struct C05;
impl Property for C05 {
    type Case = Range;
    const ID: &'static str = "C05";
    const RULE: &'static str = "pairs of addresses of one family in either order: independent, near each other, the exact ends of networks or of runs of networks, off by one from those, and touching either end of the space; systematic: all ordered pairs in 48-address windows at the start, the middle (2^31, 2^63, 2^64) and the end of the space. The output must equal the greedy minimal cover of the interval (itself cross-checked against brute force in the harness's unit tests). Non-trivial: the cover has at least two networks of different sizes.";
    const QUICK: u64 = 230_000;
    fn gen(&self, g: &mut Gen) -> Range {
        let f = g.fam();
        let ones = f.ones();
        let a = g.value(f);
        let b = match g.weighted(&[3, 3, 2, 2, 1]) {
            0 => g.value(f),
            1 => {
                let d = match g.below(3) {
                    0 => g.below(8) as u128,
                    1 => g.below(5000) as u128,
                    _ => g.u128() >> g.range(0, 127),
                };
                a.saturating_add(d).min(ones)
            }
            2 => {
                // the end of a network that a is the base of, or one off
                let n = g.cidr_net(f);
                let lo = (n.base.wrapping_add(g.below(3) as u128).wrapping_sub(1)) & ones;
                let hi = (n.last().wrapping_add(g.below(3) as u128).wrapping_sub(1)) & ones;
                return if g.chance(1, 2) {
                    Range { one: Addr::new(f, lo), other: Addr::new(f, hi) }
                } else {
                    Range { one: Addr::new(f, hi), other: Addr::new(f, lo) }
                };
            }
            3 => {
                if g.chance(1, 2) {
                    ones - g.below(3) as u128
                } else {
                    g.below(3) as u128
                }
            }
            _ => a,
        };
        let (one, other) = if g.chance(1, 2) { (a, b) } else { (b, a) };
        Range { one: Addr::new(f, one), other: Addr::new(f, other) }
    }
    fn shrink(&self, c: &Range) -> Vec<Range> {
        let f = c.one.fam;
        let mut out = Vec::new();
        for v in simpler_values(f, c.one.v) {
            out.push(Range { one: Addr::new(f, v), ..c.clone() });
        }
        for v in simpler_values(f, c.other.v) {
            out.push(Range { other: Addr::new(f, v), ..c.clone() });
        }
        out
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Range>> {
        let w: u128 = if tier == Tier::Quick { 48 } else { 160 };
        let windows = [
            (Fam::V4, 0u128),
            (Fam::V4, (1 << 31) - w / 2),
            (Fam::V4, (1 << 32) - w),
            (Fam::V6, 0),
            (Fam::V6, (1 << 63) - w / 2),
            (Fam::V6, (1 << 64) - w / 2),
            (Fam::V6, (1 << 127) - w / 2),
            (Fam::V6, u128::MAX - (w - 1)),
        ];
        Box::new(windows.into_iter().flat_map(move |(f, at)| {
            (0..w).flat_map(move |i| (0..w).map(move |j| Range { one: Addr::new(f, at + i), other: Addr::new(f, at + j) }))
        }))
    }
    fn check(&self, c: &Range, x: &mut Exec) -> R<Verdict> {
        let f = c.one.fam;
        let (lo, hi) = (c.one.v.min(c.other.v), c.one.v.max(c.other.v));
        let want = cover_interval(f, lo, hi);
        let out = x.run(&["-d", &c.one.text(), &c.other.text()])?.ok()?;
        expect_lines(&out, &shown(&want))?;
        Ok(Verdict::new(want.iter().any(|n| n.mask != want[0].mask))
            .label(f == Fam::V6, "ipv6")
            .label(c.one.v > c.other.v, "descending arguments")
            .label(hi == f.ones(), "reaches the end of the space")
            .label(lo == 0, "reaches the start of the space")
            .label(lo == hi, "single address")
            .label(want.len() > 60, "more than 60 networks")
            .label(lo >> 64 != hi >> 64, "crosses a 64-bit boundary"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Large {
    pub nets: Vec<Spec>,
    /// How many bytes are read before the reader goes away.
    pub take: u64,
    /// 0, or the signal that the reader then sends instead of going away.
    #[serde(default)]
    pub signal: i32,
}
/// What people and systems send to what should stop.
const SIGNALS: &[i32] = &[libc::SIGINT, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT];
pub struct C23;
impl Property for C23 {
    type Case = Large;
    const ID: &'static str = "C23";
    const RULE: &'static str = "enumerating one to three networks of which one has 2^14 to 2^128 addresses (CIDR and lopsided), the reader leaving after up to 40,000 bytes (300,000 in some cases, 16 to 48 MiB in a few; the size of the network near one mentioned in the source or a word size in a quarter); what was read must be exactly the beginning of the listing, byte for byte, and the program must then (or when the reader, in a twelfth of the cases, sends it SIGINT, SIGTERM, SIGHUP or SIGQUIT) end, within 1 GiB of memory and 8 s of CPU time (and 8 s more for each MiB read), not claiming success. Systematic: every prefix length of both families. Non-trivial: something was read, and more than a pipe and a half remained.";
    const ASSUMPTIONS: &'static [&'static str] = &["The complete listing of the largest networks would take longer than the age of the universe; only its beginning can be observed."];
    const QUICK: u64 = 25_000;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Large {
        let mut nets = Vec::new();
        while g.chance(1, 5) && nets.len() < 2 {
            let f = g.fam();
            let hb = g.small(6) as u32;
            let m = g.mask_with_host_bits(f, hb);
            nets.push(Spec::new(f, g.value(f), m));
        }
        let f = g.fam();
        let hb = if g.chance(1, 4) {
            let n = match g.below(3) {
                0 => g.source_number() as u32 % 256,
                1 => (g.source_number() as u32 % 256).wrapping_add(64),
                _ => *g.pick(&[16u32, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128]),
            };
            let n = match g.below(4) {
                0 => f.bits().saturating_sub(n),
                1 => (n + 1).saturating_sub(g.below(3) as u32),
                _ => n,
            };
            n.clamp(14, f.bits())
        } else {
            g.range(14, f.bits() as u64) as u32
        };
        let cidr = g.chance(1, 2);
        let m = if cidr { f.prefix_mask(f.bits() - hb) } else { g.mask_with_host_bits(f, hb) };
        nets.push(Spec::new(f, g.value(f), m));
        let take = match g.weighted(&[120, 240, 240, 40, 1]) {
            0 => g.below(60),
            1 => g.below(5000),
            2 => g.below(40_000),
            3 => g.below(300_000),
            // odd: the release build
            _ => (1 << 24) + g.below(if cidr { 1 << 25 } else { 1 << 22 }) | 1,
        };
        let signal = if take <= 300_000 && g.chance(1, 12) { *g.pick(SIGNALS) } else { 0 };
        Large { nets, take, signal }
    }
    fn shrink(&self, c: &Large) -> Vec<Large> {
        let mut out: Vec<Large> = Vec::new();
        for nets in shorter(&c.nets, 1) {
            out.push(Large { nets, take: c.take, signal: c.signal });
        }
        for take in [0, c.take / 2, c.take.saturating_sub(100), c.take.saturating_sub(1)] {
            out.push(Large { nets: c.nets.clone(), take, signal: c.signal });
        }
        for nets in simpler_elements(&c.nets, |s| s.simpler().into_iter().filter(|t| (t.net().host_bits() >= 14) == (s.net().host_bits() >= 14) && (t.net().host_bits() >= 14 || t.net().host_bits() <= 6)).collect()) {
            out.push(Large { nets, take: c.take, signal: c.signal });
        }
        out.retain(|o| o != c);
        out
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Large>> {
        let mut out = Vec::new();
        for f in [Fam::V4, Fam::V6] {
            for p in 0..=f.bits() - 14 {
                let base = 0xFE5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A & f.ones();
                for (a, take) in [(base, 100), (0, 70_000), (f.ones(), 9000)] {
                    out.push(Large { nets: vec![Spec::new(f, a, f.prefix_mask(p))], take, signal: 0 });
                }
            }
        }
        for &signal in SIGNALS {
            for take in [0, 1, 100, 5000, 20_001] {
                for (f, a, p) in [(Fam::V4, 0x0A00_0000, 8), (Fam::V6, 1 << 64, 0)] {
                    out.push(Large { nets: vec![Spec::new(f, a, f.prefix_mask(p))], take, signal });
                }
            }
        }
        if tier == Tier::Thorough {
            for f in [Fam::V4, Fam::V6] {
                for p in 0..=f.bits() - 20 {
                    let base = 1 << (f.bits() - 2);
                    out.push(Large { nets: vec![Spec::new(f, base, f.prefix_mask(p))], take: (1 << 25) + 1, signal: 0 });
                }
            }
            for (a, p) in [("::", 0), ("ffff:ffff::", 32), ("0.0.0.0", 0), ("10.0.0.0", 8)] {
                let (f, v) = std_parse(a).unwrap();
                out.push(Large { nets: vec![Spec::new(f, v, f.prefix_mask(p))], take: 30_000_001, signal: 0 });
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Large, x: &mut Exec) -> R<Verdict> {
        let mut argv = vec!["-e".to_string()];
        argv.extend(c.nets.iter().map(Spec::text));
        let profile = if c.take % 2 == 0 { Profile::Dev } else { Profile::Release };
        let mut want: Vec<u8> = Vec::new();
        // some way beyond what is read
        let enough = c.take + 8192;
        'nets: for s in &c.nets {
            let net = s.net();
            let mut i = 0u128;
            loop {
                if want.len() as u64 > enough {
                    break 'nets;
                }
                want.extend(fmt_addr(net.fam, net.member(i)).bytes());
                want.push(b'\n');
                if i == net.last_index() {
                    break;
                }
                i += 1;
            }
        }
        let much_left = want.len() as u64 > c.take + 6144;
        if c.signal != 0 && !much_left {
            return Ok(Verdict::new(false));
        }
        let fault = if c.signal != 0 { Fault::Told(c.take, c.signal) } else { Fault::ReaderLeaves(c.take) };
        let mut out = x.run_faulty(&argv, fault, profile)?;
        if c.signal != 0 && out.out.len() as u64 > c.take {
            // it was read on until the end
            let all = (out.out.len()).min(want.len());
            if out.out[..all] != want[..all] {
                return violation("what came after the signal is not the continuation of the listing");
            }
            out.out.truncate(c.take as usize);
        }
        let expected = &want[..(c.take as usize).min(want.len())];
        if out.out != expected {
            let same = out.out.iter().zip(expected).take_while(|(a, b)| a == b).count();
            return violation(format!(
                "of the first {} bytes of the listing, {} arrived, and they differ from byte {} on: {:?} instead of {:?}; {:?}",
                expected.len(),
                out.out.len(),
                same,
                clip(&String::from_utf8_lossy(&out.out[same.saturating_sub(40)..(same + 60).min(out.out.len())])),
                clip(&String::from_utf8_lossy(&expected[same.saturating_sub(40)..(same + 60).min(expected.len())])),
                out.status
            ));
        }
        match out.status {
            Status::Code(0) if much_left => return violation("the listing was cut short, but the exit status is 0"),
            Status::Code(_) | Status::Signal(libc::SIGPIPE) => {}
            Status::Signal(s) if s == c.signal => {}
            _ => return violation(format!("after {}: {:?}", if c.signal == 0 { "the reader left".into() } else { format!("signal {}", c.signal) }, out.status)),
        }
        let net = c.nets.last().unwrap().net();
        Ok(Verdict::new(c.take > 0 && much_left)
            .label(net.prefix().is_none(), "lopsided")
            .label(net.host_bits() > 32, "more than 2^32 addresses")
            .label(net.host_bits() > 64, "more than 2^64 addresses")
            .label(c.nets.len() > 1, "small networks first")
            .label(c.signal != 0, "ended by a signal"))
    }
}
