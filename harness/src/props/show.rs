//! Properties of the report: C01, C12, C15, C17, C18.

use serde::{Deserialize, Serialize};

use super::*;
use crate::engine::*;
use crate::exec::*;
use crate::report::*;

/// Addresses worth trying with every mask.
fn notable(fam: Fam) -> Vec<u128> {
    match fam {
        Fam::V4 => vec![0, 0xFFFF_FFFF, 0xC0A8_0204, 0x8000_0000, 0x7FFF_FFFF, 0xAAAA_AAAA, 0x0A01_02FE],
        Fam::V6 => vec![
            0,
            u128::MAX,
            0x2001_0db8_0000_0001_0000_0000_0000_0001,
            1 << 127,
            u128::MAX >> 1,
            0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA,
            (1 << 64) - 1,
            1 << 64,
        ],
    }
}

/// All contiguous masks, all with up to two host bits, and all one-bit changes of contiguous masks.
pub fn notable_masks(fam: Fam) -> Vec<u128> {
    let n = fam.bits();
    let ones = fam.ones();
    let mut out: Vec<u128> = (0..=n).map(|p| fam.prefix_mask(p)).collect();
    for p in 0..=n {
        for b in 0..n {
            if fam == Fam::V4 || p % 8 == 0 || b % 16 == 0 || p + b == n || p + b + 1 == n {
                out.push(fam.prefix_mask(p) ^ (1 << b));
            }
        }
    }
    for a in 0..n {
        for b in 0..a {
            if fam == Fam::V4 || a % 8 == 0 || b % 8 == 7 {
                out.push(ones & !(1 << a) & !(1 << b));
            }
        }
    }
    // complements of contiguous masks, and every hole of whole groups
    for p in 1..n {
        out.push(!fam.prefix_mask(p) & ones);
    }
    let g = if fam == Fam::V4 { 8 } else { 16 };
    let k = n / g;
    for pattern in 0..1u128 << k {
        let mut m = 0;
        for i in 0..k {
            if pattern >> i & 1 == 1 {
                m |= ((1u128 << g) - 1) << (i * g);
            }
        }
        out.push(m);
    }
    out.sort();
    out.dedup();
    out
}

pub struct C01;
impl Property for C01 {
    type Case = Vec<Spec>;
    const ID: &'static str = "C01";
    const RULE: &'static str = "random: 1-3 address/mask pairs of either family (contiguous masks, holes, byte patterns, few host or network bits; addresses uniform, near powers of two, at the ends of the space and of the 64-bit halves); systematic: notable masks (all contiguous, all one-bit changes, all two-host-bit IPv4 masks, all group patterns) x notable addresses. Non-trivial: some network has at least two host bits and at least one network bit and is lopsided or its address has host bits set. Every label and value of the report is compared with the model.";
    const QUICK: u64 = 900_000;

    fn gen(&self, g: &mut Gen) -> Vec<Spec> {
        let n = 1 + g.weighted(&[8, 1, 1]);
        (0..n)
            .map(|_| {
                let f = g.fam();
                gen_spec(g, f)
            })
            .collect()
    }
    fn shrink(&self, c: &Vec<Spec>) -> Vec<Vec<Spec>> {
        let mut out = shorter(c, 1);
        out.extend(simpler_elements(c, Spec::simpler));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Vec<Spec>>> {
        Box::new([Fam::V4, Fam::V6].into_iter().flat_map(|f| {
            notable_masks(f).into_iter().flat_map(move |m| notable(f).into_iter().map(move |a| vec![Spec::new(f, a, m)]))
        }))
    }
    fn check(&self, c: &Vec<Spec>, x: &mut Exec) -> R<Verdict> {
        let argv: Vec<String> = c.iter().map(Spec::text).collect();
        let out = x.run(&argv)?.ok()?;
        let lines = out.lines()?;
        let blocks = blocks(&lines);
        if blocks.len() != c.len() {
            return violation(format!("{} networks given, {} reported", c.len(), blocks.len()));
        }
        for (s, b) in c.iter().zip(&blocks) {
            check_rows(b, &s.net(), Some(s.addr.v))?;
        }
        let nt = |s: &Spec| {
            let n = s.net();
            n.host_bits() >= 2 && n.net_bits() >= 1 && (n.prefix().is_none() || s.has_host_bits_set())
        };
        Ok(Verdict::new(c.iter().any(nt))
            .label(c.iter().any(|s| s.net().prefix().is_none()), "lopsided")
            .label(c.iter().any(|s| s.fam() == Fam::V6), "ipv6")
            .label(c.iter().any(|s| s.net().host_bits() < 2), "fewer than four members")
            .label(c.iter().any(|s| s.net().last() == s.fam().ones()), "reaches the end of the space")
            .label(c.iter().any(|s| s.net().host_bits() > 64), "more than 64 host bits")
            .label(c.len() > 1, "several networks"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Printed {
    pub addr: Addr,
    pub mask: Addr,
}
pub struct C12;
impl Property for C12 {
    type Case = Printed;
    const ID: &'static str = "C12";
    const RULE: &'static str = "an address is made to appear in the outputs of derange, enumerate, minimize and the report (also as mask, wildcard, network, host and broadcast address); every printed address must be what the standard library's parser reads as the address meant, equal the canonical text of an independent formatter, and be read back by the program as the same address. Systematic: all 256 zero-group patterns of IPv6 with several fillings, all byte values at all IPv4 positions. Non-trivial: IPv6 with at least one zero group and one non-zero group, or IPv4 with bytes of at least two different lengths.";
    const QUICK: u64 = 400_000;

    fn gen(&self, g: &mut Gen) -> Printed {
        let f = if g.chance(2, 3) { Fam::V6 } else { Fam::V4 };
        let v = if f == Fam::V6 && g.chance(2, 3) {
            // zero-group patterns
            let pat = g.below(256);
            let mut v = 0u128;
            for i in 0..8 {
                let grp = if pat >> i & 1 == 1 {
                    match g.below(4) {
                        0 => g.range(1, 15),
                        1 => 0xFFFF,
                        2 => g.range(1, 0xFFFF),
                        _ => 1 << g.below(16),
                    }
                } else {
                    0
                };
                v = v << 16 | grp as u128;
            }
            v
        } else {
            g.value(f)
        };
        let m = if g.chance(1, 3) { g.mask(f) } else { f.ones() };
        Printed { addr: Addr::new(f, v), mask: Addr::new(f, m) }
    }
    fn shrink(&self, c: &Printed) -> Vec<Printed> {
        let f = c.addr.fam;
        let mut out = Vec::new();
        if c.mask.v != f.ones() {
            out.push(Printed { mask: Addr::new(f, f.ones()), ..c.clone() });
        }
        out.extend(simpler_values(f, c.addr.v).into_iter().map(|v| Printed { addr: Addr::new(f, v), ..c.clone() }));
        out.extend(simpler_masks(f, c.mask.v).into_iter().map(|v| Printed { mask: Addr::new(f, v), ..c.clone() }));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Printed>> {
        let mut out = Vec::new();
        for pat in 0..256u32 {
            for fill in [1u128, 0xFFFF, 0x10, 0xABC, 0x8000] {
                let mut v = 0u128;
                for i in (0..8).rev() {
                    v = v << 16 | if pat >> i & 1 == 1 { fill } else { 0 };
                }
                out.push(Printed { addr: Addr::new(Fam::V6, v), mask: Addr::new(Fam::V6, u128::MAX) });
            }
        }
        for pos in 0..4 {
            for b in 0..256u128 {
                out.push(Printed { addr: Addr::new(Fam::V4, b << (8 * pos) | 0x01_00_00_00 & !(255 << (8 * pos))), mask: Addr::new(Fam::V4, 0xFFFF_FFFF) });
            }
        }
        for pos in 0..8 {
            for d in 0..16u128 {
                for nib in 0..4 {
                    out.push(Printed { addr: Addr::new(Fam::V6, d << (16 * pos + 4 * nib)), mask: Addr::new(Fam::V6, u128::MAX) });
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Printed, x: &mut Exec) -> R<Verdict> {
        let f = c.addr.fam;
        let same = |shown: &str, v: u128, place: &str| -> R<()> {
            if std_parse(shown) != Some((f, v)) {
                return violation(format!("{}: printed {:?}, which is not {}", place, shown, fmt_addr(f, v)));
            }
            if shown != fmt_addr(f, v) {
                return violation(format!("{}: printed {:?} instead of the canonical {:?}", place, shown, fmt_addr(f, v)));
            }
            Ok(())
        };
        let full = Net::cidr(f, c.addr.v, f.bits());
        // derange prints it as a single-address network
        let given = c.addr.text();
        let out = x.run(&["-d", &given, &given])?.ok()?;
        let lines = out.lines()?;
        let shown = match lines[..] {
            [l] if l.ends_with(&format!("/{}", f.bits())) => l.split_once('/').unwrap().0.to_string(),
            _ => return violation(format!("derange of a single address printed {:?}", out.text()?)),
        };
        same(&shown, c.addr.v, "derange")?;
        // what was printed, given to the program again
        let spec = format!("{}/{}", shown, f.bits());
        let out = x.run(&["-e", &spec])?.ok()?;
        match out.lines()?[..] {
            [l] => same(l, c.addr.v, "enumerate")?,
            _ => return violation(format!("enumerate of a single address printed {:?}", out.text()?)),
        }
        let out = x.run(&["-m", &spec])?.ok()?;
        if out.lines()? != [full.shown()] {
            return violation(format!("minimize of {} printed {:?}", spec, out.text()?));
        }
        // all the places of a report
        let s = Spec { addr: c.addr, mask: c.mask };
        let out = x.run(&[format!("{}/{}", shown, c.mask.text())])?.ok()?;
        let lines = out.lines()?;
        let want = expected_rows(&s.net(), Some(c.addr.v));
        for l in &lines {
            let r = parse_row(l)?;
            let Some((_, _, Some(v))) = want.iter().find(|(label, _, _)| *label == r.label) else { continue };
            let text = r.value.split([' ', '/']).next().unwrap();
            same(text, *v, &r.label)?;
            if c.mask.v != f.ones() && (r.label == "HostMax:" || r.label == "Broadcast:" || r.label == "Wildcard:") {
                // read back
                let out = x.run(&["-d", text, text])?.ok()?;
                if out.text()? != format!("{}/{}\n", text, f.bits()) {
                    return violation(format!("{:?} was printed but is read back as {:?}", text, out.text()?));
                }
            }
        }
        let groups: Vec<u128> = (0..8).map(|i| c.addr.v >> (16 * i) & 0xFFFF).collect();
        let zero = groups.iter().filter(|g| **g == 0).count();
        let nt = match f {
            Fam::V6 => zero > 0 && zero < 8,
            Fam::V4 => {
                let lens: Vec<usize> = given.split('.').map(str::len).collect();
                lens.iter().any(|l| *l != lens[0])
            }
        };
        let runs = (0..8).filter(|i| groups[*i] == 0 && (*i == 0 || groups[*i - 1] != 0)).count();
        Ok(Verdict::new(nt)
            .label(f == Fam::V6, "ipv6")
            .label(f == Fam::V6 && runs > 1, "several runs of zero groups")
            .label(f == Fam::V6 && zero == 1, "a single zero group")
            .label(f == Fam::V6 && zero > 0 && (groups[0] == 0 || groups[7] == 0), "zero group at an end")
            .label(s.net().prefix().is_none(), "lopsided"))
    }
}

// ------------------------------------------------------------------------------------------------

/// A command whose output has binary columns.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Blocky {
    Report(Vec<Spec>),
    Resize(Spec, Addr),
    Split(Spec, Vec<u64>),
}
impl Blocky {
    pub fn argv(&self) -> Vec<String> {
        match self {
            Blocky::Report(v) => v.iter().map(Spec::text).collect(),
            Blocky::Resize(s, m) => args(["-r", &s.text(), &m.text()]),
            Blocky::Split(s, counts) => {
                let mut a = args(["-s", &s.text()]);
                a.extend(counts.iter().map(|c| c.to_string()));
                a
            }
        }
    }
    pub fn gen(g: &mut Gen) -> Blocky {
        match g.weighted(&[4, 2, 2]) {
            0 => {
                let n = 1 + g.weighted(&[6, 1, 1]);
                Blocky::Report(
                    (0..n)
                        .map(|_| {
                            let f = g.fam();
                            gen_spec(g, f)
                        })
                        .collect(),
                )
            }
            1 => {
                let f = g.fam();
                let s = gen_spec(g, f);
                let nb = s.net().net_bits();
                let want = (nb + g.below(5) as u32).min(f.bits());
                let want = if g.chance(1, 4) { g.below(nb as u64 + 1) as u32 } else { want };
                let m = if g.chance(1, 2) { f.prefix_mask(want) } else { g.mask_with_host_bits(f, f.bits() - want) };
                Blocky::Resize(s, Addr::new(f, m))
            }
            _ => {
                let f = g.fam();
                let a = g.value(f);
                let p = g.below(f.bits() as u64 - 3) as u32;
                let n = 1 + g.small(4);
                let counts = (0..n).map(|_| g.small(40)).collect();
                Blocky::Split(Spec::new(f, a, f.prefix_mask(p)), counts)
            }
        }
    }
    pub fn shrink(&self) -> Vec<Blocky> {
        match self {
            Blocky::Report(v) => {
                let mut out: Vec<Blocky> = shorter(v, 1).into_iter().map(Blocky::Report).collect();
                out.extend(simpler_elements(v, Spec::simpler).into_iter().map(Blocky::Report));
                out
            }
            Blocky::Resize(s, m) => {
                let mut out = vec![Blocky::Report(vec![*s])];
                let limit = |s: &Spec, m: &Addr| m.v.count_ones() <= s.net().net_bits() + 6;
                for t in s.simpler() {
                    if limit(&t, m) {
                        out.push(Blocky::Resize(t, *m));
                    }
                }
                for t in simpler_masks(m.fam, m.v) {
                    let t = Addr::new(m.fam, t);
                    if limit(s, &t) {
                        out.push(Blocky::Resize(*s, t));
                    }
                }
                out
            }
            Blocky::Split(s, c) => {
                let mut out = vec![Blocky::Report(vec![*s])];
                out.extend(shorter(c, 1).into_iter().map(|c| Blocky::Split(*s, c)));
                out.extend(simpler_elements(c, |n| if *n > 0 { vec![0, n / 2, n - 1] } else { vec![] }).into_iter().map(|c| Blocky::Split(*s, c)));
                out.extend(s.simpler().into_iter().filter(|t| t.net().prefix().is_some()).map(|t| Blocky::Split(t, c.clone())));
                out
            }
        }
    }
    pub fn fam(&self) -> Option<Fam> {
        match self {
            Blocky::Report(v) => v.first().map(|s| s.fam()).filter(|f| v.iter().all(|s| s.fam() == *f)),
            Blocky::Resize(s, _) | Blocky::Split(s, _) => Some(s.fam()),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Blocky::Report(_) => "report",
            Blocky::Resize(..) => "resize",
            Blocky::Split(..) => "split",
        }
    }
}

/// Checks one row's layout and that its binary column spells its value; `Ok(true)` if it has one.
fn check_layout(line: &str) -> R<bool> {
    let row = parse_row(line)?;
    if row.value.is_empty() {
        return Ok(false);
    }
    if line.chars().any(|c| c == '\t' || c == '\r' || c == '\x1b') {
        return violation(format!("control characters in {:?}", line));
    }
    let bad = |what: &str| -> R<bool> { violation(format!("{} in the row {:?}", what, line)) };
    let at = |col: usize| line.get(col..).unwrap_or("");
    let gap = |from: usize, to: usize| line.get(from..to).is_some_and(|s| s.bytes().all(|b| b == b' '));
    if !line.starts_with(&row.label) || !at(LABEL_COL).starts_with(&row.value) || !gap(row.label.len(), LABEL_COL) {
        return bad("the value does not start in its column");
    }
    if row.label == "Hosts/Net:" {
        if !row.extra.is_empty() {
            let col = binary_col(Fam::V4);
            if !at(col).starts_with(&row.extra) || !gap(LABEL_COL + row.value.len(), col) {
                return bad("the class does not start in its column");
            }
        }
        return Ok(false);
    }
    let first = row.value.split([' ', '/']).next().unwrap();
    let Some((f, v)) = std_parse(first) else { return bad("the value is not an address") };
    let col = binary_col(f);
    if !gap(LABEL_COL + row.value.len(), col) {
        return bad("the binary does not start in its column");
    }
    if at(col).trim_end() != f.binary(v) {
        return bad("the binary column does not spell the address");
    }
    Ok(true)
}

pub struct C15;
impl Property for C15 {
    type Case = Blocky;
    const ID: &'static str = "C15";
    const RULE: &'static str = "reports, resizes and splits of random networks of both families; each row of each block must carry the value in column 11 and, in column 32 (IPv4) or 57 (IPv6), exactly the bits of the address in that row. Systematic: notable masks x notable addresses. Non-trivial: at least two rows show different bits.";
    const QUICK: u64 = 420_000;
    fn gen(&self, g: &mut Gen) -> Blocky {
        Blocky::gen(g)
    }
    fn shrink(&self, c: &Blocky) -> Vec<Blocky> {
        c.shrink()
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Blocky>> {
        Box::new(C01.systematic(tier).map(Blocky::Report))
    }
    fn check(&self, c: &Blocky, x: &mut Exec) -> R<Verdict> {
        let out = x.run(&c.argv())?;
        if !out.clean() {
            return violation(out.describe());
        }
        let lines = out.lines()?;
        let mut rows = 0;
        let mut values = std::collections::HashSet::new();
        for l in &lines {
            let t = l.trim_end();
            if is_row(l) {
                if check_layout(l)? {
                    rows += 1;
                    values.insert(parse_row(l)?.value);
                }
            } else if t.is_empty()
                || t.ends_with(':')
                || parse_shown_net(t).is_some()
                || t.starts_with(|c: char| c.is_ascii_alphabetic()) && !t.starts_with("Class") && !t.contains(|c: char| c.is_ascii_digit())
            {
                // a heading, an unused network or a remark
            } else {
                return violation(format!("a line that is neither a row nor a heading: {:?}", l));
            }
        }
        // the number of rows is known
        let want: Option<usize> = match c {
            Blocky::Report(v) => Some(v.iter().map(|s| expected_rows(&s.net(), Some(s.addr.v)).iter().filter(|r| r.2.is_some()).count()).sum()),
            _ => None,
        };
        if want.is_some_and(|w| w != rows) || rows == 0 {
            return violation(format!("{} rows with a binary column, expected {:?}", rows, want));
        }
        Ok(Verdict::new(values.len() > 1).label(true, c.label()).label(c.fam() == Some(Fam::V6), "ipv6"))
    }
}

// ------------------------------------------------------------------------------------------------

pub struct C17;
impl C17 {
    /// Styles of class, network and host bits, learnt from 10.0.0.0/8.
    fn reference(x: &mut Exec) -> R<(String, String, String)> {
        let out = x.run_colored(&["10.0.0.0/8"], true)?.ok()?;
        for l in out.lines()? {
            let Some(chars) = styled_chars(l) else { return violation("unreadable escape sequences") };
            let plain: String = chars.iter().map(|c| c.0).collect();
            if plain.starts_with("Network:") {
                let col = binary_col(Fam::V4);
                let s = |i: usize| chars.get(col + i).map(|c| c.1.clone()).unwrap_or_default();
                let (class, net, host) = (s(0), s(1), s(9));
                if class == net || class == host || net == host {
                    return violation(format!("10.0.0.0/8 does not set class, network and host bits apart: {:?} {:?} {:?}", class, net, host));
                }
                return Ok((class, net, host));
            }
        }
        violation("no Network row in the coloured report of 10.0.0.0/8")
    }
}
impl Property for C17 {
    type Case = Spec;
    const ID: &'static str = "C17";
    const RULE: &'static str = "IPv4 networks whose top bits and top mask bits take all combinations (systematic: all 256 top bytes x all 256 top mask bytes) with random remainders, plus IPv6 networks; the class text and, with colours on, the style of each bit of the Network row are compared with the class model. Non-trivial: IPv4 with a mask that covers some but not all of the top four bits, or a class other than A.";
    const ASSUMPTIONS: &'static [&'static str] = &["The style of class bits is learnt from the first bit of 10.0.0.0/8 (which must differ from the styles of network and host bits)."];
    const QUICK: u64 = 220_000;
    fn gen(&self, g: &mut Gen) -> Spec {
        if g.chance(1, 8) {
            return gen_spec(g, Fam::V6);
        }
        let top = g.below(16) as u128;
        let a = match g.below(3) {
            0 => top << 28 | g.value(Fam::V4) & 0x0FFF_FFFF,
            1 => top << 28,
            _ => g.value(Fam::V4),
        };
        let m = match g.below(3) {
            0 => {
                let p = g.below(7) as u32;
                Fam::V4.prefix_mask(p)
            }
            1 => (g.below(16) as u128) << 28 | g.mask(Fam::V4) & 0x0FFF_FFFF,
            _ => g.mask(Fam::V4),
        };
        Spec::new(Fam::V4, a, m)
    }
    fn shrink(&self, c: &Spec) -> Vec<Spec> {
        c.simpler()
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Spec>> {
        Box::new((0..256u128).flat_map(|a| (0..256u128).map(move |m| Spec::new(Fam::V4, a << 24 | (m * 7919 + a) & 0xFFFF, m << 24 | if (a + m) % 3 == 0 { 0xFFFF00 } else if (a + m) % 3 == 1 { 0 } else { 0xFFFFFE }))))
    }
    fn check(&self, c: &Spec, x: &mut Exec) -> R<Verdict> {
        let net = c.net();
        let f = c.fam();
        let want = net.class().filter(|_| net.host_bits() >= 2);
        let out = x.run(&[c.text()])?.ok()?;
        let mut seen_hosts = false;
        for l in out.lines()? {
            if !is_row(l) {
                continue;
            }
            let r = parse_row(l)?;
            if r.label == "Hosts/Net:" || r.label == "no hosts/net" {
                seen_hosts = true;
                let shown = &r.extra;
                let good = match want {
                    None => shown.is_empty(),
                    Some((class, _)) => {
                        let name = format!("Class {}", class);
                        shown == &name || shown.starts_with(&format!("{} ", name))
                    }
                };
                if !good {
                    return violation(format!("{}: class shown {:?}, expected {:?}", describe(&net), shown, want.map(|w| w.0)));
                }
            } else if l.contains("Class") {
                return violation(format!("{}: a class in the row {:?}", describe(&net), l));
            }
        }
        if !seen_hosts {
            return violation(format!("{}: no Hosts/Net row", describe(&net)));
        }
        // the coloured Network row
        let (class, netb, host) = C17::reference(x)?;
        let out = x.run_colored(&[c.text()], true)?.ok()?;
        let mut seen = false;
        for l in out.lines()? {
            let Some(chars) = styled_chars(l) else { return violation(format!("unreadable escape sequences in {:?}", l)) };
            let plain: String = chars.iter().map(|c| c.0).collect();
            if !plain.starts_with("Network:") {
                continue;
            }
            seen = true;
            let col = binary_col(f);
            let bits: Vec<&(char, String)> = chars.iter().skip(col).filter(|c| c.0 == '0' || c.0 == '1').collect();
            if bits.len() != f.bits() as usize {
                return violation(format!("{}: {} bits in the coloured Network row", describe(&net), bits.len()));
            }
            let marked = net.class().map_or(0, |c| c.1) as usize;
            for (i, (_, style)) in bits.iter().enumerate() {
                let in_mask = net.mask >> (f.bits() as usize - 1 - i) & 1 == 1;
                let want = if i < marked {
                    &class
                } else if in_mask {
                    &netb
                } else {
                    &host
                };
                if style != want {
                    let name = |s: &String| if *s == class { "class" } else if *s == netb { "network" } else if *s == host { "host" } else { "some other" };
                    return violation(format!("{}: bit {} of the Network row has {} style instead of {} style", describe(&net), i, name(style), name(want)));
                }
            }
        }
        if !seen {
            return violation(format!("{}: no Network row with colours on", describe(&net)));
        }
        let top = net.mask >> 28 & 15;
        Ok(Verdict::new(f == Fam::V4 && (top != 0 && top != 15 || want.is_some_and(|w| w.0 != 'A')))
            .label(f == Fam::V6, "ipv6")
            .label(want.is_some(), "class shown")
            .label(net.class().is_some() && want.is_none(), "class fixed but no hosts")
            .label(f == Fam::V4 && top != 0 && net.class().is_none(), "some deciding bits covered, not all")
            .label(f == Fam::V4 && net.prefix().is_none(), "lopsided"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Many {
    pub enumerate: bool,
    pub args: Vec<String>,
}
pub struct C18;
impl C18 {
    fn malformed(g: &mut Gen) -> String {
        let f = g.fam();
        let a = g.value(f);
        let text = fmt_addr(f, a);
        match g.below(8) {
            0 => text,
            1 => format!("{}/{}", text, f.bits() as u64 + 1 + g.below(300)),
            2 => format!("{}/", text),
            3 => "bogus".into(),
            4 => String::new(),
            5 => format!("{}/{}", text, fmt_addr(f.other(), 0)),
            6 => "1.2.3/24".into(),
            _ => format!("{}x/24", text),
        }
    }
}
impl Property for C18 {
    type Case = Many;
    const ID: &'static str = "C18";
    const RULE: &'static str = "2-12 networks of mixed families in one report or enumerate command (for enumerate also malformed ones in any position); now and then 100-700 of them, 255-2050 in fixed sequences, and 66,000; every sequence of up to five of four kinds; compared with the outputs of separate invocations. Non-trivial: at least three arguments and, among them, two different families, or a malformed one, or a repeated one.";
    const QUICK: u64 = 110_000;
    fn gen(&self, g: &mut Gen) -> Many {
        let enumerate = g.chance(1, 2);
        let n = if g.chance(1, 1500) { g.range(100, 700) } else { 2 + g.small(10) };
        let mut out: Vec<String> = Vec::new();
        let bad_share = *g.pick(&[0, 0, 1, 3]);
        for _ in 0..n {
            let f = g.fam();
            if enumerate && g.below(8) < bad_share {
                out.push(C18::malformed(g));
            } else if !out.is_empty() && g.chance(1, 8) {
                let again = g.pick(&out).clone();
                out.push(again);
            } else if enumerate {
                let hb = g.small(6) as u32;
                let m = g.mask_with_host_bits(f, hb);
                let a = g.value(f);
                out.push(Spec::new(f, a, m).text());
            } else {
                out.push(gen_spec(g, f).text());
            }
        }
        Many { enumerate, args: out }
    }
    fn shrink(&self, c: &Many) -> Vec<Many> {
        shorter(&c.args, 1).into_iter().map(|args| Many { enumerate: c.enumerate, args }).collect()
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Many>> {
        let mut out: Vec<Many> = Vec::new();
        // around the numbers that fit into a byte or two
        let large: &[usize] = if tier == Tier::Quick { &[255, 256, 257, 300, 1025, 2050] } else { &[255, 256, 257, 300, 1025, 2050, 4100, 8200, 16400, 32800, 65537] };
        for enumerate in [false, true] {
            for n in large {
                let nets: Vec<String> = (0..*n)
                    .map(|i| match i % 7 {
                        3 => format!("2001:db8::{:x}/127", i & 0xFFFF),
                        5 if enumerate => format!("10.{}.0/24", i),
                        _ => format!("10.{}.{}.0/31", i >> 8 & 255, i & 255),
                    })
                    .collect();
                out.push(Many { enumerate, args: nets });
            }
            out.push(Many {
                enumerate,
                args: (0..66_000).map(|i| ["10.0.0.0/30", "1::/127", "10.0.0.5/32", "10.0.0.9/31", "::/126"][i * i % 11 % 5].to_string()).collect(),
            });
            // every short sequence of a few kinds
            let kinds = if enumerate { ["10.0.0.0/30", "1::/127", "x", "10.0.0.1/255.255.255.253"] } else { ["10.0.0.0/30", "1::/127", "10.0.0.5/32", "10.0.0.1/255.255.255.253"] };
            for len in 1..=5u32 {
                for code in 0..4usize.pow(len) {
                    out.push(Many { enumerate, args: (0..len).map(|i| kinds[code / 4usize.pow(i) % 4].to_string()).collect() });
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Many, x: &mut Exec) -> R<Verdict> {
        let mut all: Vec<String> = Vec::new();
        if c.enumerate {
            all.push("-e".into());
        }
        all.extend(c.args.iter().cloned());
        if all.len() > 10_000 {
            x.cpu_seconds = 40;
        }
        let together = x.run(&all)?;
        let mut known: std::collections::HashMap<&String, Out> = std::collections::HashMap::new();
        let mut want = Vec::new();
        let mut status = 0;
        let mut bad = 0;
        for (i, a) in c.args.iter().enumerate() {
            let alone = match known.get(a) {
                Some(out) if c.args.len() > 10_000 => out.clone(),
                _ => {
                    let out = if c.enumerate { x.run(&["-e", a])? } else { x.run(&[a])? };
                    known.insert(a, out.clone());
                    out
                }
            };
            match alone.status {
                Status::Code(0) => {}
                Status::Code(1) if c.enumerate => {
                    status = 1;
                    bad += 1;
                    if alone.err.is_empty() {
                        return violation(format!("{:?} was skipped without a message", a));
                    }
                }
                _ => return violation(format!("a single network gave {}", alone.describe())),
            }
            // nothing may be listed for a network that is skipped, and something for the others
            if (alone.status == Status::Code(0)) == alone.out.is_empty() {
                return violation(format!("{:?} alone gave {}", a, alone.describe()));
            }
            if i > 0 && !c.enumerate {
                want.push(b'\n');
            }
            want.extend(&alone.out);
        }
        if together.status != Status::Code(status) {
            return violation(format!("status {:?} for all, expected {} from the single runs", together.status, status));
        }
        if together.out != want {
            return violation(format!("together: {:?}; one by one: {:?}", clip(&String::from_utf8_lossy(&together.out)), clip(&String::from_utf8_lossy(&want))));
        }
        if bad > 0 {
            // one message per malformed network
            let n = together.err.split(|b| *b == b'\n').filter(|l| !l.is_empty()).count();
            if n < bad {
                return violation(format!("{} malformed networks, but only {} lines of messages", bad, n));
            }
        }
        let v6 = c.args.iter().filter(|a| a.contains(':')).count();
        let mixed = v6 > 0 && v6 < c.args.len();
        let repeated = known.len() < c.args.len();
        Ok(Verdict::new(c.args.len() >= 3 && (mixed || bad > 0 || repeated))
            .label(c.enumerate, "enumerate")
            .label(mixed, "mixed families")
            .label(bad > 0, "malformed member")
            .label(repeated, "repeated network"))
    }
}
