//! C21: the modes agree with one another. Only outputs of the program are compared; the model is
//! used for generating.

use serde::{Deserialize, Serialize};

use super::sizes::parse_resize;
use super::*;
use crate::engine::*;
use crate::exec::*;
use crate::report::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Chain {
    /// First and last address from the report, deranged.
    Ends(Net),
    /// The enumeration against the rows of the report.
    Listing(Net),
    /// The enumerated members, minimized.
    Members(Net),
    /// The subnets of a resize, minimized, and each resized back.
    Subnets(Net, u32),
    /// Slices and unused networks of a split, minimized.
    Pieces(Net, Vec<u64>),
    /// A range against its single addresses minimized.
    Singles(Addr, Addr),
    /// A deranged range minimized again.
    Again(Addr, Addr),
}
impl Chain {
    fn good(&self) -> bool {
        match self {
            Chain::Ends(n) => n.prefix().is_some(),
            Chain::Listing(n) => n.host_bits() <= 11,
            Chain::Members(n) => n.prefix().is_some() && n.host_bits() <= 8,
            Chain::Subnets(n, p) => n.prefix().is_some_and(|q| *p >= q && *p <= q + 6) && *p <= n.fam.bits(),
            Chain::Pieces(n, c) => n.prefix().is_some() && n.host_bits() >= 1 && !c.is_empty(),
            Chain::Singles(a, b) => a.fam == b.fam && a.v.abs_diff(b.v) <= 260,
            Chain::Again(a, b) => a.fam == b.fam,
        }
    }
}

/// The value of a row of a report.
fn value<'a>(lines: &[&'a str], label: &str) -> R<Option<&'a str>> {
    for l in lines {
        let r = parse_row(l)?;
        if r.label == label {
            let rest = l[label.len()..].trim_start();
            return Ok(Some(rest.split_whitespace().next().unwrap_or("")));
        }
    }
    Ok(None)
}
fn addr_part(s: &str) -> &str {
    s.split('/').next().unwrap()
}
fn minimized<'a>(x: &mut Exec, nets: impl Iterator<Item = String> + 'a) -> R<Vec<String>> {
    let mut argv = vec!["-m".to_string()];
    argv.extend(nets);
    let out = x.run(&argv)?.ok()?;
    Ok(out.lines()?.iter().map(|s| s.to_string()).collect())
}

pub struct C21;
impl Property for C21 {
    type Case = Chain;
    const ID: &'static str = "C21";
    const RULE: &'static str = "for CIDR networks of any size: the first and last address of the report deranged; the subnets of a resize (up to 64) minimized and each resized back; slices and unused networks of a split minimized; for networks of up to 2^11 members, lopsided ones included: the enumeration against the report; for up to 2^8 members: the members minimized; for ranges: the derange minimized again, and (up to 260 addresses) against the minimized single addresses. Only outputs of the program are compared with one another. Non-trivial: the chain passes through at least two networks or addresses.";
    const QUICK: u64 = 100_000;
    fn gen(&self, g: &mut Gen) -> Chain {
        loop {
            let f = g.fam();
            let net = g.cidr_net(f);
            let small = |g: &mut Gen, most: u64| {
                let hb = g.small(most) as u32;
                Net::cidr(f, g.value(f), f.bits() - hb)
            };
            let c = match g.below(7) {
                0 => Chain::Ends(net),
                1 => {
                    let hb = g.small(11) as u32;
                    let m = g.mask_with_host_bits(f, hb);
                    Chain::Listing(Net::new(f, g.value(f), m))
                }
                2 => Chain::Members(small(g, 8)),
                3 => {
                    let p = net.prefix().unwrap() + g.range(0, 6) as u32;
                    Chain::Subnets(net, p)
                }
                4 => {
                    let net = if g.chance(1, 2) { net } else { small(g, 10) };
                    let n = 1 + g.small(10);
                    let max = 1u64 << net.host_bits().min(40);
                    let counts = (0..n).map(|_| if g.chance(1, 2) { g.below(8) } else { g.below(max / n + 1) }).collect();
                    Chain::Pieces(net, counts)
                }
                5 => {
                    let a = g.value(f);
                    let d = g.small(260) as u128;
                    let b = if a > f.ones() - d { a - d } else { a + d };
                    Chain::Singles(Addr::new(f, a), Addr::new(f, b))
                }
                _ => Chain::Again(g.addr(f), g.addr(f)),
            };
            if c.good() {
                return c;
            }
        }
    }
    fn shrink(&self, c: &Chain) -> Vec<Chain> {
        let mut out: Vec<Chain> = match c {
            Chain::Ends(n) => simpler_nets(n).into_iter().map(Chain::Ends).collect(),
            Chain::Listing(n) => simpler_nets(n).into_iter().map(Chain::Listing).collect(),
            Chain::Members(n) => simpler_nets(n).into_iter().map(Chain::Members).collect(),
            Chain::Subnets(n, p) => {
                let mut out = vec![Chain::Subnets(*n, p.saturating_sub(1))];
                for m in simpler_nets(n) {
                    out.push(Chain::Subnets(m, *p));
                    out.push(Chain::Subnets(m, (*p + m.net_bits()).saturating_sub(n.net_bits())));
                }
                out
            }
            Chain::Pieces(n, counts) => {
                let mut out: Vec<Chain> = shorter(counts, 1).into_iter().map(|v| Chain::Pieces(*n, v)).collect();
                out.extend(simpler_elements(counts, |c| if *c == 0 { vec![] } else { vec![0, c / 2, c - 1] }).into_iter().map(|v| Chain::Pieces(*n, v)));
                out.extend(simpler_nets(n).into_iter().map(|m| Chain::Pieces(m, counts.clone())));
                out
            }
            Chain::Singles(a, b) | Chain::Again(a, b) => {
                let singles = matches!(c, Chain::Singles(..));
                let mut out = Vec::new();
                let mut push = |a: u128, b: u128, f: Fam| {
                    let (a, b) = (Addr::new(f, a), Addr::new(f, b));
                    out.push(if singles { Chain::Singles(a, b) } else { Chain::Again(a, b) });
                };
                let f = a.fam;
                let d = b.v.wrapping_sub(a.v);
                for v in simpler_values(f, a.v) {
                    push(v, b.v, f);
                    push(v, v.wrapping_add(d) & f.ones(), f);
                }
                for v in simpler_values(f, b.v) {
                    push(a.v, v, f);
                }
                push(a.v, if b.v > a.v { b.v - 1 } else { b.v }, f);
                out
            }
        };
        out.retain(|n| n.good() && n != c);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Chain>> {
        let mut out = Vec::new();
        for f in [Fam::V4, Fam::V6] {
            let n = f.bits();
            for p in 0..=n {
                for a in [0, f.ones(), 0x5555_5555_5555_5555_5555_5555_5555_5555 & f.ones()] {
                    let net = Net::cidr(f, a, p);
                    out.push(Chain::Ends(net));
                    out.push(Chain::Pieces(net, vec![0, 1, 2, 6]));
                    out.push(Chain::Subnets(net, (p + 3).min(n)));
                    out.push(Chain::Listing(net));
                    out.push(Chain::Members(net));
                }
            }
            for lo in 0..24u128 {
                for hi in lo..24 {
                    out.push(Chain::Singles(Addr::new(f, lo), Addr::new(f, hi)));
                    out.push(Chain::Singles(Addr::new(f, f.ones() - lo), Addr::new(f, f.ones() - hi)));
                }
            }
        }
        out.retain(Chain::good);
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Chain, x: &mut Exec) -> R<Verdict> {
        let differ = |what: &str, a: &[String], b: &[String]| -> R<Verdict> { violation(format!("{}: {:?} against {:?}", what, clip(&a.join(" ")), clip(&b.join(" ")))) };
        match c {
            Chain::Ends(n) => {
                let out = x.run(&[n.shown()])?.ok()?;
                let lines = out.lines()?;
                let Some(network) = value(&lines, "Network:")? else { return violation("no Network row") };
                let first = addr_part(network);
                let last = value(&lines, "Broadcast:")?.unwrap_or(first);
                let out = x.run(&["-d", first, last])?.ok()?;
                if out.lines()? != [network] {
                    return differ("network against its ends deranged", &[network.into()], &[out.text()?.into()]);
                }
                Ok(Verdict::new(first != last).label(true, "ends deranged"))
            }
            Chain::Listing(n) => {
                let out = x.run(&[n.shown()])?.ok()?;
                let report = out.lines()?;
                let listing = x.run(&["-e".to_string(), n.shown()])?.ok()?;
                let l = listing.lines()?;
                let mut want: Vec<(&str, Option<&str>)> = Vec::new();
                if let Some(v) = value(&report, "Network:")? {
                    want.push((addr_part(v), l.first().copied()));
                }
                if let Some(v) = value(&report, "HostMin:")? {
                    want.push((v, l.get(1).copied()));
                }
                if let Some(v) = value(&report, "HostMax:")? {
                    want.push((v, l.len().checked_sub(2).map(|i| l[i])));
                }
                if let Some(v) = value(&report, "Broadcast:")? {
                    want.push((v, l.last().copied()));
                }
                let count = (l.len() as i64 - 2).to_string();
                match value(&report, "Hosts/Net:")? {
                    Some(v) => want.push((v, Some(&count))),
                    None if l.len() > 2 => return violation(format!("{} has {} members, but no hosts", n.shown(), l.len())),
                    None => {}
                }
                for (r, e) in &want {
                    if Some(*r) != *e {
                        return violation(format!("{}: the report says {:?}, the enumeration {:?}", n.shown(), r, e));
                    }
                }
                Ok(Verdict::new(l.len() > 1).label(true, "enumeration against report").label(n.prefix().is_none(), "lopsided"))
            }
            Chain::Members(n) => {
                let listing = x.run(&["-e".to_string(), n.shown()])?.ok()?;
                let mut members: Vec<String> = listing.lines()?.iter().map(|l| format!("{}/{}", l, n.fam.bits())).collect();
                fixed_shuffle(&mut members, n.base as u64);
                let m = minimized(x, members.iter().cloned())?;
                if m != [n.shown()] {
                    return differ("members minimized against the network", &m, &[n.shown()]);
                }
                Ok(Verdict::new(members.len() > 1).label(true, "members minimized"))
            }
            Chain::Subnets(n, p) => {
                let out = x.run(&["-r".to_string(), n.shown(), p.to_string()])?.ok()?;
                let lines = out.lines()?;
                let (_, results) = parse_resize(&lines)?;
                let mut subnets = Vec::new();
                for b in &results {
                    subnets.push(network_of(&b.rows)?.shown());
                }
                let m = minimized(x, subnets.iter().rev().cloned())?;
                if m != [n.shown()] {
                    return differ("subnets minimized against the network", &m, &[n.shown()]);
                }
                for s in [&subnets[0], &subnets[subnets.len() / 2], &subnets[subnets.len() - 1]] {
                    let out = x.run(&["-r".to_string(), s.clone(), n.net_bits().to_string()])?.ok()?;
                    let lines = out.lines()?;
                    let (_, back) = parse_resize(&lines)?;
                    if back.len() != 1 || network_of(&back[0].rows)? != *n {
                        return violation(format!("{} resized to /{} is not {}: {:?}", s, n.net_bits(), n.shown(), clip(out.text()?)));
                    }
                }
                Ok(Verdict::new(subnets.len() > 1).label(true, "subnets minimized and resized back"))
            }
            Chain::Pieces(n, counts) => {
                let mut argv = vec!["-s".to_string(), n.shown()];
                argv.extend(counts.iter().map(u64::to_string));
                let out = x.run(&argv)?;
                if out.status != Status::Code(0) {
                    return Ok(Verdict::new(false).label(true, "split does not fit"));
                }
                let s = parse_split(out.text()?)?;
                if s.complains {
                    return Ok(Verdict::new(false).label(true, "split does not fit"));
                }
                let mut pieces: Vec<String> = s.unused.iter().map(Net::shown).collect();
                for b in &s.slices {
                    pieces.push(network_of(&b.rows)?.shown());
                }
                let m = minimized(x, pieces.iter().cloned())?;
                if m != [n.shown()] {
                    return differ("slices and unused networks minimized against the network", &m, &[n.shown()]);
                }
                Ok(Verdict::new(pieces.len() > 1).label(true, "split minimized"))
            }
            Chain::Singles(a, b) => {
                let out = x.run(&["-d".to_string(), a.text(), b.text()])?.ok()?;
                let d: Vec<String> = out.lines()?.iter().map(|s| s.to_string()).collect();
                let (lo, hi) = (a.v.min(b.v), a.v.max(b.v));
                let mut singles: Vec<String> = (lo..=hi).map(|v| Net::cidr(a.fam, v, a.fam.bits()).shown()).collect();
                fixed_shuffle(&mut singles, hi as u64);
                let m = minimized(x, singles.into_iter())?;
                if m != d {
                    return differ("single addresses minimized against the range deranged", &m, &d);
                }
                Ok(Verdict::new(lo != hi).label(true, "single addresses against range"))
            }
            Chain::Again(a, b) => {
                let out = x.run(&["-d".to_string(), a.text(), b.text()])?.ok()?;
                let d: Vec<String> = out.lines()?.iter().map(|s| s.to_string()).collect();
                let m = minimized(x, d.iter().rev().cloned())?;
                if m != d {
                    return differ("range deranged and minimized", &m, &d);
                }
                Ok(Verdict::new(d.len() > 1).label(true, "range minimized again"))
            }
        }
    }
}
