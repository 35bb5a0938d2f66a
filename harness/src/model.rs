//! Reference model: IPv4 and IPv6 addresses are 128-bit integers, networks are (base, mask) pairs,
//! and everything the program computes is recomputed here from the textbook definitions, without
//! sharing any code or representation with the program (which works on bytes and on 64-bit halves).

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Fam {
    V4,
    V6,
}
impl Fam {
    pub fn bits(self) -> u32 {
        match self {
            Fam::V4 => 32,
            Fam::V6 => 128,
        }
    }
    pub fn ones(self) -> u128 {
        match self {
            Fam::V4 => 0xFFFF_FFFF,
            Fam::V6 => u128::MAX,
        }
    }
    pub fn prefix_mask(self, prefix: u32) -> u128 {
        let n = self.bits();
        assert!(prefix <= n);
        if prefix == 0 {
            0
        } else {
            (self.ones() >> (n - prefix)) << (n - prefix)
        }
    }
    /// The binary column: all bits, most significant first, in groups of eight (IPv4) or sixteen.
    pub fn binary(self, addr: u128) -> String {
        let (group, sep) = match self {
            Fam::V4 => (8, '.'),
            Fam::V6 => (16, ':'),
        };
        let mut s = String::new();
        for i in 0..self.bits() {
            if i > 0 && i % group == 0 {
                s.push(sep);
            }
            s.push(if addr >> (self.bits() - 1 - i) & 1 == 1 { '1' } else { '0' });
        }
        s
    }
    pub fn other(self) -> Fam {
        match self {
            Fam::V4 => Fam::V6,
            Fam::V6 => Fam::V4,
        }
    }
}

/// An address; serialized as its canonical text so that replay files can be read by people.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Addr {
    pub fam: Fam,
    pub v: u128,
}
impl Addr {
    pub fn new(fam: Fam, v: u128) -> Addr {
        assert!(v & !fam.ones() == 0);
        Addr { fam, v }
    }
    pub fn text(&self) -> String {
        fmt_addr(self.fam, self.v)
    }
}
impl std::fmt::Debug for Addr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text())
    }
}
impl Serialize for Addr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.text())
    }
}
impl<'de> Deserialize<'de> for Addr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Addr, D::Error> {
        let s = String::deserialize(d)?;
        std_parse(&s).map(|(fam, v)| Addr { fam, v }).ok_or_else(|| serde::de::Error::custom("address"))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Net {
    pub fam: Fam,
    pub base: u128,
    pub mask: u128,
}
impl std::fmt::Debug for Net {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.shown())
    }
}
impl Serialize for Net {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.shown())
    }
}
impl<'de> Deserialize<'de> for Net {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Net, D::Error> {
        let s = String::deserialize(d)?;
        parse_shown_net(&s).ok_or_else(|| serde::de::Error::custom("network"))
    }
}
impl Net {
    pub fn new(fam: Fam, addr: u128, mask: u128) -> Net {
        Net { fam, base: addr & mask, mask }
    }
    pub fn cidr(fam: Fam, addr: u128, prefix: u32) -> Net {
        Net::new(fam, addr, fam.prefix_mask(prefix))
    }
    pub fn wild(&self) -> u128 {
        !self.mask & self.fam.ones()
    }
    pub fn host_bits(&self) -> u32 {
        self.wild().count_ones()
    }
    pub fn net_bits(&self) -> u32 {
        self.mask.count_ones()
    }
    pub fn prefix(&self) -> Option<u32> {
        let p = self.net_bits();
        (self.fam.prefix_mask(p) == self.mask).then_some(p)
    }
    pub fn last(&self) -> u128 {
        self.base | self.wild()
    }
    /// The i-th member in ascending order.
    pub fn member(&self, i: u128) -> u128 {
        self.base | pdep(i, self.wild())
    }
    /// Members - 1 (so that 2^128 members need no wider integer).
    pub fn last_index(&self) -> u128 {
        let hb = self.host_bits();
        if hb == 128 {
            u128::MAX
        } else {
            (1u128 << hb) - 1
        }
    }
    #[cfg(test)]
    pub fn contains(&self, a: u128) -> bool {
        a & self.mask == self.base
    }
    pub fn covers(&self, o: &Net) -> bool {
        self.mask & o.mask == self.mask && o.base & self.mask == self.base
    }
    pub fn disjoint(&self, o: &Net) -> bool {
        let common = self.mask & o.mask;
        self.base & common != o.base & common
    }
    /// The network's number: its network bits, most significant first, as an integer.
    pub fn number(&self) -> u128 {
        pext(self.base, self.mask)
    }
    /// How the program displays a network outside of reports.
    pub fn shown(&self) -> String {
        match self.prefix() {
            Some(p) => format!("{}/{}", fmt_addr(self.fam, self.base), p),
            None => format!("{}/{}", fmt_addr(self.fam, self.base), fmt_addr(self.fam, self.mask)),
        }
    }
    /// The network's value in the Network row of reports.
    pub fn shown_in_report(&self) -> String {
        match self.prefix() {
            Some(p) => format!("{}/{}", fmt_addr(self.fam, self.base), p),
            None => fmt_addr(self.fam, self.base),
        }
    }
    pub fn host_min(&self) -> Option<u128> {
        (self.host_bits() >= 2).then(|| self.member(1))
    }
    pub fn host_max(&self) -> Option<u128> {
        (self.host_bits() >= 2).then(|| self.member(self.last_index() - 1))
    }
    pub fn broadcast(&self) -> Option<u128> {
        (self.host_bits() >= 1).then(|| self.last())
    }
    pub fn hosts(&self) -> Option<u128> {
        (self.host_bits() >= 2).then(|| self.last_index() - 1)
    }
    /// IPv4 class, if the mask fixes it.
    pub fn class(&self) -> Option<(char, u32)> {
        if self.fam != Fam::V4 {
            return None;
        }
        for (class, ones) in [('A', 0u32), ('B', 1), ('C', 2), ('D', 3)] {
            // leading bits: `ones` times 1, then 0
            let bits = ones + 1;
            let m = Fam::V4.prefix_mask(bits);
            if self.base & m == Fam::V4.prefix_mask(ones) {
                return (self.mask & m == m).then_some((class, bits));
            }
        }
        let m = Fam::V4.prefix_mask(4);
        (self.mask & m == m).then_some(('E', 4))
    }
}

/// Collects the bits of `v` selected by `mask`, most significant first, into the low bits.
pub fn pext(v: u128, mask: u128) -> u128 {
    let mut out = 0u128;
    for i in (0..128).rev() {
        if mask >> i & 1 == 1 {
            out = out << 1 | (v >> i & 1);
        }
    }
    out
}

/// Inverse of `pext`: spreads the low bits of `v` over the positions selected by `mask`.
pub fn pdep(v: u128, mask: u128) -> u128 {
    let mut out = 0u128;
    let mut k = 0;
    for i in 0..128 {
        if mask >> i & 1 == 1 {
            out |= (v >> k & 1) << i;
            k += 1;
        }
    }
    out
}

pub fn fmt_addr(fam: Fam, v: u128) -> String {
    match fam {
        Fam::V4 => format!("{}.{}.{}.{}", v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255),
        Fam::V6 => {
            let groups: Vec<u128> = (0..8).map(|i| v >> (112 - 16 * i) & 0xFFFF).collect();
            // first longest run of zero groups (even a single one)
            let mut best = (0usize, 0usize);
            for start in 0..8 {
                let len = groups[start..].iter().take_while(|g| **g == 0).count();
                if len > best.1 {
                    best = (start, len);
                }
            }
            let hex = |gs: &[u128]| gs.iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(":");
            if best.1 == 0 {
                hex(&groups)
            } else {
                format!("{}::{}", hex(&groups[..best.0]), hex(&groups[best.0 + best.1..]))
            }
        }
    }
}

/// Reads an address with the standard library's parser.
pub fn std_parse(s: &str) -> Option<(Fam, u128)> {
    match s.parse::<std::net::IpAddr>().ok()? {
        std::net::IpAddr::V4(a) => Some((Fam::V4, u32::from(a) as u128)),
        std::net::IpAddr::V6(a) => Some((Fam::V6, u128::from(a))),
    }
}

/// Reads a network as the program displays it outside of reports.
pub fn parse_shown_net(s: &str) -> Option<Net> {
    let (a, m) = s.split_once('/')?;
    let (fam, base) = std_parse(a)?;
    let mask = if m.bytes().all(|b| b.is_ascii_digit()) && !m.is_empty() && m.len() <= 3 && (m == "0" || !m.starts_with('0')) {
        let p: u32 = m.parse().ok()?;
        if p > fam.bits() {
            return None;
        }
        fam.prefix_mask(p)
    } else {
        let (mf, mv) = std_parse(m)?;
        if mf != fam {
            return None;
        }
        mv
    };
    if base & !mask != 0 {
        return None;
    }
    Some(Net { fam, base, mask })
}

/// The unique smallest CIDR cover of an inclusive interval.
pub fn cover_interval(fam: Fam, lo: u128, hi: u128) -> Vec<Net> {
    let mut out = Vec::new();
    let mut cur = lo;
    loop {
        let align = if cur == 0 { fam.bits() } else { cur.trailing_zeros() };
        let mut k = align;
        while k > 0 && last_of_block(cur, k) > hi {
            k -= 1;
        }
        out.push(Net::cidr(fam, cur, fam.bits() - k));
        let last = last_of_block(cur, k);
        if last >= hi {
            return out;
        }
        cur = last + 1;
    }
}
fn last_of_block(base: u128, k: u32) -> u128 {
    if k >= 128 {
        u128::MAX
    } else {
        base | ((1u128 << k) - 1)
    }
}

/// Disjoint, non-adjacent, ascending intervals covering the same addresses as the CIDR networks.
pub fn intervals(nets: &[Net]) -> Vec<(u128, u128)> {
    let mut v: Vec<(u128, u128)> = nets.iter().map(|n| (n.base, n.last())).collect();
    v.sort();
    let mut out: Vec<(u128, u128)> = Vec::new();
    for (lo, hi) in v {
        match out.last_mut() {
            Some(last) if last.1 == u128::MAX || lo <= last.1 + 1 => last.1 = last.1.max(hi),
            _ => out.push((lo, hi)),
        }
    }
    out
}

/// The unique smallest CIDR cover of the union of CIDR networks of one family.
pub fn aggregate(nets: &[Net]) -> Vec<Net> {
    let Some(first) = nets.first() else { return Vec::new() };
    intervals(nets).into_iter().flat_map(|(lo, hi)| cover_interval(first.fam, lo, hi)).collect()
}

/// Whether `cube` is contained in the union of `list`; `None` if the search gets too large.
pub fn covered_by_union(cube: &Net, list: &[Net], budget: &mut u64) -> Option<bool> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let rel: Vec<Net> = list.iter().filter(|n| !n.disjoint(cube)).copied().collect();
    if rel.iter().any(|n| n.covers(cube)) {
        return Some(true);
    }
    // split on a bit that the networks fix and the cube does not, preferring the network that
    // needs fewest splits
    let Some(n) = rel.iter().min_by_key(|n| (n.mask & !cube.mask).count_ones()) else { return Some(false) };
    let free = n.mask & !cube.mask;
    let bit = 1u128 << (127 - free.leading_zeros());
    for half in [0, bit] {
        let sub = Net { fam: cube.fam, base: cube.base | half, mask: cube.mask | bit };
        if !covered_by_union(&sub, &rel, budget)? {
            return Some(false);
        }
    }
    Some(true)
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn basics() {
        assert_eq!(fmt_addr(Fam::V6, 0), "::");
        assert_eq!(fmt_addr(Fam::V6, 1), "::1");
        assert_eq!(fmt_addr(Fam::V6, 1 << 112), "1::");
        assert_eq!(fmt_addr(Fam::V6, 0x0001_0000_0002_0003_0004_0000_0005_0006), "1::2:3:4:0:5:6");
        let n = Net::new(Fam::V4, 0xC0A80002, 0xFFFFF0FF);
        assert_eq!(n.member(3), 0xC0A80302);
        assert_eq!(n.hosts(), Some(14));
        assert_eq!(cover_interval(Fam::V6, 0, u128::MAX).len(), 1);
        assert_eq!(cover_interval(Fam::V4, 1, 0xFFFF_FFFE).len(), 62);
        for v in 0..2000u128 {
            let m = 0xF0F0_1234u128;
            assert_eq!(pext(pdep(v & 0x1FFF, m), m), v & 0x1FFF);
        }
    }
    #[test]
    fn cover_is_brute_force_minimal() {
        // against brute force on a 5-bit window at both ends
        for off in [0u128, u128::MAX - 31] {
            for lo in 0..32u128 {
                for hi in lo..32 {
                    let c = cover_interval(Fam::V6, off + lo, off + hi);
                    // dynamic programming over aligned blocks
                    let mut best = vec![u32::MAX; 34];
                    best[lo as usize] = 0;
                    for s in lo..=hi {
                        if best[s as usize] == u32::MAX {
                            continue;
                        }
                        for k in 0..=5 {
                            let size = 1u128 << k;
                            if s % size == 0 && s + size - 1 <= hi {
                                let e = (s + size) as usize;
                                best[e] = best[e].min(best[s as usize] + 1);
                            }
                        }
                    }
                    assert_eq!(c.len() as u32, best[hi as usize + 1]);
                    assert_eq!(intervals(&c), vec![(off + lo, off + hi)]);
                }
            }
        }
    }
    #[test]
    fn union_test_matches_brute_force() {
        let mut x = 12345u64;
        let mut rnd = || {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as u128
        };
        for _ in 0..3000 {
            let mut nets: Vec<Net> = (0..4).map(|_| Net::new(Fam::V4, rnd() & 0x3F, 0xFFFF_FFC0 | rnd() & 0x3F)).collect();
            let cube = nets.pop().unwrap();
            let brute = (0..64u128).filter(|a| cube.contains(*a)).all(|a| nets.iter().any(|n| n.contains(a)));
            assert_eq!(covered_by_union(&cube, &nets, &mut 10000), Some(brute));
        }
    }
}
