//! Generators. Every random choice comes from proptest's generator, so that a run is a function of
//! the seed.

use proptest::prelude::Rng;
use proptest::test_runner::TestRng;

use crate::dict::dict;
use crate::model::*;

pub struct Gen<'a> {
    rng: &'a mut TestRng,
}
impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut TestRng) -> Gen<'a> {
        Gen { rng }
    }
    pub fn u64(&mut self) -> u64 {
        self.rng.next_u64()
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let mut r = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    pub fn fam(&mut self) -> Fam {
        if self.chance(1, 2) {
            Fam::V4
        } else {
            Fam::V6
        }
    }
    /// Usually small, sometimes up to `max`.
    pub fn small(&mut self, max: u64) -> u64 {
        let m = match self.weighted(&[4, 3, 2, 1]) {
            0 => 3,
            1 => 8,
            2 => 24,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }

    /// A number from the program's source, or next to one.
    pub fn source_number(&mut self) -> u128 {
        let ns = &dict().numbers;
        if ns.is_empty() {
            return 0;
        }
        let n = *self.pick(ns);
        match self.below(4) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            _ => n,
        }
    }
    /// An address within a special network, or made with a number from the program's source.
    fn notable(&mut self, fam: Fam) -> u128 {
        let n = fam.bits();
        if self.chance(2, 3) {
            let (base, p) = *self.pick(dict().networks(fam));
            let host = !fam.prefix_mask(p) & fam.ones();
            return match self.below(4) {
                0 => base,
                1 => base | host,
                2 => base.wrapping_sub(1),
                _ => base | self.u128() & host,
            };
        }
        let l = self.source_number();
        let v = if self.chance(1, 2) { self.u128() } else { 0 };
        // as the whole, or as a part of its own size anywhere
        let w = [4u32, 8, 16, 32, 64, 128].into_iter().find(|w| *w == 128 || l >> w == 0).unwrap();
        if w >= n || self.chance(1, 4) {
            return l;
        }
        let at = w * self.below((n / w) as u64) as u32;
        v & !(((1u128 << w) - 1) << at) | l << at
    }

    pub fn value(&mut self, fam: Fam) -> u128 {
        let n = fam.bits();
        let ones = fam.ones();
        let v = match self.weighted(&[4, 4, 2, 2, 2, 2, 2, 2]) {
            7 => self.notable(fam),
            0 => self.u128(),
            1 => {
                // group by group
                let (w, count) = if fam == Fam::V4 { (8, 4) } else { (16, 8) };
                let style = self.below(3);
                let mut v = 0u128;
                for _ in 0..count {
                    let g = match self.weighted(if style == 0 { &[6, 1, 1, 1, 1, 1] } else { &[2, 2, 1, 1, 1, 3] }) {
                        0 => 0,
                        1 => (1 << w) - 1,
                        2 => 1,
                        3 => 1 << (w - 1),
                        4 => self.below(16) as u128,
                        _ => self.u128() & ((1 << w) - 1),
                    };
                    v = v << w | g;
                }
                v
            }
            2 => {
                // near a power of two
                let p = 1u128 << self.below(n as u64);
                let d = self.below(4) as u128;
                if self.chance(1, 2) {
                    p.wrapping_add(d)
                } else {
                    p.wrapping_sub(d)
                }
            }
            3 => {
                // near an end of the address space
                let d = self.below(300) as u128;
                if self.chance(1, 2) {
                    d
                } else {
                    ones - d
                }
            }
            4 => match fam {
                // class boundaries; the boundary between the 64-bit halves
                Fam::V4 => {
                    let top = *self.pick(&[0u128, 63, 64, 127, 128, 191, 192, 223, 224, 239, 240, 255, 10, 172]);
                    let low = match self.below(3) {
                        0 => 0,
                        1 => 0xFF_FFFF,
                        _ => self.u128() & 0xFF_FFFF,
                    };
                    top << 24 | low
                }
                Fam::V6 => {
                    let low = match self.below(4) {
                        0 => self.below(4) as u128,
                        1 => (u64::MAX - self.below(4)) as u128,
                        2 => 1u128 << 63,
                        _ => self.u64() as u128,
                    };
                    let top = match self.below(4) {
                        0 => self.below(4),
                        1 => u64::MAX - self.below(4),
                        _ => self.u64(),
                    };
                    (top as u128) << 64 | low
                }
            },
            5 => {
                // few bits set or few bits clear
                let mut v = 0u128;
                for _ in 0..self.range(1, 4) {
                    v |= 1 << self.below(n as u64);
                }
                if self.chance(1, 3) {
                    !v
                } else {
                    v
                }
            }
            _ => match fam {
                Fam::V4 => *self.pick(&[0u128, ones, 0x7F000001, 0xC0A80001, 0x0A000000, 0xE0000001, 0xA9FEA9FE, 0x80000000, 0x7FFFFFFF]),
                Fam::V6 => {
                    let r = self.u128();
                    *self.pick(&[
                        0,
                        ones,
                        1,
                        0x2001_0db8 << 96,
                        0x2001_0db8 << 96 | r & 0xFFFF,
                        0xfe80 << 112 | r & 0xFFFF_FFFF_FFFF_FFFF,
                        0xFFFF_0000_0000 | r & 0xFFFF_FFFF,
                        r & 0xFFFF_FFFF,
                        0xff02 << 112 | 1,
                        1 << 64,
                        (1 << 64) - 1,
                    ])
                }
            },
        };
        v & ones
    }
    pub fn addr(&mut self, fam: Fam) -> Addr {
        let v = self.value(fam);
        Addr::new(fam, v)
    }

    pub fn prefix(&mut self, fam: Fam) -> u32 {
        let n = fam.bits() as u64;
        (match self.weighted(&[12, 4, 4, 2, 1]) {
            0 => self.below(n + 1),
            4 => match self.source_number() {
                l if l <= n as u128 => l as u64,
                _ => self.below(n + 1),
            },
            1 => n - self.below(6),
            2 => *self.pick(if fam == Fam::V4 { &[0, 1, 2, 3, 4, 8, 16, 24, 30, 31, 32] } else { &[0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 126, 127, 128] }),
            _ => 8 * self.below(n / 8 + 1),
        }) as u32
    }

    /// Any mask; mostly not contiguous.
    pub fn lopsided_mask(&mut self, fam: Fam) -> u128 {
        let n = fam.bits() as u64;
        let ones = fam.ones();
        let m = match self.weighted(&[3, 3, 3, 2, 2, 2, 2, 1, 1, 1]) {
            0 => self.u128(),
            1 => {
                // a contiguous mask with some bits flipped
                let p = self.prefix(fam);
                let mut m = fam.prefix_mask(p);
                for _ in 0..self.range(1, 4) {
                    m ^= 1 << self.below(n);
                }
                m
            }
            2 => {
                // a contiguous mask with a hole or an island
                let p = self.prefix(fam);
                let start = self.below(n);
                let len = self.range(1, (n - start).min(20));
                fam.prefix_mask(p) ^ ((if len >= 128 { u128::MAX } else { (1 << len) - 1 }) << start)
            }
            3 => {
                // byte patterns
                let mut m = 0;
                for _ in 0..n / 8 {
                    m = m << 8 | *self.pick(&[0u128, 255, 255, 0, 0xF0, 0x0F, 0xFE, 0x7F, 0x80, 1]);
                }
                m
            }
            4 => {
                // few host bits
                let mut m = ones;
                for _ in 0..self.range(1, 6) {
                    m &= !(1 << self.below(n));
                }
                m
            }
            5 => {
                // few network bits
                let mut m = 0;
                for _ in 0..self.range(1, 6) {
                    m |= 1 << self.below(n);
                }
                m
            }
            6 => {
                // host bits first
                let p = self.prefix(fam);
                !fam.prefix_mask(p)
            }
            7 => {
                let p = 0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAAu128;
                if self.chance(1, 2) {
                    p
                } else {
                    !p
                }
            }
            8 => self.u128() & self.u128(),
            _ => self.u128() | self.u128(),
        };
        m & ones
    }
    pub fn mask(&mut self, fam: Fam) -> u128 {
        if self.chance(2, 5) {
            let p = self.prefix(fam);
            fam.prefix_mask(p)
        } else {
            self.lopsided_mask(fam)
        }
    }
    /// A mask with exactly `hb` host bits.
    pub fn mask_with_host_bits(&mut self, fam: Fam, hb: u32) -> u128 {
        let n = fam.bits() as u64;
        let hb = hb as u64;
        let run = |len: u64| if len >= 128 { u128::MAX } else { (1u128 << len) - 1 };
        let shl = |v: u128, by: u64| if by >= 128 { 0 } else { v << by };
        let wild: u128 = match self.weighted(&[3, 3, 2, 3, 1]) {
            0 => run(hb),
            1 => {
                // one run anywhere
                let at = self.below(n - hb + 1);
                shl(run(hb), at)
            }
            2 => {
                // two runs
                let a = self.below(hb + 1);
                let b = hb - a;
                let gap = self.below(n - hb + 1);
                let at = self.below(n - hb - gap + 1);
                shl(run(a) | shl(run(b), a + gap), at)
            }
            3 => self.scattered(n, hb),
            _ => {
                // at the top
                if hb == 0 {
                    0
                } else {
                    run(hb) << (n - hb)
                }
            }
        };
        let wild = wild & fam.ones();
        let wild = if wild.count_ones() as u64 == hb { wild } else { run(hb) };
        !wild & fam.ones()
    }
    fn scattered(&mut self, n: u64, count: u64) -> u128 {
        let mut pos: Vec<u64> = (0..n).collect();
        self.shuffle(&mut pos);
        pos.iter().take(count as usize).fold(0, |m, p| m | 1 << p)
    }
    pub fn net(&mut self, fam: Fam) -> Net {
        let a = self.value(fam);
        let m = self.mask(fam);
        Net::new(fam, a, m)
    }
    pub fn cidr_net(&mut self, fam: Fam) -> Net {
        if self.chance(1, 12) {
            let (base, p) = *self.pick(dict().networks(fam));
            return Net::cidr(fam, base, p);
        }
        let a = self.value(fam);
        let p = self.prefix(fam);
        Net::cidr(fam, a, p)
    }

    /// A standard spelling of an address, not necessarily the canonical one.
    pub fn spelling(&mut self, fam: Fam, v: u128) -> String {
        if fam == Fam::V4 {
            return fmt_addr(fam, v);
        }
        let style = self.below(4);
        if style == 0 {
            return fmt_addr(fam, v);
        }
        let groups: Vec<u16> = (0..8).map(|i| (v >> (112 - 16 * i)) as u16).collect();
        let mut texts: Vec<String> = Vec::new();
        for g in &groups {
            let width = match style {
                1 => 1,
                2 => 4,
                _ => self.range(1, 4) as usize,
            };
            let upper = self.chance(1, 3);
            texts.push(if upper { format!("{:0w$X}", g, w = width) } else { format!("{:0w$x}", g, w = width) });
        }
        // optionally shorten any run of zero groups (any part of it)
        let zeros: Vec<usize> = (0..8).filter(|i| groups[*i] == 0).collect();
        if !zeros.is_empty() && self.chance(3, 4) {
            let start = *self.pick(&zeros);
            let max = groups[start..].iter().take_while(|g| **g == 0).count();
            let len = if self.chance(1, 2) { max } else { self.range(1, max as u64) as usize };
            format!("{}::{}", texts[..start].join(":"), texts[start + len..].join(":"))
        } else {
            texts.join(":")
        }
    }

    /// A notation for a network, its address part being `addr`.
    pub fn notation(&mut self, fam: Fam, addr: u128, mask: u128) -> String {
        let a = self.spelling(fam, addr);
        let net = Net::new(fam, addr, mask);
        match (net.prefix(), self.below(4)) {
            (Some(p), 0) => format!("{}/{}", a, p),
            (Some(p), 1) => format!("{}/-{}", a, fam.bits() - p),
            (_, 0) | (_, 2) => {
                let m = self.spelling(fam, mask);
                format!("{}/{}", a, m)
            }
            _ => {
                let m = self.spelling(fam, net.wild());
                format!("{}/-{}", a, m)
            }
        }
    }
    /// The address of a network with arbitrary host bits, in an arbitrary notation.
    pub fn any_notation(&mut self, net: &Net) -> String {
        let host = if self.chance(1, 2) { 0 } else { self.u128() & net.wild() };
        self.notation(net.fam, net.base | host, net.mask)
    }

    /// A list of nearby CIDR networks of one family: nested, adjacent, duplicated, shuffled.
    pub fn cidr_cluster(&mut self, fam: Fam, max: u64) -> Vec<Net> {
        let n = fam.bits();
        let depth = self.range(2, 7) as u32;
        let root_prefix = if self.chance(1, 5) {
            self.below((n - depth + 1) as u64) as u32
        } else {
            *self.pick(&[0, n - depth, n / 2 - depth / 2, n / 2, n / 2 - depth])
        };
        let root = match self.below(4) {
            0 => 0,
            1 => fam.ones(),
            _ => self.value(fam),
        } & fam.prefix_mask(root_prefix);
        let count = 1 + self.small(max - 1);
        let mut out = Vec::new();
        for _ in 0..count {
            let net = match self.weighted(&[6, 2, 2, 1]) {
                1 if !out.is_empty() => {
                    // the sibling of one that is there
                    let o: Net = *self.pick(&out);
                    match o.prefix() {
                        Some(p) if p > 0 => Net::cidr(fam, o.base ^ (1 << (n - p)), p),
                        _ => o,
                    }
                }
                2 if !out.is_empty() => {
                    // the next network of the same size
                    let o: Net = *self.pick(&out);
                    Net::new(fam, o.last().wrapping_add(1) & fam.ones(), o.mask)
                }
                3 => self.cidr_net(fam),
                _ => {
                    let extra = self.range(0, depth as u64) as u32;
                    let p = (root_prefix + extra).min(n);
                    let low = n - root_prefix - depth.min(n - root_prefix);
                    let bits = self.below(1 << depth) as u128;
                    Net::cidr(fam, root | if low >= 128 { 0 } else { (bits << low) & !fam.prefix_mask(root_prefix) & fam.ones() }, p)
                }
            };
            out.push(net);
        }
        out
    }
}

/// Values between zero (or all ones) and `v`, for shrinking: clear bits, high ones first.
pub fn simpler_values(fam: Fam, v: u128) -> Vec<u128> {
    let mut out = Vec::new();
    if v != 0 {
        out.push(0);
    }
    let n = fam.bits();
    for half in [n / 2, n / 4, 16, 8] {
        // clear the low part, clear the high part
        out.push(v & !((1u128 << half) - 1));
        out.push(v & ((1u128 << half) - 1));
    }
    for i in (0..n).rev() {
        if v >> i & 1 == 1 {
            out.push(v & !(1 << i));
        }
    }
    out.retain(|c| *c != v);
    out.dedup();
    out
}
/// Simpler masks: contiguous ones first, then with more bits set.
pub fn simpler_masks(fam: Fam, m: u128) -> Vec<u128> {
    let mut out = Vec::new();
    let p = m.count_ones();
    let contiguous = fam.prefix_mask(p) == m;
    if contiguous {
        for q in [fam.bits(), fam.bits() - 1, fam.bits() - 2, 24, 8] {
            if q > p {
                out.push(fam.prefix_mask(q));
            }
        }
        if p < fam.bits() {
            out.push(fam.prefix_mask(p + 1));
        }
    } else {
        out.push(fam.prefix_mask(p));
        for i in 0..fam.bits() {
            if m >> i & 1 == 0 {
                out.push(m | 1 << i);
            }
        }
    }
    out
}
/// Lists with elements removed: halves first, then single elements.
pub fn shorter<T: Clone>(xs: &[T], min: usize) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    let n = xs.len();
    if n > min {
        if n / 2 >= min && n >= 4 {
            out.push(xs[..n / 2].to_vec());
            out.push(xs[n / 2..].to_vec());
        }
        if n > 300 {
            // not one by one
            let mut k = n / 4;
            while k > 0 {
                if n - k >= min {
                    out.push(xs[..n - k].to_vec());
                    out.push(xs[k..].to_vec());
                    out.push([&xs[..(n - k) / 2], &xs[(n - k) / 2 + k..]].concat());
                }
                k /= 2;
            }
            return out;
        }
        for i in 0..n {
            let mut v = xs.to_vec();
            v.remove(i);
            out.push(v);
        }
    }
    out
}
pub fn simpler_nets(n: &Net) -> Vec<Net> {
    let mut out = Vec::new();
    for m in simpler_masks(n.fam, n.mask) {
        out.push(Net::new(n.fam, n.base, m));
    }
    for b in simpler_values(n.fam, n.base) {
        out.push(Net::new(n.fam, b, n.mask));
    }
    out.retain(|c| c != n);
    out
}
/// Lists with one element replaced by simpler ones.
pub fn simpler_elements<T: Clone>(xs: &[T], f: impl Fn(&T) -> Vec<T>) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    // (all of them are in memory at the same time)
    let most = (1_000_000 / xs.len().max(1)).max(16);
    for i in 0..xs.len() {
        if xs.len() > 300 && (4..xs.len() - 4).contains(&i) {
            continue;
        }
        for y in f(&xs[i]) {
            if out.len() == most {
                return out;
            }
            let mut v = xs.to_vec();
            v[i] = y;
            out.push(v);
        }
    }
    out
}
