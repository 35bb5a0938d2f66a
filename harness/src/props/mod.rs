pub mod cross;
pub mod lists;
pub mod robust;
pub mod show;
pub mod sizes;
pub mod text;

use serde::{Deserialize, Serialize};

use crate::gen::*;
use crate::model::*;

/// An address with a mask, written in the plainest notation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Spec {
    pub addr: Addr,
    pub mask: Addr,
}
impl Spec {
    pub fn new(fam: Fam, addr: u128, mask: u128) -> Spec {
        Spec { addr: Addr::new(fam, addr), mask: Addr::new(fam, mask) }
    }
    pub fn fam(&self) -> Fam {
        self.addr.fam
    }
    pub fn net(&self) -> Net {
        Net::new(self.addr.fam, self.addr.v, self.mask.v)
    }
    pub fn has_host_bits_set(&self) -> bool {
        self.addr.v & !self.mask.v != 0
    }
    pub fn text(&self) -> String {
        match self.net().prefix() {
            Some(p) => format!("{}/{}", self.addr.text(), p),
            None => format!("{}/{}", self.addr.text(), self.mask.text()),
        }
    }
    pub fn simpler(&self) -> Vec<Spec> {
        let f = self.fam();
        let mut out = Vec::new();
        for m in simpler_masks(f, self.mask.v) {
            out.push(Spec::new(f, self.addr.v, m));
        }
        for a in simpler_values(f, self.addr.v) {
            out.push(Spec::new(f, a, self.mask.v));
        }
        out
    }
}
pub fn gen_spec(g: &mut Gen, fam: Fam) -> Spec {
    let a = g.value(fam);
    let m = g.mask(fam);
    Spec::new(fam, a, m)
}

pub fn args<const N: usize>(xs: [&str; N]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}

/// A pseudo-random but fixed shuffle, for systematic cases.
pub fn fixed_shuffle<T>(xs: &mut [T], seed: u64) {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in (1..xs.len()).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        xs.swap(i, ((s >> 33) % (i as u64 + 1)) as usize);
    }
}

/// Shrinks one argument text.
pub fn simpler_text(s: &str) -> Vec<String> {
    let chars: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    if chars.len() > 8 {
        out.push(chars[..chars.len() / 2].iter().collect());
        out.push(chars[chars.len() / 2..].iter().collect());
    }
    if chars.len() <= 200 {
        for i in 0..chars.len() {
            let mut v = chars.clone();
            v.remove(i);
            out.push(v.iter().collect());
        }
        for i in 0..chars.len() {
            if (chars[i].is_ascii_digit() && chars[i] != '0') || (chars[i].is_alphabetic() && chars[i] != 'a' && chars[i] != '0') {
                let mut v = chars.clone();
                v[i] = '0';
                out.push(v.iter().collect());
            }
        }
    }
    out
}
