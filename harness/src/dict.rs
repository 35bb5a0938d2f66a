//! Values that deserve more attention than chance would give them: special-purpose networks, and the
//! literals in the program's source (as fuzzers take a dictionary from the program under test). They
//! only guide the generators; nothing is judged by them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use crate::model::*;

/// Networks with a meaning of their own.
const SPECIAL: &[&str] = &[
    "0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24",
    "192.0.2.0/24", "192.88.99.0/24", "192.168.0.0/16", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24",
    "224.0.0.0/4", "224.0.0.0/24", "239.0.0.0/8", "240.0.0.0/4", "255.255.255.255/32", "127.0.0.1/32", "8.8.8.8/32",
    "::/128", "::1/128", "::/96", "::ffff:0:0/96", "::ffff:0:0:0/96", "64:ff9b::/96", "64:ff9b:1::/48", "100::/64",
    "2000::/3", "2001::/23", "2001::/32", "2001:2::/48", "2001:10::/28", "2001:20::/28", "2001:db8::/32", "2002::/16",
    "2620:4f:8000::/48", "3ffe::/16", "3fff::/20", "5f00::/16", "fc00::/7", "fd00::/8", "fe80::/10", "fe80::/64",
    "fec0::/10", "ff00::/8", "ff01::/16", "ff02::/16", "ff02::1:ff00:0/104", "ff05::/16", "ff0e::/16",
];

pub struct Dict {
    v4: Vec<(u128, u32)>,
    v6: Vec<(u128, u32)>,
    /// Numbers in the source, ascending.
    pub numbers: Vec<u128>,
    /// What might be the name of an environment variable.
    pub names: Vec<String>,
    /// Short texts in the source, which might mean something in a file.
    pub words: Vec<String>,
}
impl Dict {
    pub fn networks(&self, fam: Fam) -> &[(u128, u32)] {
        match fam {
            Fam::V4 => &self.v4,
            Fam::V6 => &self.v6,
        }
    }
}

pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict { v4: Vec::new(), v6: Vec::new(), numbers: Vec::new(), names: Vec::new(), words: Vec::new() };
        let mut numbers = BTreeSet::new();
        for s in SPECIAL {
            d.network(s);
        }
        if let Some(dir) = std::env::var_os("RIPVERIF_SOURCE") {
            let mut texts = Vec::new();
            read_tree(Path::new(&dir), &mut texts, 0);
            for t in &texts {
                // not the unit tests
                let t = t.split("#[cfg(test)]\nmod ").next().unwrap().split("#[cfg(test)]\npub mod ").next().unwrap();
                for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | ':' | '/'))) {
                    if let Some(n) = number(w) {
                        numbers.insert(n);
                    }
                    d.network(w.trim_matches('/'));
                }
                for w in t.split('"') {
                    let upper = |b: u8| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_';
                    if (3..40).contains(&w.len()) && w.bytes().all(upper) && d.names.len() < 50 && d.names.iter().all(|n| n != w) {
                        d.names.push(w.to_string());
                    }
                    let plain = |b: u8| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-' | b'.' | b'=' | b':' | b'#' | b'[' | b']' | b' ');
                    let t = w.trim();
                    if (2..24).contains(&t.len()) && t.bytes().all(plain) && t.bytes().any(|b| b.is_ascii_alphabetic()) && d.words.len() < 300 && d.words.iter().all(|n| n != t) {
                        d.words.push(t.to_string());
                    }
                }
            }
        }
        d.numbers = numbers.into_iter().take(2000).collect();
        d.v4.truncate(500);
        d.v6.truncate(500);
        d
    })
}
impl Dict {
    fn network(&mut self, s: &str) {
        let (a, p) = match s.split_once('/') {
            Some((a, p)) => (a, p.parse::<u32>().ok()),
            None => (s, None),
        };
        if a.len() < 4 || a.bytes().all(|b| b == b':') && s.len() < 5 {
            return;
        }
        let Some((f, v)) = std_parse(a) else { return };
        let p = p.unwrap_or(f.bits()).min(f.bits());
        let l = if f == Fam::V4 { &mut self.v4 } else { &mut self.v6 };
        if !l.contains(&(v, p)) {
            l.push((v, p));
        }
    }
}

fn number(w: &str) -> Option<u128> {
    let w: String = w.chars().filter(|c| *c != '_').collect();
    let mut w = w.as_str();
    for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] {
        // (hexadecimal digits do not include u or i)
        if let Some(r) = w.strip_suffix(suffix) {
            w = r;
            break;
        }
    }
    if let Some(h) = w.strip_prefix("0x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(b) = w.strip_prefix("0b") {
        u128::from_str_radix(b, 2).ok()
    } else if !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit()) {
        w.parse().ok()
    } else {
        None
    }
}

fn read_tree(dir: &Path, out: &mut Vec<String>, depth: u32) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() && depth < 5 {
            read_tree(&p, out, depth + 1);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.extend(std::fs::read_to_string(&p));
        }
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn numbers_of_source() {
        assert_eq!(number("0xFFFF_FFFFu64"), Some(0xFFFF_FFFF));
        assert_eq!(number("0x1f"), Some(31));
        assert_eq!(number("128usize"), Some(128));
        assert_eq!(number("0b101"), Some(5));
        assert_eq!(number("x1"), None);
        assert_eq!(number(""), None);
    }
    #[test]
    fn special_networks() {
        for f in [Fam::V4, Fam::V6] {
            assert!(dict().networks(f).len() > 15);
            for (v, p) in dict().networks(f) {
                assert_eq!(v & !f.prefix_mask(*p) & f.ones(), 0, "{:x}/{}", v, p);
            }
        }
    }
}
