//! An independent reading of address, network, mask and host-count texts: what must be understood
//! (and how), what may be understood or refused, and what must be refused.

use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Read<T> {
    /// Standard text: must be accepted with this meaning.
    Must(T),
    /// Unusual but unambiguous: accepted with this meaning, or refused.
    May(T),
    Reject,
}
impl<T> Read<T> {
    pub fn value(self) -> Option<T> {
        match self {
            Read::Must(v) | Read::May(v) => Some(v),
            Read::Reject => None,
        }
    }
    pub fn is_must(&self) -> bool {
        matches!(self, Read::Must(_))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Read<U> {
        match self {
            Read::Must(v) => Read::Must(f(v)),
            Read::May(v) => Read::May(f(v)),
            Read::Reject => Read::Reject,
        }
    }
    pub fn and<U>(self, other: Read<U>) -> Read<(T, U)> {
        match (self, other) {
            (Read::Reject, _) | (_, Read::Reject) => Read::Reject,
            (Read::Must(a), Read::Must(b)) => Read::Must((a, b)),
            (a, b) => Read::May((a.value().unwrap(), b.value().unwrap())),
        }
    }
}

fn number(text: &str, radix: u32, max: u128, usual_digits: usize) -> Read<u128> {
    if text.is_empty() || !text.chars().all(|c| c.is_ascii() && c.is_digit(radix)) {
        return Read::Reject;
    }
    let trimmed = text.trim_start_matches('0');
    if trimmed.len() > 39 {
        return Read::Reject;
    }
    let v = if trimmed.is_empty() {
        0
    } else {
        match u128::from_str_radix(trimmed, radix) {
            Ok(v) => v,
            Err(_) => return Read::Reject,
        }
    };
    if v > max {
        return Read::Reject;
    }
    let usual = if radix == 10 { text == "0" || !text.starts_with('0') } else { text.len() <= usual_digits };
    if usual {
        Read::Must(v)
    } else {
        Read::May(v)
    }
}

pub fn read_v4(s: &str) -> Read<u128> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() != 4 {
        return Read::Reject;
    }
    let mut v = Read::Must(0);
    for p in parts {
        v = v.and(number(p, 10, 255, 3)).map(|(v, b)| v << 8 | b);
    }
    v
}

pub fn read_v6(s: &str) -> Read<u128> {
    // the mixed notation (last four bytes in dotted decimal) is not required, but must not be misread
    if s.contains('.') {
        return match s.parse::<std::net::Ipv6Addr>() {
            Ok(a) => Read::May(u128::from(a)),
            Err(_) => Read::Reject,
        };
    }
    let side = |t: &str| -> Option<Vec<Read<u128>>> {
        if t.is_empty() {
            Some(Vec::new())
        } else {
            Some(t.split(':').map(|g| number(g, 16, 0xFFFF, 4)).collect())
        }
    };
    let (left, right, shortened) = match s.find("::") {
        Some(i) => (&s[..i], &s[i + 2..], true),
        None => (s, "", false),
    };
    if right.contains("::") || right.starts_with(':') {
        return Read::Reject;
    }
    let (Some(l), Some(r)) = (side(left), side(right)) else { return Read::Reject };
    let have = l.len() + r.len();
    if (shortened && have > 7) || (!shortened && have != 8) {
        return Read::Reject;
    }
    let zeros = vec![Read::Must(0u128); 8 - have];
    let mut v = Read::Must(0u128);
    for g in l.into_iter().chain(zeros).chain(r) {
        v = v.and(g).map(|(v, g)| v << 16 | g);
    }
    v
}

pub fn read_addr(s: &str) -> Read<(Fam, u128)> {
    if s.contains(':') {
        read_v6(s).map(|v| (Fam::V6, v))
    } else {
        read_v4(s).map(|v| (Fam::V4, v))
    }
}

fn read_addr_of(fam: Fam, s: &str) -> Read<u128> {
    match read_addr(s) {
        Read::Must((f, v)) if f == fam => Read::Must(v),
        Read::May((f, v)) if f == fam => Read::May(v),
        _ => Read::Reject,
    }
}

/// ADDRESS/SUBNET: the address and the mask.
pub fn read_netspec(s: &str) -> Read<(Addr, Net)> {
    let Some((a, m)) = s.split_once('/') else { return Read::Reject };
    let addr = read_addr(a);
    let Some((fam, v)) = addr.value() else { return Read::Reject };
    let (inverse, m) = match m.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, m),
    };
    let mask = if m.contains('.') || m.contains(':') {
        read_addr_of(fam, m).map(|x| if inverse { !x & fam.ones() } else { x })
    } else {
        number(m, 10, fam.bits() as u128, 3).map(|p| fam.prefix_mask(if inverse { fam.bits() - p as u32 } else { p as u32 }))
    };
    addr.and(mask).map(|(_, m)| (Addr::new(fam, v), Net::new(fam, v, m)))
}

/// The target of a resize, for a network of the given family.
pub fn read_target(fam: Fam, s: &str) -> Read<u128> {
    if s.contains('.') || s.contains(':') {
        return match s.strip_prefix('-') {
            Some(w) => read_addr_of(fam, w).map(|x| !x & fam.ones()),
            None => read_addr_of(fam, s),
        };
    }
    let max = fam.bits() as u128;
    if let Some(t) = s.strip_prefix('+') {
        return match number(t, 10, max, 3).value() {
            Some(p) => Read::May(fam.prefix_mask(p as u32)),
            None => Read::Reject,
        };
    }
    if let Some(t) = s.strip_prefix('-') {
        return match number(t, 10, max, 3).value() {
            Some(p) => Read::May(fam.prefix_mask(fam.bits() - p as u32)),
            None => Read::Reject,
        };
    }
    number(s, 10, max, 3).map(|p| fam.prefix_mask(p as u32))
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn agrees_with_std() {
        for s in ["1.2.3.4", "::", "::1", "1::", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", ":1::", "1::2::3", ":::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "12345::", "1.2.3", "1.2.3.256", "", ":", "1:", ":1", "fe80::%1", "1.2.3.4.", "٣.1.1.1", "::1:", "1:2:3:4:5:6:7:", ":2:3:4:5:6:7:8"] {
            let std = std_parse(s);
            match read_addr(s) {
                Read::Must(v) => assert_eq!(Some(v), std, "{}", s),
                Read::May(_) => {}
                Read::Reject => assert_eq!(None, std, "{}", s),
            }
        }
        assert_eq!(read_addr("01.2.3.4"), Read::May((Fam::V4, 0x01020304)));
        assert_eq!(read_addr("00001::"), Read::May((Fam::V6, 1 << 112)));
        assert_eq!(read_netspec("1.2.3.4/-0.0.0.255").value().unwrap().1.prefix(), Some(24));
        assert_eq!(read_netspec("1.2.3.4/-8").value().unwrap().1.prefix(), Some(24));
        assert_eq!(read_netspec("1.2.3.4/33"), Read::Reject);
        assert_eq!(read_netspec("1.2.3.4/--8"), Read::Reject);
    }
}

/// A number of hosts, for a split.
pub fn read_count(s: &str) -> Read<()> {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
        return Read::Must(());
    }
    if !s.bytes().all(|b| b.is_ascii_digit() || b"+-_".contains(&b)) || !s.bytes().any(|b| b.is_ascii_digit()) {
        return Read::Reject;
    }
    match s.strip_prefix('-') {
        Some(n) if n.bytes().all(|b| b.is_ascii_digit()) && n.bytes().any(|b| b != b'0') => Read::Reject,
        // signs and separators are not required
        _ => Read::May(()),
    }
}
