//! Properties of the argument texts: C11 (notations), C13 (addresses), C22 (options and families).

use serde::{Deserialize, Serialize};

use super::sizes::{parse_resize, resized};
use super::*;
use crate::engine::*;
use crate::exec::*;
use crate::recog::*;
use crate::report::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Notation {
    Prefix,
    HostBits,
    Mask,
    Wildcard,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spelling {
    Canonical,
    /// All groups with four digits, no "::".
    Full,
    FullUpper,
    /// No "::", no leading zeros.
    Plain,
    Upper,
    /// "::" for the last zero group only.
    LastZero,
}
const SPELLINGS: [Spelling; 6] = [Spelling::Canonical, Spelling::Full, Spelling::FullUpper, Spelling::Plain, Spelling::Upper, Spelling::LastZero];
fn spell(fam: Fam, v: u128, s: Spelling) -> String {
    if fam == Fam::V4 {
        return fmt_addr(fam, v);
    }
    let groups: Vec<u16> = (0..8).map(|i| (v >> (112 - 16 * i)) as u16).collect();
    let plain = |gs: &[u16]| gs.iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(":");
    match s {
        Spelling::Canonical => fmt_addr(fam, v),
        Spelling::Full => groups.iter().map(|g| format!("{:04x}", g)).collect::<Vec<_>>().join(":"),
        Spelling::FullUpper => groups.iter().map(|g| format!("{:04X}", g)).collect::<Vec<_>>().join(":"),
        Spelling::Plain => plain(&groups),
        Spelling::Upper => fmt_addr(fam, v).to_uppercase(),
        Spelling::LastZero => match groups.iter().rposition(|g| *g == 0) {
            Some(i) => format!("{}::{}", plain(&groups[..i]), plain(&groups[i + 1..])),
            None => plain(&groups),
        },
    }
}

/// A network and how it is written.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    pub net: Net,
    /// The address part is the base with these host bits set.
    pub host: Addr,
    pub notation: Notation,
    pub spelling: Spelling,
}
impl Item {
    fn gen(g: &mut Gen, net: Net) -> Item {
        let host = match g.below(3) {
            0 => 0,
            1 => net.wild(),
            _ => g.u128() & net.wild(),
        };
        let notation = if net.prefix().is_some() {
            *g.pick(&[Notation::Prefix, Notation::HostBits, Notation::Mask, Notation::Wildcard])
        } else {
            *g.pick(&[Notation::Mask, Notation::Wildcard])
        };
        Item { net, host: Addr::new(net.fam, host), notation, spelling: *g.pick(&SPELLINGS) }
    }
    fn addr(&self) -> u128 {
        self.net.base | self.host.v
    }
    fn subnet(&self, notation: Notation, spelling: Spelling) -> String {
        let f = self.net.fam;
        match notation {
            Notation::Prefix => self.net.net_bits().to_string(),
            Notation::HostBits => format!("-{}", self.net.host_bits()),
            Notation::Mask => spell(f, self.net.mask, spelling),
            Notation::Wildcard => format!("-{}", spell(f, self.net.wild(), spelling)),
        }
    }
    fn text(&self) -> String {
        format!("{}/{}", spell(self.net.fam, self.addr(), self.spelling), self.subnet(self.notation, self.spelling))
    }
    /// The plainest notation, for the given address.
    fn plain(&self, addr: u128) -> String {
        Spec::new(self.net.fam, addr, self.net.mask).text()
    }
    fn simpler(&self) -> Vec<Item> {
        let mut out = Vec::new();
        if self.spelling != Spelling::Canonical {
            out.push(Item { spelling: Spelling::Canonical, ..self.clone() });
        }
        if self.host.v != 0 {
            out.push(Item { host: Addr::new(self.net.fam, 0), ..self.clone() });
            out.push(Item { host: Addr::new(self.net.fam, 1u128 << self.host.v.trailing_zeros()), ..self.clone() });
        }
        if self.net.prefix().is_some() && self.notation != Notation::Prefix {
            out.push(Item { notation: Notation::Prefix, ..self.clone() });
        }
        for net in simpler_nets(&self.net) {
            if net.prefix().is_some() || matches!(self.notation, Notation::Mask | Notation::Wildcard) {
                out.push(Item { net, host: Addr::new(net.fam, self.host.v & net.wild()), ..self.clone() });
            }
        }
        out.retain(|i| i != self);
        out
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Notated {
    Report(Vec<Item>),
    Enumerate(Vec<Item>),
    Minimize(Vec<Item>),
    Split(Item, Vec<u64>),
    Resize(Item, Item),
}
pub struct C11;
impl C11 {
    fn good(c: &Notated) -> bool {
        match c {
            Notated::Report(v) | Notated::Minimize(v) => !v.is_empty(),
            Notated::Enumerate(v) => !v.is_empty() && v.iter().all(|i| i.net.host_bits() <= 9),
            Notated::Split(i, c) => i.net.prefix().is_some() && !c.is_empty(),
            Notated::Resize(a, b) => b.net.net_bits() <= a.net.net_bits() + 6 && b.notation != Notation::HostBits,
        }
    }
}
impl Property for C11 {
    type Case = Notated;
    const ID: &'static str = "C11";
    const RULE: &'static str = "networks of either family written with prefix, host-bit count, mask or wildcard, in six IPv6 spellings, with no, all or random host bits in the address part, in every mode (1-3 networks for report and enumerate, 1-10 related ones for minimize, 1-4 counts for split, resize targets with up to six more network bits in three notations); output and status are compared with those of the plainest notation of the same networks (of the same addresses for the report). Non-trivial: the two command lines differ.";
    const QUICK: u64 = 330_000;
    fn gen(&self, g: &mut Gen) -> Notated {
        match g.weighted(&[3, 2, 2, 2, 3]) {
            0 => {
                let n = 1 + g.weighted(&[4, 1, 1]);
                Notated::Report(
                    (0..n)
                        .map(|_| {
                            let f = g.fam();
                            let net = g.net(f);
                            Item::gen(g, net)
                        })
                        .collect(),
                )
            }
            1 => {
                let n = 1 + g.weighted(&[4, 1, 1]);
                Notated::Enumerate(
                    (0..n)
                        .map(|_| {
                            let f = g.fam();
                            let hb = g.small(7) as u32;
                            let m = g.mask_with_host_bits(f, hb);
                            let net = Net::new(f, g.value(f), m);
                            Item::gen(g, net)
                        })
                        .collect(),
                )
            }
            2 => {
                let f = g.fam();
                let mut nets = g.cidr_cluster(f, 10);
                if g.chance(1, 3) {
                    nets.push(g.net(f));
                }
                Notated::Minimize(nets.into_iter().map(|n| Item::gen(g, n)).collect())
            }
            3 => {
                let f = g.fam();
                let net = g.cidr_net(f);
                let n = 1 + g.small(3);
                let counts = (0..n).map(|_| g.small(300)).collect();
                Notated::Split(Item::gen(g, net), counts)
            }
            _ => {
                let f = g.fam();
                let net = g.net(f);
                let have = net.net_bits();
                let want = if g.chance(1, 3) { g.below(have as u64 + 1) as u32 } else { (have + g.below(6) as u32).min(f.bits()) };
                let m = if g.chance(2, 3) { f.prefix_mask(want) } else { g.mask_with_host_bits(f, f.bits() - want) };
                let mut target = Item::gen(g, Net::new(f, 0, m));
                if target.notation == Notation::HostBits {
                    target.notation = Notation::Wildcard;
                }
                Notated::Resize(Item::gen(g, net), target)
            }
        }
    }
    fn shrink(&self, c: &Notated) -> Vec<Notated> {
        let list = |v: &Vec<Item>, make: fn(Vec<Item>) -> Notated| {
            let mut out: Vec<Notated> = shorter(v, 1).into_iter().map(make).collect();
            out.extend(simpler_elements(v, Item::simpler).into_iter().map(make));
            out
        };
        let mut out = match c {
            Notated::Report(v) => list(v, Notated::Report),
            Notated::Enumerate(v) => list(v, Notated::Enumerate),
            Notated::Minimize(v) => list(v, Notated::Minimize),
            Notated::Split(i, counts) => {
                let mut out: Vec<Notated> = shorter(counts, 1).into_iter().map(|c| Notated::Split(i.clone(), c)).collect();
                out.extend(i.simpler().into_iter().map(|i| Notated::Split(i, counts.clone())));
                out
            }
            Notated::Resize(a, b) => {
                let mut out: Vec<Notated> = a.simpler().into_iter().map(|a| Notated::Resize(a, b.clone())).collect();
                out.extend(b.simpler().into_iter().map(|b| Notated::Resize(a.clone(), b)));
                out
            }
        };
        out.retain(C11::good);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Notated>> {
        // every prefix in every notation in every mode
        Box::new([Fam::V4, Fam::V6].into_iter().flat_map(|f| {
            (0..=f.bits()).flat_map(move |p| {
                [Notation::Prefix, Notation::HostBits, Notation::Mask, Notation::Wildcard].into_iter().flat_map(move |notation| {
                    let net = Net::cidr(f, 0xC0A8_A5C3_2001_0db8_5A5A_A5A5_C0A8_A5C3 & f.ones(), p);
                    let item = Item { net, host: Addr::new(f, 0x1111_2222_3333_4444_5555_6666_7777_8888 & net.wild()), notation, spelling: SPELLINGS[(p % 6) as usize] };
                    let mut out = vec![
                        Notated::Report(vec![item.clone()]),
                        Notated::Minimize(vec![item.clone()]),
                        Notated::Split(item.clone(), vec![0, 5]),
                        Notated::Resize(item.clone(), Item { net: Net::cidr(f, 0, (p + 2).min(f.bits())), host: Addr::new(f, 0), notation: Notation::Prefix, spelling: Spelling::Canonical }),
                    ];
                    if notation != Notation::HostBits {
                        let one = Item { net: Net::cidr(f, net.base, f.bits()), host: Addr::new(f, 0), notation: Notation::Prefix, spelling: Spelling::Canonical };
                        out.push(Notated::Resize(one, Item { net: Net::cidr(f, 0, p), host: Addr::new(f, 0), notation, spelling: item.spelling }));
                    }
                    if f.bits() - p <= 6 {
                        out.push(Notated::Enumerate(vec![item]));
                    }
                    out
                })
            })
        }))
    }
    fn check(&self, c: &Notated, x: &mut Exec) -> R<Verdict> {
        let (mut plain, mut other) = (Vec::new(), Vec::new());
        let (option, label): (Option<&str>, &'static str) = match c {
            Notated::Report(_) => (None, "report"),
            Notated::Enumerate(_) => (Some("-e"), "enumerate"),
            Notated::Minimize(_) => (Some("-m"), "minimize"),
            Notated::Split(..) => (Some("-s"), "split"),
            Notated::Resize(..) => (Some("-r"), "resize"),
        };
        if let Some(o) = option {
            plain.push(o.to_string());
            other.push(o.to_string());
        }
        let mut lopsided = false;
        let mut v6 = false;
        match c {
            Notated::Report(v) | Notated::Enumerate(v) | Notated::Minimize(v) => {
                for i in v {
                    plain.push(i.plain(if option.is_none() { i.addr() } else { i.net.base }));
                    other.push(i.text());
                    lopsided |= i.net.prefix().is_none();
                    v6 |= i.net.fam == Fam::V6;
                }
            }
            Notated::Split(i, counts) => {
                plain.push(i.plain(i.net.base));
                other.push(i.text());
                for c in counts {
                    plain.push(c.to_string());
                    other.push(c.to_string());
                }
                v6 = i.net.fam == Fam::V6;
            }
            Notated::Resize(a, b) => {
                plain.push(a.plain(a.net.base));
                other.push(a.text());
                plain.push(match b.net.prefix() {
                    Some(p) => p.to_string(),
                    None => fmt_addr(b.net.fam, b.net.mask),
                });
                other.push(b.subnet(b.notation, b.spelling));
                lopsided = a.net.prefix().is_none() || b.net.prefix().is_none();
                v6 = a.net.fam == Fam::V6;
            }
        }
        let a = x.run(&plain)?;
        let b = x.run(&other)?;
        if !matches!(c, Notated::Split(..)) && a.status != Status::Code(0) {
            return violation(format!("plain notation: {}", a.describe()));
        }
        if a.status != b.status || a.out != b.out {
            return violation(format!("{:?} gave {}, but {:?} gave {}", plain, a.describe(), other, b.describe()));
        }
        if a.out.is_empty() {
            return violation(format!("no output: {}", a.describe()));
        }
        Ok(Verdict::new(plain != other).label(true, label).label(lopsided, "lopsided").label(v6, "ipv6"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Site {
    DerangeFirst,
    DerangeSecond,
    Report,
    Minimize,
    MinimizeLast,
    Enumerate,
    ResizeOriginal,
    Split,
    Target4,
    Target6,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Read13 {
    pub site: Site,
    pub text: String,
}
pub struct C13;
const ALPHABET: &str = "00112345678999aAbBcCdDeEfFgGxX::::....//--+ %_,[]@zZ\u{663}\u{ff11}é\t\n";
impl C13 {
    fn mutate(g: &mut Gen, s: String) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let alphabet: Vec<char> = ALPHABET.chars().collect();
        for _ in 0..1 + g.weighted(&[6, 2, 1]) {
            let at = g.below(v.len() as u64 + 1) as usize;
            match g.below(6) {
                0 => v.insert(at, *g.pick(&alphabet)),
                1 if at < v.len() => {
                    v.remove(at);
                }
                2 if at < v.len() => v[at] = *g.pick(&alphabet),
                3 if at < v.len() => v.insert(at, v[at]),
                4 if at + 1 < v.len() => v.swap(at, at + 1),
                5 => {
                    // another separator or digit of the same text
                    if !v.is_empty() {
                        let c = *g.pick(&v);
                        v.insert(at.min(v.len()), c);
                    }
                }
                _ => {}
            }
        }
        v.into_iter().collect()
    }
    /// What people and other programs put around addresses, networks and numbers.
    const BEFORE: [&'static str; 40] = [
        "[", "(", "<", "{", "\"", "'", "`", " ", "\t", "\n", "+", "-", "~", "!", "=", "0x", "0", "0b", "0o", "00", "#", "@", "ip:", "inet ", "ipv4:", "ipv6:", "http://", "//", "/", "user@", "::ffff:", "::", "1.", "\u{feff}", "\u{200b}", "\u{a0}", "\u{200e}", "*", "\\", "addr=",
    ];
    const AFTER: [&'static str; 70] = [
        ":80", ":0", ":65535", ":65536", ":", "::", ".", "..", "%", "%lo", "%eth0", "%1", "%0", " ", "\t", "\n", "\r", "\r\n", ",", ";", "/", "/24", "/0", "/255.255.255.0", "/64", " /24", "#80", "#", "#x", "-", "+", "_", "*", "?", "!", "a", "h", "x", "u", "-1", "-1.2.3.9", "-1::9", ",1.2.3.9", " 1.2.3.9", ".in-addr.arpa", ".ip6.arpa", ".ipv6-literal.net", "@x", "$", "\u{a0}", "\u{200b}", "\u{feff}", "\u{300}", "\\", "]", "]:80", ")", ">", "}", "\"", "'", "`", ".0", "e0", "e1", "k", "u32", "_u8", ";80", "=",
    ];
    const AROUND: [(&'static str, &'static str); 12] = [("[", "]"), ("(", ")"), ("<", ">"), ("{", "}"), ("\"", "\""), ("'", "'"), ("`", "`"), ("[", "]:80"), (" ", " "), ("http://", "/"), ("http://[", "]/"), ("\u{201c}", "\u{201d}")];
    /// The same with other characters for some of its own, or with parts missing.
    fn other_signs(s: &str) -> Vec<String> {
        let digits = |zero: u32, limit: u32| -> String {
            s.chars().map(|c| c.to_digit(10).filter(|d| *d < limit).and_then(|d| char::from_u32(zero + d)).unwrap_or(c)).collect()
        };
        let one_digit = |zero: u32| -> String {
            let mut done = false;
            s.chars()
                .map(|c| match c.to_digit(10) {
                    Some(d) if !done => {
                        done = true;
                        char::from_u32(zero + d).unwrap()
                    }
                    _ => c,
                })
                .collect()
        };
        let mut out = vec![digits(0xff10, 10), digits(0x660, 10), digits(0x966, 10), digits(0x1d7ce, 10), one_digit(0xff10), one_digit(0x6f0), digits(0x2080, 10), digits(0x2070, 1)];
        for (from, to) in [
            (".", ","), (".", "-"), (".", " "), (".", ":"), (".", ".."), (".", "\u{3002}"), (".", "\u{ff0e}"), (".", "\u{b7}"), (".", "_"), (".", ""), (".", ". "), (".", " ."), (".", ".+"), (".", ".0x"), (".", ";"), (".", "[.]"), (".", "\\."),
            (":", "."), (":", "-"), (":", ";"), (":", "\u{ff1a}"), (":", "\u{a789}"), (":", " "), (":", ""), (":", ": "), (":", ":+"), (":", ":0x"), (":", "_"), (":", "\\:"), ("::", ":"), ("::", ":::"), ("::", ":0:"), ("::", "::::"), ("::", ":*:"), ("::", "...."), ("::", ":-:"),
            ("/", "//"), ("/", "\\"), ("/", ":"), ("/", "\u{2044}"), ("/", "\u{2215}"), ("/", "\u{ff0f}"), ("/", " "), ("/", "%"), ("/", "|"), ("/", "/ "), ("/", " /"), ("/", "/+"), ("/", "/--"), ("/", "/-+"), ("/", "/~"), ("/", "/!"), ("/", "/="), ("/", "/0x"), ("/", "/ -"), ("/", "/\u{2212}"), ("/", "/\u{2013}"), ("/", "/- "), ("/", ""), ("/", "mask"), ("/", " netmask "), ("/", "/24/"), ("/", "/."), ("/", "/:"), ("/", "/["), ("/", "/255.255.255.0/"), ("/", ",/"), ("/", "-"), ("/", ":/"), ("/", "./"), ("/", "%lo/"), ("/", ":80/"), ("/", "]/"),
            ("0", "O"), ("0", "o"), ("1", "l"), ("1", "I"), ("a", "\u{430}"), ("e", "\u{435}"), ("c", "\u{441}"), ("f", "g"), ("b", "B "), ("0", ""), ("1", "\u{b9}"), ("2", "\u{b2}"), ("3", "\u{b3}"), ("1", "\u{2160}"),
        ] {
            if s.contains(from) {
                out.push(s.replace(from, to));
                out.push(s.replacen(from, to, 1));
                if let Some((a, b)) = s.rsplit_once(from) {
                    out.push(format!("{}{}{}", a, to, b));
                }
            }
        }
        let (a, m) = s.split_once('/').map_or((s, ""), |(a, m)| (a, &s[s.len() - m.len() - 1..]));
        let parts: Vec<u32> = a.split('.').filter_map(|p| p.parse().ok()).collect();
        if parts.len() == 4 && parts.iter().all(|p| *p < 256) {
            let n = parts.iter().fold(0u32, |n, p| n << 8 | p);
            // the spellings of inet_aton, and others
            out.push(format!("{}{}", n, m));
            out.push(format!("{:#x}{}", n, m));
            out.push(format!("{:x}{}", n, m));
            out.push(format!("{:08X}{}", n, m));
            out.push(format!("{:#o}{}", n, m));
            out.push(format!("{:032b}{}", n, m));
            out.push(format!("{}.{}{}", parts[0], n & 0xff_ffff, m));
            out.push(format!("{}.{}.{}{}", parts[0], parts[1], n & 0xffff, m));
            for k in 1..4 {
                out.push(format!("{}{}", parts[..k].iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."), m));
                out.push(format!("{}.{}", parts[..k].iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."), m));
                out.push(format!("{}{}{}", parts[..k].iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."), ".*".repeat(4 - k), m));
                out.push(format!("{}{}{}", parts[..k].iter().map(|p| p.to_string()).collect::<Vec<_>>().join("."), ".x".repeat(4 - k), m));
            }
            let each = |f: &dyn Fn(u32) -> String| parts.iter().map(|p| f(*p)).collect::<Vec<_>>().join(".") + m;
            out.push(each(&|p| format!("{:#x}", p)));
            out.push(each(&|p| format!("{:02x}", p)));
            out.push(each(&|p| format!("0{:o}", p)));
            out.push(each(&|p| format!("0o{:o}", p)));
            out.push(each(&|p| format!("{:08b}", p)));
            out.push(each(&|p| format!("{:03}", p)));
            out.push(each(&|p| format!("{:010}", p)));
            out.push(each(&|p| format!("{}.0", p)));
            out.push(each(&|p| (p + 256).to_string()));
            out.push(each(&|p| format!("-{}", p)));
            out.push(each(&|p| format!("{}", p as i64 - 256)));
        }
        if let Ok(v6) = a.parse::<std::net::Ipv6Addr>() {
            let n = u128::from(v6);
            out.push(format!("{}{}", n, m));
            out.push(format!("{:#x}{}", n, m));
            out.push(format!("{:032x}{}", n, m));
            let o = v6.octets();
            out.push(format!("{}{}", o.map(|b| format!("{:02x}", b)).join(":"), m));
            out.push(format!("{}{}", o.map(|b| b.to_string()).join("."), m));
            out.push(format!("{}{}", v6.segments().map(|b| b.to_string()).join("."), m));
            out.push(format!("{}{}", v6.segments().map(|b| format!("{:#x}", b)).join(":"), m));
            out.push(format!("{}{}", v6.segments().map(|b| format!("{:08x}", b)).join(":"), m));
            out.push(format!("{}:{}.{}.{}.{}{}", v6.segments()[..6].iter().map(|b| format!("{:x}", b)).collect::<Vec<_>>().join(":"), o[12], o[13], o[14], o[15], m));
            out.push(format!("::{}.{}.{}.{}{}", o[12], o[13], o[14], o[15], m));
            out.push(format!("{}.{}.{}.{}::{}", o[0], o[1], o[2], o[3], m));
        }
        out
    }
    /// All of these.
    fn decorations(s: &str) -> Vec<String> {
        let mut out: Vec<String> = C13::BEFORE.iter().map(|b| format!("{}{}", b, s)).collect();
        out.extend(C13::AFTER.iter().map(|a| format!("{}{}", s, a)));
        out.extend(C13::AROUND.iter().map(|(b, a)| format!("{}{}{}", b, s, a)));
        if let Some((a, m)) = s.split_once('/') {
            out.extend(C13::BEFORE.iter().map(|b| format!("{}/{}{}", a, b, m)));
            out.extend(C13::AFTER.iter().map(|b| format!("{}{}/{}", a, b, m)));
            out.extend(C13::AROUND.iter().flat_map(|(b, c)| [format!("{}{}{}/{}", b, a, c, m), format!("{}/{}{}{}", a, b, m, c)]));
        }
        out.extend(C13::other_signs(s));
        out.retain(|t| t != s);
        out
    }
    fn decorate(g: &mut Gen, s: &str) -> String {
        match g.weighted(&[2, 4, 1, 3]) {
            0 => format!("{}{}", g.pick(&C13::BEFORE), s),
            1 => format!("{}{}", s, g.pick(&C13::AFTER)),
            2 => {
                let (b, a) = *g.pick(&C13::AROUND);
                format!("{}{}{}", b, s, a)
            }
            _ => {
                let all = C13::other_signs(s);
                g.pick(&all).clone()
            }
        }
    }
    fn v4_like(g: &mut Gen) -> String {
        let n = *g.pick(&[4, 4, 4, 4, 3, 5, 2, 1]);
        let part = |g: &mut Gen| -> String {
            match g.weighted(&[6, 2, 2, 1, 1]) {
                0 => g.below(256).to_string(),
                1 => g.pick(&["256", "255", "0", "257", "300", "999", "512", "65536", "1000"]).to_string(),
                2 => format!("{:03}", g.below(256)),
                3 => g.pick(&["", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "00000000000000000000001", "-1", "+1", "0x1", "1e1", " 1", "1 "]).to_string(),
                _ => g.pick(&["00", "01", "000", "010", "08"]).to_string(),
            }
        };
        (0..n).map(|_| part(g)).collect::<Vec<_>>().join(".")
    }
    fn v6_like(g: &mut Gen) -> String {
        let n = g.range(0, 9);
        let group = |g: &mut Gen| -> String {
            match g.weighted(&[5, 3, 2, 1]) {
                0 => format!("{:x}", g.below(0x10000)),
                1 => g.pick(&["0", "0", "ffff", "1", "FFFF", "0000", "8000"]).to_string(),
                2 => format!("{:04x}", g.below(0x1000)),
                _ => g.pick(&["", "10000", "00001", "12345", "fffff", "100000000", "10000000000000000", "10000000000000001", "g", "-1", "+1", "0x1", "1.2.3.4", "000000000000000000001"]).to_string(),
            }
        };
        let groups: Vec<String> = (0..n).map(|_| group(g)).collect();
        match g.weighted(&[2, 5, 1, 1]) {
            0 => groups.join(":"),
            1 => {
                let at = g.below(n + 1) as usize;
                format!("{}::{}", groups[..at].join(":"), groups[at..].join(":"))
            }
            2 => {
                let at = g.below(n + 1) as usize;
                format!("{}:::{}", groups[..at].join(":"), groups[at..].join(":"))
            }
            _ => {
                let at = g.below(n + 1) as usize;
                let bt = g.range(at as u64, n) as usize;
                format!("{}::{}::{}", groups[..at].join(":"), groups[at..bt].join(":"), groups[bt..].join(":"))
            }
        }
    }
    fn address(g: &mut Gen, good: u64) -> String {
        let f = g.fam();
        if g.below(10) < good {
            let v = g.value(f);
            return g.spelling(f, v);
        }
        match g.weighted(&[4, 3, 3, 1, 2]) {
            0 => {
                let v = g.value(f);
                let s = g.spelling(f, v);
                C13::mutate(g, s)
            }
            4 => {
                let v = g.value(f);
                let s = g.spelling(f, v);
                C13::decorate(g, &s)
            }
            1 => C13::v4_like(g),
            2 => C13::v6_like(g),
            _ => g.pick(&["", ":", ".", "...", "::", ":::", "localhost", "1", "0", "a", "1.2.3.4:80", "[::1]", "::1%lo", "::ffff:1.2.3.4", "1.2.3.4::", "0x7f.1", "::/0", "١.١.١.١"]).to_string(),
        }
    }
    fn prefix_like(g: &mut Gen, f: Fam) -> String {
        let n = f.bits() as u64;
        match g.weighted(&[6, 2, 2, 2, 1]) {
            0 => g.below(n + 1).to_string(),
            1 => g.pick(&["33", "129", "255", "256", "257", "1000", "4294967296", "4294967320", "18446744073709551616", "18446744073709551640", "99999999999999999999999"]).to_string(),
            2 => format!("-{}", g.below(n + 4)),
            3 => g.pick(&["", "-", "--8", "+8", "-+8", "+-8", "08", "008", "-08", "0", "-0", " 8", "8 ", "8.", ".8", "8:", "1e1", "0x8", "a", "ff", "-32", "-33", "-128", "-129", "/8", "8/8", "８"]).to_string(),
            _ => {
                let s = g.below(n + 1).to_string();
                if g.chance(1, 2) {
                    C13::decorate(g, &s)
                } else {
                    C13::mutate(g, s)
                }
            }
        }
    }
    fn mask_like(g: &mut Gen, f: Fam) -> String {
        let m = g.mask(f);
        let sign = if g.chance(1, 3) { "-" } else { "" };
        let s = format!("{}{}", sign, g.spelling(f, m));
        match g.weighted(&[12, 3, 2, 1]) {
            0 => s,
            1 => C13::mutate(g, s),
            3 => C13::decorate(g, &s),
            _ => {
                let a = C13::address(g, 3);
                format!("{}{}", sign, a)
            }
        }
    }
    fn netspec(g: &mut Gen) -> String {
        let good = *g.pick(&[9, 9, 5, 3]);
        let a = C13::address(g, good);
        let f = if a.contains(':') { Fam::V6 } else { Fam::V4 };
        let f = if g.chance(1, 16) { f.other() } else { f };
        let m = if g.chance(1, 2) { C13::prefix_like(g, f) } else { C13::mask_like(g, f) };
        let s = format!("{}/{}", a, m);
        match g.weighted(&[12, 2, 1, 1]) {
            0 => s,
            1 => C13::mutate(g, s),
            3 => C13::decorate(g, &s),
            _ => a,
        }
    }
    pub fn any_address(g: &mut Gen) -> String {
        C13::address(g, 4)
    }
    pub fn any_netspec(g: &mut Gen) -> String {
        C13::netspec(g)
    }
    pub fn mutated(g: &mut Gen, s: String) -> String {
        C13::mutate(g, s)
    }
    /// An address the text is compared with: the one it denotes, or one of the family it resembles.
    fn partner(text: &str) -> String {
        match read_addr(text).value() {
            Some((f, v)) => fmt_addr(f, v),
            None if text.contains(':') => "2001:db8::1".into(),
            None => "192.0.2.1".into(),
        }
    }
    const ONE4: u128 = 0xC5A3_96E7;
    const ONE6: u128 = 0xC5A3_96E7_5A3C_F00F_A5C3_0FF0_9669_E71B;
}
impl Property for C13 {
    type Case = Read13;
    const ID: &'static str = "C13";
    const RULE: &'static str = "address texts (standard spellings of all kinds; texts with a wrong number of parts, parts out of range, wrapped around 2^16, 2^32 or 2^64, foreign characters, signs, non-ASCII digits, misplaced or doubled '::'; one to three random edits of valid spellings; what other programs put around addresses: ports, zones, brackets, quotes, units, foreign separators and digits, the spellings of inet_aton) as an address for derange, and as address, prefix, mask or wildcard of a network in every mode and of a resize target; an independent recogniser says whether the text must be accepted (and as what), may be accepted (leading zeros and the like), or must be refused. Systematic: '::' at every position with every number of groups, every number of dotted parts, every part value 0-300, every prefix 0-300 and host-bit count, every such decoration of some addresses, networks and targets. Non-trivial: the text is refused, or is a valid spelling other than the canonical one.";
    const ASSUMPTIONS: &'static [&'static str] = &["Unusual spellings that standard parsers disagree about (leading zeros in decimal, more than four hexadecimal digits with leading zeros, embedded dotted-decimal, a plus sign before a prefix) may be refused or accepted, but only with their evident value."];
    const QUICK: u64 = 1_300_000;
    fn gen(&self, g: &mut Gen) -> Read13 {
        match g.weighted(&[4, 7, 2]) {
            0 => {
                let good = *g.pick(&[6, 2]);
                Read13 { site: *g.pick(&[Site::DerangeFirst, Site::DerangeSecond]), text: C13::address(g, good) }
            }
            1 => Read13 { site: *g.pick(&[Site::Report, Site::Report, Site::Minimize, Site::MinimizeLast, Site::Enumerate, Site::ResizeOriginal, Site::Split]), text: C13::netspec(g) },
            _ => {
                let f = g.fam();
                let ff = if g.chance(1, 12) { f.other() } else { f };
                let text = if g.chance(1, 2) { C13::prefix_like(g, ff) } else { C13::mask_like(g, ff) };
                Read13 { site: if f == Fam::V4 { Site::Target4 } else { Site::Target6 }, text }
            }
        }
    }
    fn shrink(&self, c: &Read13) -> Vec<Read13> {
        simpler_text(&c.text).into_iter().map(|text| Read13 { site: c.site, text }).collect()
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Read13>> {
        let mut addrs: Vec<String> = Vec::new();
        for n in 0..=10usize {
            for fill in ["1", "0", "ffff", "AbC"] {
                let groups = vec![fill; n];
                addrs.push(groups.join(":"));
                addrs.push(groups.join("."));
                for at in 0..=n {
                    for sep in ["::", ":::", ":"] {
                        addrs.push(format!("{}{}{}", groups[..at].join(":"), sep, groups[at..].join(":")));
                    }
                    addrs.push(format!("{}..{}", groups[..at].join("."), groups[at..].join(".")));
                    for bt in at..=n {
                        addrs.push(format!("{}::{}::{}", groups[..at].join(":"), groups[at..bt].join(":"), groups[bt..].join(":")));
                    }
                }
            }
        }
        for v in 0..=300 {
            for pos in 0..4 {
                let mut p = ["10".to_string(), "20".into(), "30".into(), "40".into()];
                p[pos] = v.to_string();
                addrs.push(p.join("."));
            }
        }
        for d in 0..16u32 {
            for len in 1..=6 {
                let lower = format!("{:x}", d).repeat(len);
                addrs.push(format!("{}::", lower));
                addrs.push(format!("::{}", lower.to_uppercase()));
                addrs.push(format!("1:2:3:4:5:6:7:{}", lower));
            }
        }
        let mut out: Vec<Read13> = Vec::new();
        for a in &addrs {
            for site in [Site::DerangeFirst, Site::DerangeSecond] {
                out.push(Read13 { site, text: a.clone() });
            }
            let max = if a.contains(':') { 128 } else { 32 };
            out.push(Read13 { site: Site::Report, text: format!("{}/{}", a, max - 4) });
            out.push(Read13 { site: Site::Minimize, text: format!("{}/{}", if a.contains(':') { "1::" } else { "10.0.0.0" }, a) });
            out.push(Read13 { site: Site::Report, text: format!("{}/-{}", if a.contains(':') { "1::" } else { "10.0.0.0" }, a) });
            out.push(Read13 { site: if a.contains(':') { Site::Target6 } else { Site::Target4 }, text: a.clone() });
            out.push(Read13 { site: if a.contains(':') { Site::Target4 } else { Site::Target6 }, text: a.clone() });
            out.push(Read13 { site: if a.contains(':') { Site::Target6 } else { Site::Target4 }, text: format!("-{}", a) });
        }
        for p in 0..=300 {
            for a in ["10.20.30.40", "1:2::3"] {
                for s in [p.to_string(), format!("-{}", p), format!("0{}", p)] {
                    for site in [Site::Report, Site::Minimize, Site::ResizeOriginal, Site::Split] {
                        out.push(Read13 { site, text: format!("{}/{}", a, s) });
                    }
                    out.push(Read13 { site: Site::Target4, text: s.clone() });
                    out.push(Read13 { site: Site::Target6, text: s });
                }
            }
        }
        for a in ["192.0.2.33", "10.0.0.0", "1:2::a3", "2001:DB8:0:0:ef:c0de:b0a:10", "::", "0.0.0.0"] {
            for t in C13::decorations(a) {
                for site in [Site::DerangeFirst, Site::DerangeSecond, Site::Target4, Site::Target6] {
                    out.push(Read13 { site, text: t.clone() });
                }
            }
        }
        for a in ["192.0.2.33/30", "10.0.0.0/255.255.255.252", "192.0.2.33/-3.0.0.0", "1:2::a3/126", "2001:DB8:0:0:ef:c0de:b0a:10/ffff:ffff:ffff:ffff:ffff:ffff:ffff:FFFC", "1:2::a3/-::3", "10.0.0.0/-2"] {
            for t in C13::decorations(a) {
                for site in [Site::Report, Site::Minimize, Site::Enumerate, Site::ResizeOriginal, Site::Split] {
                    out.push(Read13 { site, text: t.clone() });
                }
            }
        }
        for a in ["30", "8", "-8", "128", "255.255.255.0", "-0.0.0.255", "ffff:ffff::", "-::ffff"] {
            for t in C13::decorations(a) {
                for site in [Site::Target4, Site::Target6] {
                    out.push(Read13 { site, text: t.clone() });
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Read13, x: &mut Exec) -> R<Verdict> {
        let t = c.text.as_str();
        // what it is, for the given place; the network it makes (if any) and the expected lines
        enum Want {
            Exact(String),
            Report(Addr, Net),
            Original(Net),
            Resized(Net, Net),
        }
        let mut canonical = String::new();
        let spec = |v: (Addr, Net)| Spec { addr: v.0, mask: Addr::new(v.1.fam, v.1.mask) };
        let (argv, want): (Vec<String>, Read<Want>) = match c.site {
            Site::DerangeFirst | Site::DerangeSecond => {
                let p = C13::partner(t);
                canonical = p.clone();
                let argv = if c.site == Site::DerangeFirst { args(["-d", t, &p]) } else { args(["-d", &p, t]) };
                (argv, read_addr(t).map(|(f, v)| Want::Exact(format!("{}/{}\n", fmt_addr(f, v), f.bits()))))
            }
            Site::Target4 | Site::Target6 => {
                let (f, v) = if c.site == Site::Target4 { (Fam::V4, C13::ONE4) } else { (Fam::V6, C13::ONE6) };
                let net = Net::cidr(f, v, f.bits());
                let read = read_target(f, t);
                if let Some(m) = read.value() {
                    canonical = Net::new(f, 0, m).prefix().map_or(fmt_addr(f, m), |p| p.to_string());
                }
                (args(["-r", &net.shown(), t]), read.map(|m| Want::Resized(net, resized(&net, m)[0])))
            }
            _ => {
                let read = read_netspec(t);
                if let Some(v) = read.value() {
                    canonical = spec(v).text();
                }
                match c.site {
                    Site::Report => {
                        if t.starts_with('-') {
                            // an option, perhaps
                            return Ok(Verdict::new(false));
                        }
                        (args([t]), read.map(|(a, n)| Want::Report(a, n)))
                    }
                    Site::Minimize => (args(["-m", t]), read.map(|(_, n)| Want::Exact(n.shown() + "\n"))),
                    Site::MinimizeLast => {
                        // after the whole address space of its family
                        let f = match read.value() {
                            Some(v) => v.1.fam,
                            None if t.contains(':') => Fam::V6,
                            None => Fam::V4,
                        };
                        let all = Net::cidr(f, 0, 0).shown();
                        (args(["-m", &all, t]), read.map(|_| Want::Exact(all.clone() + "\n")))
                    }
                    Site::Enumerate => {
                        if read.value().is_some_and(|v| v.1.host_bits() > 8) {
                            return Ok(Verdict::new(false));
                        }
                        (args(["-e", t]), read.map(|(_, n)| Want::Exact((0..=n.last_index()).map(|i| fmt_addr(n.fam, n.member(i)) + "\n").collect())))
                    }
                    Site::ResizeOriginal => {
                        // to the network's own mask
                        let target = match read.value() {
                            Some(v) => fmt_addr(v.1.fam, v.1.mask),
                            None => "24".into(),
                        };
                        (args(["-r", t, &target]), read.map(|(_, n)| Want::Resized(n, n)))
                    }
                    _ => {
                        if read.value().is_some_and(|v| v.1.prefix().is_none() || v.1.host_bits() == 0) {
                            return Ok(Verdict::new(false));
                        }
                        (args(["-s", t, "0"]), read.map(|(_, n)| Want::Original(n)))
                    }
                }
            }
        };
        // a text that is no address of either family must not be taken for one of the other, either
        if matches!(want, Read::Reject) {
            let (p, other) = if C13::partner(t).contains(':') { ("2001:db8::1", "192.0.2.1") } else { ("192.0.2.1", "2001:db8::1") };
            let twin: Option<Vec<String>> = match c.site {
                Site::DerangeFirst | Site::DerangeSecond => Some(argv.iter().map(|a| if a == p && a != t { other.to_string() } else { a.clone() }).collect()),
                Site::MinimizeLast => Some(args(["-m", if argv[1].contains(':') { "0.0.0.0/0" } else { "::/0" }, t])),
                _ => None,
            };
            if let Some(twin) = twin {
                x.run(&twin)?.refused()?;
            }
        }
        let out = x.run(&argv)?;
        let verdict = |kind: &'static str, nt: bool| {
            Verdict::new(nt).label(true, kind).label(
                true,
                match c.site {
                    Site::DerangeFirst | Site::DerangeSecond => "address",
                    Site::Target4 | Site::Target6 => "resize target",
                    _ => "network",
                },
            )
        };
        let v = match want {
            Read::Reject => {
                out.refused()?;
                return Ok(verdict("refused", true));
            }
            Read::May(_) if out.status == Status::Code(1) => {
                out.refused()?;
                return Ok(verdict("unusual, refused", true));
            }
            Read::Must(ref w) | Read::May(ref w) => w,
        };
        if out.status != Status::Code(0) {
            return violation(format!("{:?} was not accepted: {}", t, out.describe()));
        }
        match v {
            Want::Exact(w) => {
                if out.text()? != w {
                    return violation(format!("{:?} was read as something else: expected {:?}, got {}", t, clip(w), out.describe()));
                }
            }
            Want::Report(a, n) => check_rows(&out.lines()?, n, Some(a.v))?,
            Want::Original(n) => check_rows(&parse_split(out.text()?)?.original, n, None)?,
            Want::Resized(n, w) => {
                let lines = out.lines()?;
                let (original, results) = parse_resize(&lines)?;
                check_rows(&original, n, None)?;
                if results.len() != 1 {
                    return violation(format!("{:?}: {} results instead of one", t, results.len()));
                }
                check_rows(&results[0].rows, w, None)?;
            }
        }
        Ok(verdict(if matches!(want, Read::May(_)) { "unusual, accepted" } else { "accepted" }, t != canonical))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rule {
    /// Short and long option do the same.
    SameOption,
    /// An option that is not the first argument is no option.
    LateOption,
    /// Something that merely resembles an option is none.
    NoOption,
    /// A number of arguments that the mode does not take.
    Arity,
    /// IPv4 and IPv6 together.
    Mixed,
    /// A resize prefix beyond the family's maximum.
    Range,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case22 {
    pub rule: Rule,
    pub argv: Vec<String>,
}
pub struct C22;
const OPTIONS: [(&str, &str); 5] = [("-m", "--minimize"), ("-d", "--derange"), ("-s", "--split"), ("-r", "--resize"), ("-e", "--enumerate")];
impl C22 {
    fn arguments(g: &mut Gen, option: &str, n: usize) -> Vec<String> {
        let f = g.fam();
        let mut out = Vec::new();
        for i in 0..n {
            let t = match option {
                "-d" => g.addr(f).text(),
                "-s" if i > 0 => g.small(200).to_string(),
                "-r" if i == 1 => {
                    let p = g.prefix(f);
                    if g.chance(1, 2) {
                        p.to_string()
                    } else {
                        fmt_addr(f, f.prefix_mask(p))
                    }
                }
                "-r" => {
                    // few results
                    let net = Net::cidr(f, g.value(f), f.bits() - g.below(6) as u32);
                    g.any_notation(&net)
                }
                "-e" => {
                    let hb = g.small(5) as u32;
                    let m = g.mask_with_host_bits(f, hb);
                    let net = Net::new(f, g.value(f), m);
                    g.any_notation(&net)
                }
                "-s" => {
                    let net = g.cidr_net(f);
                    g.any_notation(&net)
                }
                _ => {
                    let net = g.net(f);
                    g.any_notation(&net)
                }
            };
            out.push(t);
        }
        out
    }
    /// Something like an option.
    fn near_miss(g: &mut Gen, option: &str, long: &str) -> String {
        match g.below(14) {
            0 => option.to_uppercase(),
            1 => format!("{}x", option),
            2 => long[..g.range(2, long.len() as u64 - 1) as usize].to_string(),
            3 => format!("{}s", long),
            4 => format!("-{}", option),
            5 => long[1..].to_string(),
            6 => g
                .pick(&["-h", "-?", "--version", "--", "-", "-x", "--colour-test", "/?", "help", "-color-test", "--Help", "-V", "--minimise", "-q", "--json", "-4", "-6", "-n", "@file", "-c", "--no-color", "--colors"])
                .to_string(),
            7 => format!("{}=", long),
            8 => long.to_uppercase(),
            9 => {
                // some letters in capitals
                let any = *g.pick(&[option, long, "--help", "--color-test"]);
                any.chars().map(|c| if g.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
            }
            10 => {
                // another character somewhere
                let any = *g.pick(&[option, long, "--help", "--color-test"]);
                let mut v: Vec<char> = any.chars().collect();
                let at = g.below(v.len() as u64 + 1) as usize;
                let c = *g.pick(&['-', '_', ' ', '\t', '\u{2013}', '\u{2212}', '\u{a0}', '\'', '"', '1', 'e', '\u{301}', '\n']);
                if g.chance(1, 2) || at == v.len() {
                    v.insert(at, c);
                } else {
                    v[at] = c;
                }
                v.into_iter().collect()
            }
            11 => format!("{}{}", option, g.pick(&["10.0.0.0/8", "1::/16", "e", "m", "24", "="])),
            12 => format!("--no{}", &long[1..]),
            _ => format!("/{}", long.trim_start_matches('-')),
        }
    }
    /// A permitted number of arguments.
    fn count(g: &mut Gen, option: &str) -> usize {
        match option {
            "-d" | "-r" => 2,
            "-s" => 2 + g.small(4) as usize,
            _ => 1 + g.small(6) as usize,
        }
    }
    fn usage(x: &mut Exec) -> R<Vec<u8>> {
        let out = x.run(&["--help"])?.ok()?;
        let mut text = out.out;
        text.extend(out.err);
        if !String::from_utf8_lossy(&text).contains("ripcalc") {
            return violation(format!("--help does not print a usage text: {:?}", String::from_utf8_lossy(&text)));
        }
        Ok(text)
    }
    fn small(argv: &[String]) -> bool {
        super::robust::bounded(&argv.iter().map(|a| super::robust::Arg(a.clone().into_bytes())).collect::<Vec<_>>())
    }
    fn valid(c: &Case22) -> bool {
        let a = &c.argv;
        let known = |s: &str| OPTIONS.iter().any(|(x, y)| *x == s || *y == s);
        let any = |s: &str| known(s) || s == "--help" || s == "--color-test";
        if !C22::small(a) {
            return false;
        }
        match c.rule {
            Rule::SameOption => a.first().is_some_and(|o| OPTIONS.iter().any(|(s, _)| s == o)),
            Rule::LateOption => a.iter().skip(1).any(|o| any(o)) && !a.first().is_some_and(|o| o == "--help" || o == "--color-test"),
            Rule::NoOption => a.first().is_some_and(|o| !any(o) && read_netspec(o) == Read::Reject),
            Rule::Arity => match a.first().map(String::as_str) {
                None => true,
                Some("-m" | "-e" | "--minimize" | "--enumerate") => a.len() == 1,
                Some("-s" | "--split") => a.len() < 3,
                Some("-d" | "-r" | "--derange" | "--resize") => a.len() != 3,
                Some("--help") => true,
                Some("--color-test") => a.len() > 1,
                _ => false,
            },
            Rule::Mixed => {
                let fams = |r: &[String]| {
                    let v: Vec<Option<Fam>> = r.iter().map(|s| read_netspec(s).value().map(|v| v.1.fam).or(read_addr(s).value().map(|v| v.0))).collect();
                    v.contains(&Some(Fam::V4)) && v.contains(&Some(Fam::V6)) && !v.contains(&None)
                };
                match a.first().map(String::as_str) {
                    Some("-m") => a[1..].iter().all(|s| read_netspec(s).value().is_some()) && fams(&a[1..]),
                    Some("-d") => a.len() == 3 && a[1..].iter().all(|s| read_addr(s).value().is_some()) && fams(&a[1..]),
                    Some("-r") => {
                        a.len() == 3
                            && read_netspec(&a[1]).value().is_some()
                            && read_addr(a[2].strip_prefix('-').unwrap_or(&a[2])).value().is_some_and(|t| Some(t.0) != read_netspec(&a[1]).value().map(|v| v.1.fam))
                    }
                    _ => false,
                }
            }
            Rule::Range => {
                a.len() == 3
                    && (a[0] == "-r" || a[0] == "--resize")
                    && read_netspec(&a[1]).is_must()
                    && a[2].bytes().all(|b| b.is_ascii_digit())
                    && !a[2].is_empty()
                    && a[2].parse::<u128>().map_or(true, |p| p > read_netspec(&a[1]).value().unwrap().1.fam.bits() as u128)
            }
        }
    }
}
impl Property for C22 {
    type Case = Case22;
    const ID: &'static str = "C22";
    const RULE: &'static str = "each mode with random, mostly valid arguments, run with the short and with the long option; option words in any later position; near misses of options in first position; every wrong number of arguments (half of them with empty, blank or option-like arguments at the end); --help and --color-test followed by anything; valid lists for minimize, derange and resize with one or more members of the other family in any position; resize prefixes just and far beyond the maximum. Non-trivial: every case but the two-option comparison of a refused command line.";
    const QUICK: u64 = 600_000;
    fn gen(&self, g: &mut Gen) -> Case22 {
        loop {
            let (option, long) = *g.pick(&OPTIONS);
            let rule = *g.pick(&[Rule::SameOption, Rule::SameOption, Rule::LateOption, Rule::NoOption, Rule::Arity, Rule::Mixed, Rule::Mixed, Rule::Range]);
            let mut argv = vec![option.to_string()];
            match rule {
                Rule::SameOption => {
                    let n = if g.chance(4, 5) { C22::count(g, option) } else { g.below(5) as usize };
                    let mut a = C22::arguments(g, option, n);
                    if g.chance(1, 8) && !a.is_empty() {
                        let i = g.below(a.len() as u64) as usize;
                        a[i] = C13::netspec(g);
                    }
                    argv.extend(a);
                }
                Rule::LateOption => {
                    let n = C22::count(g, option);
                    let mut a = C22::arguments(g, option, n);
                    let (s, l) = *g.pick(&OPTIONS);
                    let word = *g.pick(&[s, s, l, l, "--help", "--color-test"]);
                    let i = g.below(a.len() as u64 + 1) as usize;
                    if i < a.len() && (g.chance(1, 2) || option == "-d" || option == "-r") {
                        a[i] = word.into();
                    } else {
                        a.insert(i, word.into());
                    }
                    if option == "-m" && g.chance(1, 2) && !C22::arguments(g, "-m", 1)[0].is_empty() {
                        // the report
                        argv = Vec::new();
                        if a[0] == word {
                            a.swap_remove(0);
                            a.push("1.2.3.4/30".into());
                            a.push(word.into());
                        }
                    }
                    argv.extend(a);
                }
                Rule::NoOption => {
                    let near = C22::near_miss(g, option, long);
                    argv[0] = near;
                    let n = C22::count(g, option);
                    argv.extend(C22::arguments(g, option, n));
                }
                Rule::Arity => {
                    let n = match option {
                        "-m" | "-e" => 0,
                        "-s" => g.below(2) as usize,
                        _ => *g.pick(&[0, 1, 3, 4, 5, 8]),
                    };
                    if g.chance(1, 2) {
                        argv[0] = long.into();
                    }
                    let mut a = C22::arguments(g, option, n);
                    if g.chance(1, 2) {
                        // arguments that might be overlooked
                        for t in a.iter_mut().rev().take(1 + g.below(3) as usize) {
                            if g.chance(2, 3) {
                                *t = g.pick(&["", " ", "-", "--", "0", "-0", "#", "::", "\n", "-h", "--help", "-v", "-m", "x"]).to_string();
                            }
                        }
                    }
                    argv.extend(a);
                    match g.below(60) {
                        0 => argv.clear(),
                        1 => argv = vec!["--help".into()],
                        2..6 => {
                            // whatever follows
                            let word = if g.chance(2, 3) { "--help" } else { "--color-test" };
                            if g.chance(1, 2) {
                                argv.insert(0, word.into());
                            } else {
                                let n = 1 + g.small(6) as usize;
                                argv = C22::arguments(g, option, n);
                                argv.insert(0, word.into());
                            }
                        }
                        _ => {}
                    }
                }
                Rule::Mixed => {
                    let option = *g.pick(&["-m", "-m", "-d", "-r"]);
                    argv[0] = option.into();
                    let f = g.fam();
                    match option {
                        "-d" => {
                            argv.push(g.addr(f).text());
                            argv.push(g.addr(f.other()).text());
                        }
                        "-r" => {
                            let net = g.net(f);
                            argv.push(g.any_notation(&net));
                            let m = g.mask(f.other());
                            let sign = if g.chance(1, 3) { "-" } else { "" };
                            argv.push(format!("{}{}", sign, fmt_addr(f.other(), m)));
                        }
                        _ => {
                            let n = if g.chance(1, 15) { g.range(9, 200) } else { 1 + g.small(8) };
                            for _ in 0..n {
                                let net = g.net(f);
                                argv.push(g.any_notation(&net));
                            }
                            for _ in 0..1 + g.weighted(&[5, 1]) {
                                let net = g.net(f.other());
                                let at = g.range(1, argv.len() as u64) as usize;
                                argv.insert(at, g.any_notation(&net));
                            }
                        }
                    }
                }
                Rule::Range => {
                    let f = g.fam();
                    let net = g.net(f);
                    let p = match g.below(5) {
                        0 => (f.bits() + 1).to_string(),
                        1 => (f.bits() as u64 + g.range(1, 300)).to_string(),
                        2 if f == Fam::V4 => g.range(33, 128).to_string(),
                        3 => g.pick(&["256", "4294967296", "4294967304", "18446744073709551616", "18446744073709551624", "340282366920938463463374607431768211464"]).to_string(),
                        _ => (256 * g.range(1, 300) + g.below(33)).to_string(),
                    };
                    argv = vec![(*g.pick(&["-r", "--resize"])).to_string(), g.any_notation(&net), p];
                }
            }
            let c = Case22 { rule, argv };
            if C22::valid(&c) {
                return c;
            }
        }
    }
    fn shrink(&self, c: &Case22) -> Vec<Case22> {
        let mut out: Vec<Case22> = Vec::new();
        for argv in shorter(&c.argv, 0) {
            out.push(Case22 { rule: c.rule, argv });
        }
        for argv in simpler_elements(&c.argv, |s| if s.starts_with('-') && s.len() < 3 { vec![] } else { simpler_text(s) }) {
            out.push(Case22 { rule: c.rule, argv });
        }
        out.retain(C22::valid);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Case22>> {
        let mut out = vec![Case22 { rule: Rule::Arity, argv: Vec::new() }, Case22 { rule: Rule::Arity, argv: args(["--help"]) }];
        let sample = |o: &str, n: usize| -> Vec<String> {
            (0..n)
                .map(|i| {
                    match (o, i) {
                        ("-d", _) => "10.0.0.1",
                        ("-s", 0) => "10.0.0.0/24",
                        ("-s", _) => "5",
                        ("-r", 1) => "26",
                        _ => "10.0.0.0/30",
                    }
                    .to_string()
                })
                .collect()
        };
        for at in [1, 2, 255, 256, 257, 65_535, 65_536, 65_537, 66_001] {
            // one of the other family among many
            let mut argv = vec!["10.0.0.0/30".to_string(); 66_001];
            argv[0] = "-m".into();
            argv.insert(at, "1::/64".into());
            out.push(Case22 { rule: Rule::Mixed, argv });
        }
        for (s, l) in OPTIONS {
            for n in 0..6 {
                let a = sample(s, n);
                out.push(Case22 { rule: Rule::SameOption, argv: [vec![s.to_string()], a.clone()].concat() });
                for o in [s, l] {
                    out.push(Case22 { rule: Rule::Arity, argv: [vec![o.to_string()], a.clone()].concat() });
                }
                for w in ["--help", "--color-test"] {
                    out.push(Case22 { rule: Rule::Arity, argv: [vec![w.to_string()], a.clone()].concat() });
                    out.push(Case22 { rule: Rule::Arity, argv: [vec![w.to_string(), s.to_string()], a.clone()].concat() });
                }
                for last in ["", " ", "-", "--", "x"] {
                    let mut b = a.clone();
                    b.push(last.to_string());
                    out.push(Case22 { rule: Rule::Arity, argv: [vec![s.to_string()], b].concat() });
                }
                for (s2, l2) in OPTIONS.into_iter().chain([("--help", "--color-test")]) {
                    for w in [s2, l2] {
                        for at in 0..=n {
                            let mut b = a.clone();
                            b.insert(at, w.to_string());
                            out.push(Case22 { rule: Rule::LateOption, argv: [vec![s.to_string()], b.clone()].concat() });
                            out.push(Case22 { rule: Rule::LateOption, argv: [vec!["10.0.0.0/30".to_string()], b].concat() });
                        }
                    }
                }
            }
        }
        for (s, l) in OPTIONS.into_iter().chain([("--help", "--color-test")]) {
            let a = sample(s, if s == "-d" || s == "-r" || s == "-s" { 2 } else { 1 });
            let mut near: Vec<String> = (0..l.len()).map(|n| l[..n].to_string()).collect();
            near.extend((0..s.len()).map(|n| s[..n].to_string()));
            for o in [s, l] {
                near.extend([o.to_uppercase(), format!("{} ", o), format!(" {}", o), format!("{}=", o), format!("-{}", o), o[1..].to_string(), format!("{}{}", o, a[0])]);
                near.extend((0..o.len()).map(|i| format!("{}{}{}", &o[..i], o[i..i + 1].to_uppercase(), &o[i + 1..])));
                near.extend((0..o.len()).map(|i| format!("{}{}", &o[..i], &o[i + 1..])));
            }
            for n in near {
                out.push(Case22 { rule: Rule::NoOption, argv: [vec![n.clone()], a.clone()].concat() });
                out.push(Case22 { rule: Rule::NoOption, argv: vec![n] });
            }
        }
        out.retain(C22::valid);
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Case22, x: &mut Exec) -> R<Verdict> {
        let is_option = |s: &String| OPTIONS.iter().any(|(a, b)| a == s || b == s) || s == "--help" || s == "--color-test";
        match c.rule {
            Rule::SameOption => {
                let mut long = c.argv.clone();
                long[0] = OPTIONS.iter().find(|(s, _)| *s == long[0]).unwrap().1.to_string();
                let a = x.run(&c.argv)?;
                let b = x.run(&long)?;
                if a != b {
                    return violation(format!("{} and {} differ: {} / {}", c.argv[0], long[0], a.describe(), b.describe()));
                }
                let good = a.status == Status::Code(0);
                Ok(Verdict::new(good).label(true, "short and long option").label(good, "short and long option, accepted"))
            }
            Rule::LateOption => {
                let out = x.run(&c.argv)?;
                let wrong_arity = match c.argv[0].as_str() {
                    "-d" | "-r" | "--derange" | "--resize" => c.argv.len() != 3,
                    "-s" | "--split" => c.argv.len() < 3,
                    _ => false,
                };
                if out.status != Status::Code(1) {
                    return violation(format!("an option word among the arguments was not refused: {}", out.describe()));
                }
                if c.argv[0] == "-e" || c.argv[0] == "--enumerate" {
                    // the other networks are still listed
                    let mut rest: Vec<String> = c.argv.iter().enumerate().filter(|(i, s)| *i == 0 || !is_option(s)).map(|(_, s)| s.clone()).collect();
                    rest.truncate(rest.len());
                    let want = if rest.len() > 1 { x.run(&rest)?.out } else { Vec::new() };
                    if out.out != want {
                        return violation(format!("enumerate with an option word among the arguments gave {}", out.describe()));
                    }
                } else if !wrong_arity || !out.out.is_empty() {
                    // usage may be printed anywhere, results may not
                    if wrong_arity {
                        let usage = C22::usage(x)?;
                        if out.out != usage {
                            return violation(format!("wrong number of arguments, but results: {}", out.describe()));
                        }
                    } else {
                        out.refused()?;
                    }
                }
                Ok(Verdict::new(true).label(true, "late option"))
            }
            Rule::NoOption => {
                x.run(&c.argv)?.refused()?;
                Ok(Verdict::new(true).label(true, "near miss of an option"))
            }
            Rule::Arity if c.argv.first().is_some_and(|a| a == "--color-test") => {
                let out = x.run(&c.argv)?;
                let alone = x.run(&["--color-test"])?;
                if out != alone {
                    return violation(format!("--color-test followed by arguments: expected {}, got {}", alone.describe(), out.describe()));
                }
                Ok(Verdict::new(true).label(true, "--color-test followed by arguments"))
            }
            Rule::Arity => {
                let usage = C22::usage(x)?;
                let out = x.run(&c.argv)?;
                let want = if c.argv.first().is_some_and(|a| a == "--help") { 0 } else { 1 };
                if out.status != Status::Code(want) {
                    return violation(format!("{}: {}", if want == 0 { "help wanted" } else { "wrong number of arguments" }, out.describe()));
                }
                let mut text = out.out.clone();
                text.extend(&out.err);
                if text != usage {
                    return violation(format!("wrong number of arguments: expected the usage text, got {}", out.describe()));
                }
                let usage = String::from_utf8_lossy(&usage).into_owned();
                let words: Vec<&str> = usage.split(|c: char| !c.is_ascii_alphabetic() && c != '-').collect();
                if let Some(o) = OPTIONS.iter().flat_map(|(s, l)| [*s, *l]).find(|o| !words.contains(o)) {
                    return violation(format!("the usage text does not mention {}: {:?}", o, usage));
                }
                Ok(Verdict::new(true).label(true, if want == 0 { "help wanted" } else { "wrong number of arguments" }))
            }
            Rule::Mixed => {
                x.run(&c.argv)?.refused()?;
                Ok(Verdict::new(true).label(true, "mixed families"))
            }
            Rule::Range => {
                x.run(&c.argv)?.refused()?;
                Ok(Verdict::new(true).label(true, "prefix out of range"))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spoilt {
    pub argv: Vec<String>,
    /// Which of them cannot be read.
    pub bad: Vec<usize>,
}
pub struct C24;
#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Net,
    Address,
    Count,
    Target(Fam),
}
impl C24 {
    /// What the argument at this index should be.
    fn slot(argv: &[String], i: usize) -> Option<Slot> {
        match argv[0].as_str() {
            "-m" | "--minimize" if i >= 1 => Some(Slot::Net),
            "-d" | "--derange" if i >= 1 && argv.len() == 3 => Some(Slot::Address),
            "-s" | "--split" if i >= 1 && argv.len() >= 3 => Some(if i == 1 { Slot::Net } else { Slot::Count }),
            "-r" | "--resize" if i == 1 && argv.len() == 3 => Some(Slot::Net),
            "-r" | "--resize" if i == 2 && argv.len() == 3 => Some(Slot::Target(read_netspec(&argv[1]).value().map_or(Fam::V4, |v| v.1.fam))),
            "-e" | "--enumerate" | "--help" | "--color-test" => None,
            _ if !argv[0].starts_with('-') => Some(Slot::Net),
            _ => None,
        }
    }
    fn reading(slot: Slot, t: &str) -> Read<()> {
        match slot {
            Slot::Net => read_netspec(t).map(|_| ()),
            Slot::Address => read_addr(t).map(|_| ()),
            Slot::Count => read_count(t),
            Slot::Target(f) => read_target(f, t).map(|_| ()),
        }
    }
    fn valid(c: &Spoilt) -> bool {
        if c.argv.is_empty() || c.bad.is_empty() {
            return false;
        }
        let first = if C24::slot(&c.argv, 0).is_some() { 0 } else { 1 };
        let report = first == 0;
        if report && !c.argv.iter().all(|a| !a.is_empty() || c.argv.len() > 1) {
            return false;
        }
        (first..c.argv.len()).all(|i| {
            let Some(slot) = C24::slot(&c.argv, i) else { return false };
            // what the target of a resize may be depends on the network
            if matches!(slot, Slot::Target(_)) && c.bad.contains(&1) && !c.bad.contains(&i) {
                return true;
            }
            let r = C24::reading(slot, &c.argv[i]);
            if c.bad.contains(&i) {
                r == Read::Reject
            } else {
                r.is_must()
            }
        }) && c.bad.iter().all(|b| *b >= first && *b < c.argv.len())
    }
    fn spoil(g: &mut Gen, slot: Slot, old: &str) -> String {
        match g.below(6) {
            0 => C13::mutate(g, old.to_string()),
            5 => C13::decorate(g, old),
            1 => g.pick(&["", " ", "x", "-", "/", "0", "-1", "1.5", "1e3", "::", "10.0.0.0", "10.0.0.0/33", "1::/129", "10.0.0.0/8 ", "10.0.0.0/8,10.0.0.0/8", "-m", "--help", "#", "1.2.3.4-1.2.3.9", "\n", "ff", "５", "10.0.0.256/24", "1::g/64", "1::2::3/64", "10.0.0.0/"]).to_string(),
            _ => match slot {
                Slot::Net => C13::netspec(g),
                Slot::Address => C13::address(g, 2),
                Slot::Count => match g.below(4) {
                    0 => format!("-{}", g.below(300)),
                    1 => format!("{}{}", g.below(300), g.pick(&["x", " ", ".0", ",5", "/24", "k", "%"])),
                    2 => C13::mutate(g, old.to_string()),
                    _ => C13::address(g, 5),
                },
                Slot::Target(f) => {
                    if g.chance(1, 2) {
                        C13::prefix_like(g, f)
                    } else {
                        let f = if g.chance(1, 3) { f.other() } else { f };
                        C13::mask_like(g, f)
                    }
                }
            },
        }
    }
}
impl Property for C24 {
    type Case = Spoilt;
    const ID: &'static str = "C24";
    const RULE: &'static str = "command lines of the report, minimize, derange, split and resize with one to twelve (now and then 300, in some cases 66,000) valid arguments, of which one, sometimes two or three, in any position are replaced by something that cannot be read there: mutated, out of range, of another kind or family, empty. The command must be refused: status 1, a message, nothing on standard output. Non-trivial: a valid argument comes before or after the first unreadable one.";
    const QUICK: u64 = 600_000;
    fn gen(&self, g: &mut Gen) -> Spoilt {
        loop {
            let option = *g.pick(&["", "", "-m", "-m", "-d", "-s", "-s", "-r", "--minimize", "--split"]);
            let mut argv: Vec<String> = Vec::new();
            if !option.is_empty() {
                argv.push(option.into());
            }
            let f = g.fam();
            let net = |g: &mut Gen, f: Fam| {
                let n = g.net(f);
                g.any_notation(&n)
            };
            match option {
                "" | "-m" | "--minimize" => {
                    let n = if g.chance(1, 3000) { 300 } else { 1 + g.small(11) };
                    for _ in 0..n {
                        let f = if option.is_empty() && g.chance(1, 3) { f.other() } else { f };
                        argv.push(net(g, f));
                    }
                }
                "-d" => {
                    for _ in 0..2 {
                        let v = g.value(f);
                        argv.push(g.spelling(f, v));
                    }
                }
                "-s" | "--split" => {
                    let n = g.cidr_net(f);
                    argv.push(g.any_notation(&n));
                    for _ in 0..1 + g.small(8) {
                        argv.push(g.small(3000).to_string());
                    }
                }
                _ => {
                    argv.push(net(g, f));
                    let m = g.mask(f);
                    argv.push(if g.chance(1, 2) { g.prefix(f).to_string() } else { fmt_addr(f, m) });
                }
            }
            let first = argv.len().min(if option.is_empty() { 0 } else { 1 });
            let mut bad: Vec<usize> = Vec::new();
            for _ in 0..1 + g.weighted(&[8, 2, 1]) {
                let i = g.range(first as u64, argv.len() as u64 - 1) as usize;
                if bad.contains(&i) {
                    continue;
                }
                let Some(slot) = C24::slot(&argv, i) else { continue };
                let old = argv[i].clone();
                for _ in 0..20 {
                    let t = C24::spoil(g, slot, &old);
                    if C24::reading(slot, &t) == Read::Reject && (i > 0 || !t.starts_with('-')) {
                        argv[i] = t;
                        bad.push(i);
                        break;
                    }
                }
            }
            bad.sort_unstable();
            let c = Spoilt { argv, bad };
            if C24::valid(&c) {
                return c;
            }
        }
    }
    fn shrink(&self, c: &Spoilt) -> Vec<Spoilt> {
        let mut out: Vec<Spoilt> = Vec::new();
        if c.argv.len() > 300 {
            // fewer on either side of the bad ones
            let (first, last) = (c.bad[0], *c.bad.last().unwrap());
            let mut k = c.argv.len() / 2;
            while k > 0 {
                if last + k < c.argv.len() {
                    out.push(Spoilt { argv: c.argv[..c.argv.len() - k].to_vec(), bad: c.bad.clone() });
                }
                if first >= k + 2 {
                    out.push(Spoilt { argv: [&c.argv[..2], &c.argv[2 + k..]].concat(), bad: c.bad.iter().map(|b| b - k).collect() });
                }
                k /= 2;
            }
            out.retain(C24::valid);
            return out;
        }
        for i in 0..c.argv.len() {
            let mut argv = c.argv.clone();
            argv.remove(i);
            let bad = c.bad.iter().filter(|b| **b != i).map(|b| if *b > i { b - 1 } else { *b }).collect();
            out.push(Spoilt { argv, bad });
        }
        for argv in simpler_elements(&c.argv, |s| simpler_text(s)) {
            out.push(Spoilt { argv, bad: c.bad.clone() });
        }
        out.retain(C24::valid);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Spoilt>> {
        let mut out = Vec::new();
        let modes: [(&str, fn(usize) -> &'static str, &[usize]); 5] = [
            ("", |i| if i % 2 == 0 { "10.0.0.0/24" } else { "1::/64" }, &[1, 2, 3, 4, 5, 8]),
            ("-m", |i| ["10.0.0.0/24", "10.0.1.0/24", "10.0.0.0/25"][i % 3], &[1, 2, 3, 4, 5, 8]),
            ("-d", |i| ["10.0.0.1", "10.0.0.9"][i % 2], &[2]),
            ("-s", |i| if i == 0 { "10.0.0.0/24" } else { "5" }, &[2, 3, 4, 5, 8]),
            ("-r", |i| ["10.0.0.0/24", "26"][i % 2], &[2]),
        ];
        for (option, argument, counts) in modes {
            for n in counts {
                for at in 0..*n {
                    for t in ["", " ", "x", "-1", "10.0.0.0/33", "1::/129", "10.0.0.0.0/8", "1::2::/64", "10.0.0.0/24x", "-", "1.5", "0x10", "10.0.0.256", ":::", "/", "/24"] {
                        let mut argv: Vec<String> = (0..*n).map(|i| argument(i).to_string()).collect();
                        argv[at] = t.to_string();
                        let mut bad = at;
                        if !option.is_empty() {
                            argv.insert(0, option.to_string());
                            bad += 1;
                        }
                        out.push(Spoilt { argv, bad: vec![bad] });
                    }
                }
            }
        }
        for (option, word) in [("", "1.2.3.4/5"), ("-m", "1.2.3.4/5"), ("-s", "2")] {
            for at in [0, 256, 65_536, 65_999] {
                let mut argv = vec![word.to_string(); 66_000];
                argv[at] = "1.2.3.4/55".into();
                let mut bad = at;
                if option == "-s" {
                    argv.insert(0, "10.0.0.0/8".into());
                    bad += 1;
                }
                if !option.is_empty() {
                    argv.insert(0, option.into());
                    bad += 1;
                }
                out.push(Spoilt { argv, bad: vec![bad] });
            }
        }
        out.retain(C24::valid);
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Spoilt, x: &mut Exec) -> R<Verdict> {
        x.run(&c.argv)?.refused()?;
        let first = if C24::slot(&c.argv, 0).is_some() { 0 } else { 1 };
        let before = c.bad[0] > first;
        let after = c.argv.len() - 1 > c.bad[0];
        let mode = match c.argv[0].as_str() {
            "-m" | "--minimize" => "minimize",
            "-d" | "--derange" => "derange",
            "-s" | "--split" => "split",
            "-r" | "--resize" => "resize",
            _ => "report",
        };
        Ok(Verdict::new(before || after).label(true, mode).label(before, "valid arguments before it").label(after, "arguments after it").label(c.bad.len() > 1, "several unreadable arguments"))
    }
}
