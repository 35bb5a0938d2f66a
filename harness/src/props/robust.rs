//! Properties about any command line: C14 (no crash), C16 (colour), C19 (determinism), C20 (failing
//! output).

use serde::{Deserialize, Deserializer, Serialize, Serializer};

use super::sizes::SplitCase;
use super::text::C13;
use super::*;
use crate::dict::dict;
use crate::engine::*;
use crate::exec::*;
use crate::recog::*;
use crate::report::*;

/// An argument: any bytes but NUL. Serialized as text, or as a list of bytes if it is not UTF-8.
#[derive(Clone, Debug, PartialEq)]
pub struct Arg(pub Vec<u8>);
impl AsRef<[u8]> for Arg {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<String> for Arg {
    fn from(s: String) -> Arg {
        Arg(s.into_bytes())
    }
}
impl From<&str> for Arg {
    fn from(s: &str) -> Arg {
        Arg(s.as_bytes().to_vec())
    }
}
impl Serialize for Arg {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(t),
            Err(_) => self.0.serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for Arg {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Arg, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum Either {
            Text(String),
            Bytes(Vec<u8>),
        }
        Ok(match Either::deserialize(d)? {
            Either::Text(s) => Arg(s.into_bytes()),
            Either::Bytes(b) => Arg(b),
        })
    }
}
pub type Argv = Vec<Arg>;

fn texts(argv: &[Arg]) -> Vec<String> {
    argv.iter().map(|a| String::from_utf8_lossy(&a.0).into_owned()).collect()
}

/// Which mode a command line selects.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    None,
    Minimize,
    Derange,
    Split,
    Resize,
    Enumerate,
    ColorTest,
    Help,
    Report,
}
pub fn which(argv: &[Arg]) -> Which {
    match argv.first().map(|a| a.0.as_slice()) {
        None => Which::None,
        Some(b"-m" | b"--minimize") => Which::Minimize,
        Some(b"-d" | b"--derange") => Which::Derange,
        Some(b"-s" | b"--split") => Which::Split,
        Some(b"-r" | b"--resize") => Which::Resize,
        Some(b"-e" | b"--enumerate") => Which::Enumerate,
        Some(b"--color-test") => Which::ColorTest,
        Some(b"--help") => Which::Help,
        Some(_) => Which::Report,
    }
}
impl Which {
    fn label(self) -> &'static str {
        match self {
            Which::None => "no arguments",
            Which::Minimize => "minimize",
            Which::Derange => "derange",
            Which::Split => "split",
            Which::Resize => "resize",
            Which::Enumerate => "enumerate",
            Which::ColorTest => "color test",
            Which::Help => "help",
            Which::Report => "report",
        }
    }
}

/// Whether the correct output is of moderate size (a listing of 2^100 addresses is correct, but
/// takes a while).
pub fn bounded(argv: &[Arg]) -> bool {
    let t = texts(argv);
    match which(argv) {
        Which::Enumerate => {
            let mut total = 0u64;
            for s in &t[1..] {
                if let Some((_, n)) = read_netspec(s).value() {
                    if n.host_bits() > 13 {
                        return false;
                    }
                    total += 1 << n.host_bits();
                }
            }
            total <= 1 << 14
        }
        Which::Resize => {
            if t.len() != 3 {
                return true;
            }
            let Some((_, n)) = read_netspec(&t[1]).value() else { return true };
            match read_target(n.fam, &t[2]).value() {
                Some(m) => m.count_ones() <= n.net_bits() + 9,
                None => true,
            }
        }
        _ => true,
    }
}

/// A moderate command line of any mode, mostly valid.
pub fn cmdline(g: &mut Gen, long: u64) -> Argv {
    let f = g.fam();
    let mut out: Argv = Vec::new();
    match g.weighted(&[4, 4, 2, 3, 3, 3]) {
        0 => {
            let n = 1 + g.small(long);
            for _ in 0..n {
                let f = g.fam();
                let net = g.net(f);
                let host = g.u128() & net.wild();
                out.push(g.notation(f, net.base | host, net.mask).into());
            }
        }
        1 => {
            out.push((*g.pick(&["-m", "--minimize"])).into());
            let mut nets = g.cidr_cluster(f, long);
            if g.chance(1, 2) {
                // lopsided ones with bits in common
                let n = g.small(8);
                let m = g.lopsided_mask(f);
                let base = g.value(f);
                for _ in 0..n {
                    let flip = 1u128 << g.below(f.bits() as u64);
                    let flip2 = 1u128 << g.below(f.bits() as u64);
                    nets.push(Net::new(f, base ^ if g.chance(1, 2) { flip } else { 0 }, m ^ if g.chance(1, 2) { flip2 } else { 0 }));
                }
            }
            g.shuffle(&mut nets);
            for n in nets {
                out.push(g.any_notation(&n).into());
            }
        }
        2 => {
            out.push((*g.pick(&["-d", "--derange"])).into());
            let a = g.value(f);
            let b = if g.chance(1, 2) { a.saturating_add(g.below(5000) as u128).min(f.ones()) } else { g.value(f) };
            out.push(g.spelling(f, a).into());
            out.push(g.spelling(f, b).into());
        }
        3 => {
            let c = SplitCase::gen(g);
            out.push((*g.pick(&["-s", "--split"])).into());
            out.push(c.net.text().into());
            out.extend(c.counts.into_iter().map(Arg::from));
        }
        4 => {
            out.push((*g.pick(&["-r", "--resize"])).into());
            let net = g.net(f);
            let have = net.net_bits();
            let want = if g.chance(1, 3) { g.below(have as u64 + 1) as u32 } else { (have + g.below(7) as u32).min(f.bits()) };
            let m = if g.chance(1, 2) { f.prefix_mask(want) } else { g.mask_with_host_bits(f, f.bits() - want) };
            out.push(g.any_notation(&net).into());
            out.push(match (Net::new(f, 0, m).prefix(), g.below(3)) {
                (Some(p), 0) => p.to_string().into(),
                (_, 1) => format!("-{}", g.spelling(f, !m & f.ones())).into(),
                _ => g.spelling(f, m).into(),
            });
        }
        _ => {
            out.push((*g.pick(&["-e", "--enumerate"])).into());
            let n = 1 + g.small(long.min(12));
            for _ in 0..n {
                let f = g.fam();
                let hb = g.small(8) as u32;
                let m = g.mask_with_host_bits(f, hb);
                let net = Net::new(f, g.value(f), m);
                out.push(g.any_notation(&net).into());
            }
        }
    }
    out
}

/// Text or bytes that have no business in a command line.
fn junk(g: &mut Gen) -> Arg {
    match g.below(14) {
        0 => "".into(),
        1 => {
            let n = g.range(1, 20);
            Arg((0..n).map(|_| 1 + g.below(255) as u8).collect())
        }
        2 => Arg(g.pick(&[&b"\xff"[..], b"1.2.3.4/\xff", b"\xc3\xa9", b"1.2.3.\xb2/24", b"\xed\xa0\x80", b"10.0.0.0\xff/24", b"-\xff", b"\xf0\x9f\x92\xa9/8"]).to_vec()),
        3 => g.pick(&["-", "--", "-m", "-d", "-s", "-r", "-e", "--help", "--color-test", "-h", "--minimize", "--split", "--resize"])[..].into(),
        4 => {
            let unit = *g.pick(&["1", "0", ":", "::", ".", "1.", "f:", "/", "-", "9", "é", "1.2.3.4/24", "ffff:"]);
            let n = *g.pick(&[10u64, 100, 1000, 20000]);
            unit.repeat((n / unit.len() as u64 + 1) as usize).into()
        }
        5 => g.pick(&["18446744073709551615", "18446744073709551616", "-1", "-0", "+5", "1e3", "0x10", "NaN", "1_000", "５", "340282366920938463463374607431768211456", "2147483648", "4294967295", "-2147483648"])[..].into(),
        6 => {
            let a = C13::any_address(g);
            a.into()
        }
        7 => format!("1.2.3.4/{}", g.pick(&["18446744073709551615", "18446744073709551616", "4294967296", "-18446744073709551616", "255", "-33", "-", "", "--1", "-0", "99999999999999999999999999999999999999999"])).into(),
        8 => format!("{}/{}", g.pick(&["::", "1::", ":", ":::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:9", "::1:2:3:4:5:6:7:8"]), g.pick(&["129", "-129", "128", "-128", "18446744073709551616", "::", ":", ":::", "-::", "-:", "ffff::1", "1.2.3.4"])).into(),
        9 => format!("{}/{}", g.pick(&["256.0.0.0", "0.0.0.0", "255.255.255.255", "1.2.3", "1.2.3.4.5", "4294967296.0.0.0"]), g.pick(&["0.0.0.0", "255.255.255.255", "-255.255.255.255", "-0.0.0.0", "256.0.0.0", "255.0.255", "-1.2.3.4", "0", "32"])).into(),
        10 => "\n".into(),
        11 => " 1.2.3.4/24 ".into(),
        _ => C13::any_netspec(g).into(),
    }
}

fn fuzzed(g: &mut Gen) -> Argv {
    let mut v = match g.weighted(&[10, 2, 1]) {
        0 => cmdline(g, 30),
        1 => {
            // an option with anything
            let o = *g.pick(&["-m", "-d", "-s", "-r", "-e", "--minimize", "--derange", "--split", "--resize", "--enumerate", "--help", "--color-test", "-x", ""]);
            let n = g.small(6);
            let mut v: Argv = vec![o.into()];
            for _ in 0..n {
                v.push(junk(g));
            }
            v
        }
        _ => {
            let n = g.small(8);
            (0..n).map(|_| junk(g)).collect()
        }
    };
    let edits = g.weighted(&[4, 4, 2, 1]);
    for _ in 0..edits {
        let at = g.below(v.len() as u64 + 1) as usize;
        match g.below(6) {
            0 => v.insert(at, junk(g)),
            1 if at < v.len() => {
                v.remove(at);
            }
            2 if at < v.len() => v[at] = junk(g),
            3 if at < v.len() => {
                let s = String::from_utf8_lossy(&v[at].0).into_owned();
                if s.len() < 300 {
                    v[at] = C13::mutated(g, s).into();
                }
            }
            4 if at + 1 < v.len() => v.swap(at, at + 1),
            5 if at < v.len() => {
                // a byte-level edit
                let n = v[at].0.len() as u64;
                let p = g.below(n + 1) as usize;
                let b = 1 + g.below(255) as u8;
                if p < v[at].0.len() && g.chance(1, 2) {
                    v[at].0[p] = b;
                } else {
                    v[at].0.insert(p, b);
                }
            }
            _ => {}
        }
    }
    for a in v.iter_mut() {
        a.0.retain(|b| *b != 0);
    }
    v
}

fn simpler_argv(c: &Argv) -> Vec<Argv> {
    let mut out = shorter(c, 0);
    out.extend(simpler_elements(c, |a| match std::str::from_utf8(&a.0) {
        Ok(s) => simpler_text(s).into_iter().map(Arg::from).collect(),
        Err(_) => shorter(&a.0, 0).into_iter().map(Arg).collect(),
    }));
    out
}

pub struct C14;
impl Property for C14 {
    type Case = Argv;
    const ID: &'static str = "C14";
    const RULE: &'static str = "command lines of every mode with zero to three edits (arguments inserted, removed, replaced by junk, swapped; characters or bytes edited), options with arbitrary arguments, and wholly arbitrary ones: empty, very long, non-UTF-8, control characters, numbers around 2^16, 2^32, 2^64 and 2^128, up to 30 arguments (systematic: up to 4000, and words of up to 130,000 bytes in every place). Excluded are only command lines whose correct output would be large. Checked: exit status 0 or 1 within 8 s of CPU time, 1 GB and 256 MB of output; a message with status 1; no results from report, minimize, derange or resize with status 1. Non-trivial: status 1, or an argument that is not canonical.";
    const ASSUMPTIONS: &'static [&'static str] = &["8 s of CPU time count as never terminating; the command lines need milliseconds."];
    const QUICK: u64 = 600_000;
    fn gen(&self, g: &mut Gen) -> Argv {
        loop {
            let v = fuzzed(g);
            if bounded(&v) {
                return v;
            }
        }
    }
    fn shrink(&self, c: &Argv) -> Vec<Argv> {
        let mut out = simpler_argv(c);
        out.retain(|v| bounded(v));
        out
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Argv>> {
        let mut out: Vec<Argv> = Vec::new();
        // every option with every small list of odd arguments
        let odd: Vec<Arg> = vec![
            "".into(),
            "-".into(),
            "/".into(),
            "1.2.3.4".into(),
            "1.2.3.4/30".into(),
            "255.255.255.255/32".into(),
            "0.0.0.0/0".into(),
            "0.0.0.0".into(),
            "255.255.255.255".into(),
            "1.2.3.4/255.255.255.254".into(),
            "1.2.3.5/255.255.254.255".into(),
            "::".into(),
            "::/0".into(),
            "::/128".into(),
            "1::2/126".into(),
            "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff".into(),
            "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/127".into(),
            "1::/::".into(),
            "0".into(),
            "1".into(),
            "2".into(),
            "30".into(),
            "32".into(),
            "33".into(),
            "128".into(),
            "129".into(),
            "4294967295".into(),
            "18446744073709551616".into(),
            "340282366920938463463374607431768211455".into(),
            "340282366920938463463374607431768211456".into(),
            "-1".into(),
            "-0.0.0.1".into(),
            "-::1".into(),
            "--help".into(),
            Arg(b"\xff".to_vec()),
        ];
        for o in ["-m", "-d", "-s", "-r", "-e", "--help", "--color-test"] {
            out.push(vec![o.into()]);
            for a in &odd {
                out.push(vec![o.into(), a.clone()]);
                for b in &odd {
                    out.push(vec![o.into(), a.clone(), b.clone()]);
                }
            }
        }
        out.push(vec![]);
        for a in &odd {
            out.push(vec![a.clone()]);
            for b in &odd {
                out.push(vec![a.clone(), b.clone()]);
            }
        }
        // many arguments
        let n = if tier == Tier::Quick { 1000 } else { 4000 };
        let many = |o: Option<&str>, item: &dyn Fn(u32) -> String| -> Argv {
            let mut v: Argv = o.into_iter().map(Arg::from).collect();
            v.extend((0..n).map(|i| Arg::from(item(i))));
            v
        };
        out.push(many(None, &|i| format!("10.0.{}.{}/24", i >> 8 & 255, i & 255)));
        out.push(many(Some("-e"), &|i| format!("10.0.{}.{}/32", i >> 8 & 255, i & 255)));
        out.push(many(Some("-m"), &|i| format!("10.0.{}.{}/32", i >> 8 & 255, i & 255)));
        out.push(many(Some("-m"), &|i| format!("10.{}.{}.0/25", i >> 8 & 255, i & 255)));
        out.push(many(Some("-m"), &|i| format!("2001:db8::{:x}/128", i * 2)));
        out.push(many(Some("-s"), &|i| if i == 0 { "10.0.0.0/8".into() } else { i.to_string() }));
        out.push(many(Some("-s"), &|i| if i == 0 { "::/0".into() } else { format!("{}{}", i, "0".repeat(i as usize % 50)) }));
        out.push(many(Some("-d"), &|i| format!("10.0.0.{}", i & 255)));
        out.push(many(Some("-r"), &|i| format!("10.0.0.{}/24", i & 255)));
        // words as long as the system allows, in every place
        for unit in ["1", "0", ":", "::", ".", "1.", ".1", "f:", ":0", "0:", "ffff:", "/", "-", "+", "é", "9", "a", " ", "1.2.3.4/24 ", "1::/", "x:", "\u{0}\u{fffd}", "%", "_1"] {
            for n in [20_000, 130_000] {
                let word: Arg = if unit.ends_with('\u{fffd}') { Arg(vec![0xff; n]) } else { unit.repeat(n / unit.len()).into() };
                let around = |before: &str, after: &str| Arg([before.as_bytes(), &word.0, after.as_bytes()].concat());
                out.push(vec![word.clone()]);
                out.push(vec![around("1.2.3.4/", "")]);
                out.push(vec![around("1::/", "")]);
                out.push(vec![around("1.2.3.4/-", "")]);
                out.push(vec![around("", "/24")]);
                out.push(vec![around("::", "/24")]);
                out.push(vec!["-m".into(), around("", "/64")]);
                out.push(vec!["-e".into(), "1.2.3.4/31".into(), around("1", "/30")]);
                out.push(vec!["-d".into(), word.clone(), "1::1".into()]);
                out.push(vec!["-d".into(), "1.2.3.4".into(), word.clone()]);
                out.push(vec!["-r".into(), "1.2.3.4/24".into(), word.clone()]);
                out.push(vec!["-r".into(), "1::/24".into(), around("-", "")]);
                out.push(vec!["-r".into(), word.clone(), "24".into()]);
                out.push(vec!["-s".into(), "1::/24".into(), word.clone()]);
                out.push(vec!["-s".into(), word.clone(), "24".into()]);
            }
        }
        out.retain(|v| bounded(v));
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Argv, x: &mut Exec) -> R<Verdict> {
        let out = x.run(c)?;
        let w = which(c);
        match out.status {
            Status::Code(0) => {}
            Status::Code(1) => {
                if out.err.is_empty() && out.out.is_empty() {
                    return violation("exit status 1 without any message");
                }
                if matches!(w, Which::Report | Which::Minimize | Which::Derange | Which::Resize) && !out.out.is_empty() {
                    return violation(format!("refused, but printed results: {}", out.describe()));
                }
            }
            Status::CpuLimit => return violation("did not end within 8 s of CPU time"),
            Status::Asleep => return violation("it waits for something that does not come"),
            _ => return violation(out.describe()),
        }
        let refused = out.status == Status::Code(1);
        let odd = c.iter().any(|a| std::str::from_utf8(&a.0).is_err() || a.0.is_empty() || a.0.len() > 100);
        Ok(Verdict::new(refused || odd)
            .label(true, w.label())
            .label(refused, "exit status 1")
            .label(odd, "an argument that is empty, long or not Unicode")
            .label(c.len() > 20, "more than 20 arguments"))
    }
}

// ------------------------------------------------------------------------------------------------

/// Removes the escape sequences that set colours.
fn strip(bytes: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < bytes.len() {
        if bytes[i] == 0x1b && bytes.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < bytes.len() && (bytes[j].is_ascii_digit() || bytes[j] == b';') {
                j += 1;
            }
            if bytes.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        out.push(bytes[i]);
        i += 1;
    }
    out
}

/// The styles of the bits of a coloured row.
fn bit_styles(line: &str, f: Fam) -> R<Vec<String>> {
    let Some(chars) = styled_chars(line) else { return violation(format!("unreadable escape sequences in {:?}", line)) };
    let bits: Vec<String> = chars.into_iter().skip(binary_col(f)).filter(|c| c.0 == '0' || c.0 == '1').map(|c| c.1).collect();
    if bits.len() != f.bits() as usize {
        return violation(format!("{} bits in the row {:?}", bits.len(), line));
    }
    Ok(bits)
}

/// The styles that reports use.
struct Styles {
    net: String,
    host: String,
    mask: String,
}
impl Styles {
    fn learn(x: &mut Exec) -> R<Styles> {
        let reference = x.run_colored(&["10.0.0.0/8"], true)?.ok()?;
        let mut out = Styles { net: String::new(), host: String::new(), mask: String::new() };
        for l in reference.lines()? {
            let b = String::from_utf8_lossy(&strip(l.as_bytes())).into_owned();
            if b.starts_with("Address:") {
                let s = bit_styles(l, Fam::V4)?;
                (out.net, out.host) = (s[0].clone(), s[31].clone());
            } else if b.starts_with("Netmask:") {
                out.mask = bit_styles(l, Fam::V4)?[0].clone();
            }
        }
        if out.net == out.host || out.mask == out.net || out.mask == out.host {
            return violation("network bits, host bits and the mask do not look different");
        }
        Ok(out)
    }
    /// Checks the bits of a row; true if they distinguish network and host bits.
    fn check(&self, line: &str, text: &str, net: &Net) -> R<bool> {
        let f = net.fam;
        let label = LABELS.iter().find(|l| text.starts_with(**l)).copied().unwrap_or("");
        if label.is_empty() || label == "Hosts/Net:" {
            return Ok(false);
        }
        let split = label == "Network:" || label == "Address:";
        let skip = if label == "Network:" { net.class().map_or(0, |c| c.1) } else { 0 };
        for (i, style) in bit_styles(line, f)?.into_iter().enumerate().skip(skip as usize) {
            let covered = net.mask >> (f.bits() as usize - 1 - i) & 1 == 1;
            let want = match (split, label) {
                (true, _) if covered => &self.net,
                (false, "Netmask:") => &self.mask,
                _ => &self.host,
            };
            if style != *want {
                return violation(format!("{}: bit {} of the row {:?} has the style {:?}", describe(net), i, text, style));
            }
        }
        Ok(split)
    }
}

/// The colour (0 to 15) that SGR parameters select, if that is clear.
fn color_number(style: &str) -> Option<u32> {
    let params: Vec<u32> = style.split(['[', ';']).filter(|p| !p.is_empty()).map(|p| p.parse().ok()).collect::<Option<_>>()?;
    match params.as_slice() {
        [p @ 30..=37] => Some(p - 30),
        [p @ 90..=97] => Some(p - 90 + 8),
        [38, 5, n @ 0..=15] => Some(*n),
        [1, p @ 30..=37] | [p @ 30..=37, 1] => Some(p - 30 + 8),
        _ => None,
    }
}

/// What --color-test must show with colours on: every colour under its name.
fn color_table(out: &Out) -> R<()> {
    if out.status != Status::Code(0) {
        return violation(format!("the colour test failed: {}", out.describe()));
    }
    const NAMES: [&str; 16] = [
        "Black", "DarkRed", "DarkGreen", "DarkYellow", "DarkBlue", "DarkMagenta", "DarkCyan", "Gray", "DarkGray", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White",
    ];
    let Some(chars) = styled_chars(out.text()?) else { return violation(format!("unreadable escape sequences: {}", out.describe())) };
    let mut words: Vec<(String, String)> = Vec::new();
    for (c, style) in chars {
        match words.last_mut() {
            Some((w, s)) if *s == style => w.push(c),
            _ => words.push((c.to_string(), style)),
        }
    }
    words.retain(|w| !w.0.trim().is_empty());
    let mut seen = Vec::new();
    for (w, style) in &words {
        let Some(n) = NAMES.iter().position(|n| *n == w.trim()) else { return violation(format!("the colour test shows {:?}", w)) };
        if seen.iter().any(|(m, s): &(usize, &String)| *m == n || *s == style) {
            return violation(format!("the colour test shows {:?} twice, or something else in the same style", w));
        }
        if color_number(style).is_some_and(|k| k as usize != n) {
            return violation(format!("the colour test shows {:?} in colour {:?}", w, style));
        }
        seen.push((n, style));
    }
    if seen.len() != NAMES.len() {
        return violation(format!("the colour test shows {} colours", seen.len()));
    }
    Ok(())
}

pub struct C16;
impl Property for C16 {
    type Case = Argv;
    const ID: &'static str = "C16";
    const RULE: &'static str = "command lines of every mode (some with an edit), run with and without CLICOLOR_FORCE=1; after removal of the SGR sequences the outputs must be equal. Cases run on the regular builds are also run on a pseudo-terminal of various widths. For reports and the blocks of resize and split, the style of every bit of every row is compared with the mask, the styles being learnt from 10.0.0.0/8. The colour test must show sixteen colours under their names. Systematic: every prefix and notable lopsided masks. Non-trivial: the coloured output differs from the plain one.";
    const ASSUMPTIONS: &'static [&'static str] = &["Colours are forced with the environment variable that the console crate documents (CLICOLOR_FORCE); the program has no option of its own."];
    const QUICK: u64 = 170_000;
    fn gen(&self, g: &mut Gen) -> Argv {
        loop {
            let v = if g.chance(1, 6) {
                fuzzed(g)
            } else if g.chance(1, 2) {
                let n = 1 + g.weighted(&[5, 1, 1]);
                (0..n)
                    .map(|_| {
                        let f = g.fam();
                        Arg::from(gen_spec(g, f).text())
                    })
                    .collect()
            } else {
                cmdline(g, 8)
            };
            if bounded(&v) {
                return v;
            }
        }
    }
    fn shrink(&self, c: &Argv) -> Vec<Argv> {
        let mut out = simpler_argv(c);
        out.retain(|v| bounded(v));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Argv>> {
        let mut out: Vec<Argv> = vec![vec!["--color-test".into()], vec!["--help".into()], vec![]];
        for f in [Fam::V4, Fam::V6] {
            for (i, m) in super::show::notable_masks(f).into_iter().enumerate() {
                let a = (0xD00D_F00D_1234_5678_9ABC_DEF0_0F0F_A5A5u128 >> (i % 5)) & f.ones();
                out.push(vec![Spec::new(f, a, m).text().into()]);
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Argv, x: &mut Exec) -> R<Verdict> {
        let plain = x.run(c)?;
        let color = x.run_colored(c, true)?;
        if plain.status != color.status {
            return violation(format!("with colours: {}; without: {}", color.describe(), plain.describe()));
        }
        if plain.out.contains(&0x1b) && which(c) != Which::ColorTest {
            return violation(format!("escape sequences without colours: {}", plain.describe()));
        }
        if strip(&color.out) != plain.out || strip(&color.err) != strip(&plain.err) {
            return violation(format!("colours change the text: with {}; without {}", color.describe(), plain.describe()));
        }
        let mut checked = 0;
        if plain.status == Status::Code(0) && matches!(which(c), Which::Report | Which::Resize | Which::Split) {
            let lines = color.lines()?;
            let plain_lines: Vec<&str> = plain.lines()?;
            // the rows of each network with its mask; colours do not change the text (see above)
            let mut nets: Vec<Net> = Vec::new();
            let t = texts(c);
            match which(c) {
                Which::Report => nets.extend(t.iter().filter_map(|a| read_netspec(a).value()).map(|v| v.1)),
                Which::Resize if t.len() == 3 => {
                    if let Some((_, net)) = read_netspec(&t[1]).value() {
                        if let Some(m) = read_target(net.fam, &t[2]).value() {
                            let first: Vec<Net> = vec![net];
                            let rest = plain_lines.iter().filter(|l| l.starts_with("Network:")).skip(1);
                            nets.extend(first);
                            for l in rest {
                                let row = parse_row(l)?;
                                let base = row.value.split('/').next().unwrap().parse::<std::net::IpAddr>();
                                if let (Ok(std::net::IpAddr::V4(a)), Fam::V4) = (&base, net.fam) {
                                    nets.push(Net::new(net.fam, u32::from(*a) as u128, m));
                                } else if let (Ok(std::net::IpAddr::V6(a)), Fam::V6) = (&base, net.fam) {
                                    nets.push(Net::new(net.fam, u128::from(*a), m));
                                }
                            }
                        }
                    }
                }
                Which::Split => {
                    nets.extend(t.get(1).and_then(|a| read_netspec(a).value()).map(|v| v.1));
                    for l in plain_lines.iter().filter(|l| l.starts_with("Network:")).skip(1) {
                        nets.extend(parse_shown_net(&parse_row(l)?.value));
                    }
                }
                _ => {}
            }
            if !nets.is_empty() {
                let styles = Styles::learn(x)?;
                let mut expected = 0;
                let mut i = 0;
                let mut at = usize::MAX;
                for l in &lines {
                    let text = String::from_utf8(strip(l.as_bytes())).unwrap();
                    if !is_row(&text) {
                        continue;
                    }
                    // a report begins with the Address row, other blocks with the Network row
                    if text.starts_with("Address:") || (text.starts_with("Network:") && which(c) != Which::Report) {
                        at = i;
                        i += 1;
                    }
                    let Some(net) = nets.get(at) else { break };
                    if styles.check(l, &text, net)? {
                        checked += 1;
                    }
                }
                expected += if which(c) == Which::Report { 2 * nets.len() } else { nets.len() };
                if checked != expected || i != nets.len() {
                    return violation(format!("{} coloured Address and Network rows for {} networks", checked, nets.len()));
                }
            }
        }
        if which(c) == Which::ColorTest {
            color_table(&color)?;
        }
        let mut terminal = (false, false);
        if let Mode::Proc(profile) = x.mode {
            let width = [80, 40, 0, 200, 10, 132][c.iter().map(|a| a.0.len()).sum::<usize>() % 6];
            if let Some(out) = x.run_terminal(c, width, profile)? {
                if out.status != plain.status || strip(&out.out) != plain.out || strip(&out.err) != strip(&plain.err) {
                    return violation(format!("on a terminal: {}; without one: {}", out.describe(), plain.describe()));
                }
                terminal = (true, out.out != plain.out);
            }
        }
        Ok(Verdict::new(color.out != plain.out)
            .label(true, which(c).label())
            .label(checked > 0, "bit styles compared")
            .label(terminal.0, "on a terminal")
            .label(terminal.1, "coloured on a terminal"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Again {
    pub argv: Argv,
    pub around: Around,
    #[serde(default)]
    pub world: World,
}

/// The rest of what a process can find out about the world.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct World {
    /// Settings of the shim, without the file.
    pub config: Vec<String>,
    /// What all files contain.
    pub file: String,
}
impl World {
    fn gen(g: &mut Gen, argv: &Argv) -> World {
        // things that the command line mentions
        let mentioned: Vec<String> = argv
            .iter()
            .filter_map(|a| std::str::from_utf8(&a.0).ok())
            .flat_map(|a| [Some(a), a.split('/').next(), a.split('/').nth(1)])
            .flatten()
            .filter(|a| !a.is_empty() && a.len() < 100)
            .map(String::from)
            .collect();
        let mut config = Vec::new();
        if g.chance(1, 2) {
            // the date: any time of the last and the next decades, or an odd one
            let t = match g.below(6) {
                0 => *g.pick(&[0, 1, -1, 86_399, 951_782_400, 1_000_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_296, 253_402_300_800]),
                1 => 1_700_000_000 / 86_400 * 86_400 + 86_400 * g.below(4000) as i64,
                _ => g.below(4_000_000_000) as i64,
            };
            config.push(format!("t={}", t));
        }
        if g.chance(1, 3) {
            config.push(format!("m={}", *g.pick(&[1, 3, 10, 60, 3600, 86_400, 1_000_000_000])));
        }
        if g.chance(1, 2) {
            config.push(format!("p={}", *g.pick(&[1, 2, 3, 100, 255, 256, 4096, 32767, 32768, 65536, 4_194_303])));
        }
        if g.chance(1, 3) {
            config.push(format!("u={}", *g.pick(&[0, 1, 1000, 65534])));
        }
        if g.chance(1, 2) {
            config.push(format!("c={}", *g.pick(&[1, 1, 2, 3, 7, 64])));
        }
        if g.chance(1, 2) {
            config.push(format!("r={}", g.below(256)));
        }
        if g.chance(1, 2) {
            config.push("h=1".into());
        }
        let mut file = String::new();
        for _ in 0..g.small(40) {
            let word = |g: &mut Gen| -> String {
                let words = &dict().words;
                if !mentioned.is_empty() && g.chance(1, 4) {
                    g.pick(&mentioned).clone()
                } else if !words.is_empty() && g.chance(2, 3) {
                    g.pick(words).clone()
                } else {
                    g.pick(&["default", "color", "prefix", "mask", "format", "output", "sort", "max", "verbose", "nameserver", "search", "[ripcalc]", "alias", "include", "localhost", "-m", "#"]).to_string()
                }
            };
            let value = |g: &mut Gen| -> String {
                match g.below(5) {
                    0 => g.pick(&["0", "1", "true", "false", "yes", "no", "always", "never", "", "\"x\"", "10", "-1"]).to_string(),
                    1 => g.below(130).to_string(),
                    2 => {
                        let f = g.fam();
                        g.addr(f).text()
                    }
                    _ => {
                        let f = g.fam();
                        let net = g.net(f);
                        net.shown()
                    }
                }
            };
            let (w, v, v2) = (word(g), value(g), value(g));
            let line = match g.below(6) {
                0 => w,
                1 => v,
                2 => format!("{w}={v}"),
                3 => format!("{w}: {v}"),
                4 => format!("{v2} {v}"),
                _ => format!("{w} {v}"),
            };
            file.push_str(&line);
            file.push('\n');
        }
        World { config, file }
    }
}
fn c_config(config: &[String]) -> String {
    if config.is_empty() {
        // (something that has no effect)
        "s=1".into()
    } else {
        config.join(",")
    }
}
pub struct C19;
impl C19 {
    fn around(g: &mut Gen) -> Around {
        const NAMES: [&str; 27] = [
            "COLUMNS", "LINES", "TERM", "COLORTERM", "NO_COLOR", "CLICOLOR", "LANG", "LC_ALL", "LC_NUMERIC", "LANGUAGE", "TZ", "HOME", "USER", "SHELL", "PWD", "PAGER", "DEBUG", "VERBOSE", "QUIET",
            "RUST_LOG", "RUST_BACKTRACE", "RIPCALC_OPTS", "RIPCALC_FORMAT", "RIPCALC_COLOR", "POSIXLY_CORRECT", "CI", "LESS",
        ];
        const VALUES: [&str; 19] = ["\u{fffd}", "", "0", "1", "2", "10", "40", "80", "132", "C", "POSIX", "de_DE.UTF-8", "fr_FR", "tr_TR.UTF-8", "dumb", "xterm-256color", "/tmp", "never", "-m"];
        let mut vars: Vec<(String, String)> = Vec::new();
        for _ in 0..g.small(12) {
            let named = &dict().names;
            let k = if !named.is_empty() && g.chance(1, 3) { g.pick(named).clone() } else { g.pick(&NAMES).to_string() };
            if k.starts_with("CLICOLOR_") {
                // switches colours, as it should
                continue;
            }
            if vars.iter().all(|v| v.0 != k) {
                vars.push((k, g.pick(&VALUES).to_string()));
            }
        }
        Around {
            vars,
            dir: g.pick(&["/", "/tmp", "/usr/bin", "/dev", "gone"]).to_string(),
            name: match g.below(6) {
                0 => g.pick(&["ipcalc", "-ripcalc", "./ripcalc", "/usr/bin/ripcalc", "ripcalc6", "minimize", "enumerate", "ripcalc.exe", "--help", "10.0.0.0/8", "é"]).to_string(),
                1 if !dict().words.is_empty() => g.pick(&dict().words).clone(),
                _ => String::new(),
            },
            input: g.pick(&["", "", "10.0.0.0/8\n", "y\n", "1.2.3.4 5.6.7.8\n\n"]).to_string(),
        }
    }
}
impl Property for C19 {
    type Case = Again;
    const ID: &'static str = "C19";
    const RULE: &'static str = "command lines of every mode (minimize and split, which use hash tables, more often and with up to 60 networks; some with edits, some with a name in place of an argument, some with up to 1,200 networks of which a part may be unreadable), each run in three fresh processes of the development build and two of the release build, and once each with random environment variables, working directory (which may have been removed), standard input and name, and once each with a preloaded library that replaces the date (any), the monotonic clock (jumping by up to decades between looks), the process and user numbers, the host name, the number of processors, random bytes, what names resolve to, and the contents of every file outside the system's own directories (which then mention the arguments and the words in the source); output, messages and status must all be equal. Non-trivial: successful, with at least two lines of output.";
    const ASSUMPTIONS: &'static [&'static str] = &["Hash seeds differ between processes (the standard library draws them from the system), so that each case samples five seeds."];
    const QUICK: u64 = 12_000;
    const FACTOR: u64 = 30;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Again {
        let argv = loop {
            let v = match g.weighted(&[60, 100, 40, 40, 10, 6]) {
                0 => cmdline(g, 20),
                5 => {
                    // many, so that the work may get divided
                    let f = g.fam();
                    let mut v: Argv = match g.below(3) {
                        0 => vec!["-e".into()],
                        1 => vec!["-m".into()],
                        _ => vec![],
                    };
                    let n = 20 + if g.chance(1, 3) { g.below(1180) } else { g.below(200) };
                    let bad = *g.pick(&[0u64, 1, 1, 20, 50]);
                    for i in 0..n {
                        let hb = g.below(3) as u32;
                        let m = g.mask_with_host_bits(f, hb);
                        let t = Net::new(f, g.value(f), m).shown();
                        v.push(if g.chance(bad, 50) { format!("{t}x{i}").into() } else { t.into() });
                    }
                    v
                }
                4 => {
                    // something that would have to be looked up
                    let mut v = cmdline(g, 4);
                    let i = g.below(v.len() as u64) as usize;
                    let name = match g.below(3) {
                        0 if !dict().words.is_empty() => g.pick(&dict().words).clone(),
                        1 => g.pick(&["localhost", "loopback", "default", "any", "all", "lan", "home", "link-local", "eth0", "lo", "@file", "-", "example.org", "gateway", "_"]).to_string(),
                        _ => (0..g.range(1, 10)).map(|_| g.range(b'a' as u64, b'z' as u64) as u8 as char).collect(),
                    };
                    let rest = if g.chance(1, 3) { format!("/{}", g.below(33)) } else { String::new() };
                    v[i] = format!("{name}{rest}").into();
                    v
                }
                1 => {
                    // overlapping lopsided networks
                    let f = g.fam();
                    let k = g.range(3, 9);
                    let mut bits = Vec::new();
                    for _ in 0..k {
                        bits.push(1u128 << g.below(f.bits() as u64));
                    }
                    let base = g.value(f);
                    let n = 2 + g.small(58);
                    let mut v: Argv = vec!["-m".into()];
                    for _ in 0..n {
                        let (mut m, mut b) = (f.ones(), base);
                        for bit in &bits {
                            match g.below(3) {
                                0 => m &= !bit,
                                1 => b ^= bit,
                                _ => {}
                            }
                        }
                        v.push(Net::new(f, b, m).shown().into());
                    }
                    v
                }
                2 => {
                    let c = SplitCase::gen(g);
                    let mut v: Argv = vec!["-s".into(), c.net.text().into()];
                    v.extend(c.counts.into_iter().map(Arg::from));
                    v
                }
                _ => fuzzed(g),
            };
            if bounded(&v) {
                break v;
            }
        };
        let world = World::gen(g, &argv);
        Again { argv, around: C19::around(g), world }
    }
    fn shrink(&self, c: &Again) -> Vec<Again> {
        let mut out: Vec<Again> = Vec::new();
        for i in 0..c.around.vars.len() {
            let mut a = c.clone();
            a.around.vars.remove(i);
            out.push(a);
        }
        if c.around.dir != "/" {
            let mut a = c.clone();
            a.around.dir = "/".into();
            out.push(a);
        }
        if !c.around.name.is_empty() {
            let mut a = c.clone();
            a.around.name.clear();
            out.push(a);
        }
        if !c.around.input.is_empty() {
            let mut a = c.clone();
            a.around.input.clear();
            out.push(a);
        }
        for i in 0..c.world.config.len() {
            let mut a = c.clone();
            a.world.config.remove(i);
            out.push(a);
        }
        let lines: Vec<&str> = c.world.file.lines().collect();
        for i in 0..lines.len() {
            let mut l = lines.clone();
            l.remove(i);
            let mut a = c.clone();
            a.world.file = l.iter().map(|l| format!("{}\n", l)).collect();
            out.push(a);
        }
        out.extend(simpler_argv(&c.argv).into_iter().filter(|v| bounded(v)).map(|argv| Again { argv, ..c.clone() }));
        out
    }
    fn check(&self, c: &Again, x: &mut Exec) -> R<Verdict> {
        let Again { argv: c, around, world } = c;
        let first = x.run_proc(c, false, Profile::Dev)?;
        for profile in [Profile::Release, Profile::Dev, Profile::Release, Profile::Dev] {
            let again = x.run_proc(c, false, profile)?;
            if again != first {
                return violation(format!("one run: {}; another ({:?} build): {}", first.describe(), profile, again.describe()));
            }
        }
        for profile in [Profile::Dev, Profile::Release] {
            let again = x.run_around(c, around, profile)?;
            if again != first {
                return violation(format!("one run: {}; in a different environment ({:?} build): {}", first.describe(), profile, again.describe()));
            }
        }
        let shim = x.bins.shim.is_some();
        if shim {
            for profile in [Profile::Dev, Profile::Release] {
                let again = x.run_shim(c, &c_config(&world.config), Some(&world.file), profile)?;
                if again != first {
                    return violation(format!("one run: {}; in a different world ({:?} build): {}", first.describe(), profile, again.describe()));
                }
            }
        }
        let lines = first.out.iter().filter(|b| **b == b'\n').count();
        Ok(Verdict::new(first.status == Status::Code(0) && lines >= 2).label(true, which(c).label()).label(first.status != Status::Code(0), "not successful").label(!around.vars.is_empty(), "environment variables").label(!around.input.is_empty(), "standard input").label(shim, "files, clock and numbers replaced"))
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Faulty {
    pub argv: Argv,
    pub fault: Fault,
}
pub struct C20;
impl Property for C20 {
    type Case = Faulty;
    const ID: &'static str = "C20";
    const RULE: &'static str = "successful and refused command lines of every mode, --color-test included, with standard output failing: at a file-size limit of any number of bytes (dense around the ends of lines and of the output), on a full device, into a pipe without a reader, and into a 4096-byte pipe whose reader leaves after some bytes; or standard error failing (full device, pipe without a reader). Delivered bytes must be a prefix of the complete output; if not all could be delivered the status must not be 0, otherwise it must be the usual one. With standard error failing, standard output must carry the beginning of the usual results and a status that is not 0 must not become 0; where there are no messages, all must be as usual. Non-trivial: something could not be delivered.";
    const ASSUMPTIONS: &'static [&'static str] = &["With a reader that leaves, a failure is certain only if the output exceeds what was read by more than the pipe holds.", "SIGXFSZ is ignored, so that the file-size limit shows as a failing write, as a full disk does."];
    const QUICK: u64 = 16_000;
    const FACTOR: u64 = 30;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Faulty {
        let argv = loop {
            let v = if g.chance(1, 12) {
                fuzzed(g)
            } else if g.chance(1, 60) {
                vec!["--color-test".into()]
            } else if g.chance(1, 5) {
                // much output
                let f = g.fam();
                let hb = g.range(8, 13) as u32;
                let m = g.mask_with_host_bits(f, hb);
                let net = Net::new(f, g.value(f), m);
                if g.chance(1, 2) {
                    vec!["-e".into(), net.shown().into()]
                } else {
                    let p = f.bits() - hb.min(9);
                    let net = Net::cidr(f, net.base, p);
                    vec!["-r".into(), net.shown().into(), f.bits().to_string().into()]
                }
            } else {
                cmdline(g, 20)
            };
            if bounded(&v) {
                break v;
            }
        };
        let fault = match g.weighted(&[16, 2, 6, 2, 1, 1]) {
            4 => Fault::MessagesFull,
            5 => Fault::MessagesClosed,
            0 => Fault::SizeLimit(match g.below(5) {
                0 => 0,
                1 => g.below(100),
                2 => g.below(4000),
                3 => 1024 * g.range(1, 16) + g.below(3) - 1,
                _ => g.below(60_000),
            }),
            1 => Fault::ClosedPipe,
            2 => Fault::ReaderLeaves(match g.below(3) {
                0 => g.below(100),
                1 => g.below(5000),
                _ => g.below(60_000),
            }),
            _ => Fault::DeviceFull,
        };
        Faulty { argv, fault }
    }
    fn shrink(&self, c: &Faulty) -> Vec<Faulty> {
        let mut out: Vec<Faulty> = simpler_argv(&c.argv)
            .into_iter()
            .filter(|v| bounded(v))
            .map(|argv| Faulty { argv, fault: c.fault })
            .collect();
        match c.fault {
            Fault::SizeLimit(k) => {
                out.push(Faulty { argv: c.argv.clone(), fault: Fault::DeviceFull });
                for k in [0, k / 2, k.saturating_sub(1)] {
                    out.push(Faulty { argv: c.argv.clone(), fault: Fault::SizeLimit(k) });
                }
            }
            Fault::ReaderLeaves(k) => {
                out.push(Faulty { argv: c.argv.clone(), fault: Fault::ClosedPipe });
                for k in [0, k / 2, k.saturating_sub(1)] {
                    out.push(Faulty { argv: c.argv.clone(), fault: Fault::ReaderLeaves(k) });
                }
            }
            _ => {}
        }
        out.retain(|f| f != c);
        out
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Faulty>> {
        // every number of bytes for one short command line of each mode
        let lines: Vec<Argv> = vec![
            vec!["192.168.2.4/24".into()],
            vec!["1::2/100".into(), "10.0.0.0/31".into()],
            vec!["-m".into(), "10.0.0.0/24".into(), "10.0.2.0/24".into()],
            vec!["-d".into(), "10.0.0.1".into(), "10.0.0.30".into()],
            vec!["-s".into(), "10.0.0.0/28".into(), "5".into(), "2".into()],
            vec!["-s".into(), "10.0.0.0/28".into(), "5".into(), "20".into()],
            vec!["-r".into(), "10.0.0.0/30".into(), "31".into()],
            vec!["-e".into(), "1::/123".into()],
            vec!["--color-test".into()],
        ];
        let step = if tier == Tier::Quick { 7 } else { 1 };
        let mut out: Vec<Faulty> = Vec::new();
        for argv in lines {
            for fault in [Fault::DeviceFull, Fault::ClosedPipe, Fault::MessagesFull, Fault::MessagesClosed] {
                out.push(Faulty { argv: argv.clone(), fault });
            }
            for k in (0..2400).step_by(step) {
                out.push(Faulty { argv: argv.clone(), fault: Fault::SizeLimit(k) });
            }
        }
        // messages of every mode
        for argv in [
            vec![],
            vec!["--help"],
            vec!["x"],
            vec!["10.0.0.0/33"],
            vec!["-m"],
            vec!["-m", "x"],
            vec!["-m", "10.0.0.0/8", "::/0"],
            vec!["-d", "10.0.0.1"],
            vec!["-d", "10.0.0.1", "x"],
            vec!["-d", "10.0.0.1", "::1"],
            vec!["-s", "10.0.0.0/8"],
            vec!["-s", "10.0.0.0/8", "x"],
            vec!["-s", "10.0.0.0/30", "2", "2"],
            vec!["-s", "x", "1"],
            vec!["-r", "10.0.0.0/8"],
            vec!["-r", "10.0.0.0/8", "33"],
            vec!["-r", "10.0.0.0/8", "x"],
            vec!["-r", "10.0.0.0/8", "ffff::"],
            vec!["-e"],
            vec!["-e", "x"],
            vec!["-e", "10.0.0.0/30", "x", "::/126"],
            vec!["-e", "x", "10.0.0.0/30", "y"],
        ] {
            for fault in [Fault::MessagesFull, Fault::MessagesClosed] {
                // (both builds: the number of arguments decides)
                for argv in [argv.clone(), [argv.clone(), vec!["x"]].concat()] {
                    out.push(Faulty { argv: argv.into_iter().map(Into::into).collect(), fault });
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Faulty, x: &mut Exec) -> R<Verdict> {
        let whole = x.run_proc(&c.argv, false, Profile::Dev)?;
        if !whole.clean() {
            return violation(format!("undisturbed: {}", whole.describe()));
        }
        let total = whole.out.len() as u64;
        // dense around the end of the output: interpret large limits relative to it
        let fault = match c.fault {
            Fault::SizeLimit(k) if k > total + 2 => Fault::SizeLimit(match k % 4 {
                0 => total,
                1 => total.saturating_sub(1),
                2 => total + 1,
                _ => k % (total + 2),
            }),
            Fault::ReaderLeaves(k) if k > total => Fault::ReaderLeaves(k % (total + 1)),
            f => f,
        };
        let out = x.run_faulty(&c.argv, fault, if c.argv.len() % 2 == 0 { Profile::Dev } else { Profile::Release })?;
        if !whole.out.starts_with(&out.out) {
            return violation(format!("{:?}: what was delivered is not the beginning of the output: {}", fault, out.describe()));
        }
        let got = out.out.len() as u64;
        if matches!(fault, Fault::MessagesFull | Fault::MessagesClosed) {
            let some = !whole.err.is_empty();
            if !some && (got != total || out.status != whole.status) {
                return violation(format!("{:?}: there are no messages, but the result is {} instead of {}", fault, out.describe(), whole.describe()));
            }
            if out.status == Status::Code(0) && whole.status != Status::Code(0) {
                return violation(format!("{:?}: the status is 0 instead of {:?} when messages cannot be written", fault, whole.status));
            }
            return match out.status {
                Status::Code(_) | Status::Signal(libc::SIGPIPE) => Ok(Verdict::new(some).label(true, which(&c.argv).label()).label(true, "messages")),
                _ => violation(format!("{:?}: {}", fault, out.describe())),
            };
        }
        let (lost, delivered) = match fault {
            Fault::SizeLimit(k) => {
                if k >= total && got != total {
                    return violation(format!("{:?}: only {} of {} bytes were written although there was room", fault, got, total));
                }
                (got < total, got == total)
            }
            Fault::ClosedPipe | Fault::DeviceFull => (total > 0, total == 0),
            // what the pipe still holds when its reader leaves was written all right
            Fault::ReaderLeaves(n) => (total > n + 4096, total <= n),
            _ => unreachable!(),
        };
        if lost && out.status == Status::Code(0) {
            return violation(format!("{:?}: {} of {} bytes arrived, but the exit status is 0", fault, got, total));
        }
        match out.status {
            // what other programs do when nobody reads their output
            Status::Code(_) | Status::Signal(libc::SIGPIPE) => {}
            _ => return violation(format!("{:?}: {}", fault, out.describe())),
        }
        if delivered && out.status != whole.status {
            return violation(format!("{:?}: everything was written, but the status is {:?} instead of {:?}", fault, out.status, whole.status));
        }
        let kind = match fault {
            Fault::SizeLimit(_) => "file-size limit",
            Fault::ClosedPipe => "no reader",
            Fault::ReaderLeaves(_) => "reader leaves",
            _ => "device full",
        };
        Ok(Verdict::new(lost).label(true, which(&c.argv).label()).label(true, kind).label(lost && got > 0, "cut in the middle"))
    }
}

// ------------------------------------------------------------------------------------------------

pub struct C25;

/// Whether a line of standard output is one that the mode may print. Split also says there that a
/// split is impossible.
fn is_result_line(w: Which, l: &str) -> bool {
    let t = l.trim_end();
    let addr = |s: &str| s.parse::<std::net::IpAddr>().is_ok();
    let headed = |before: &str, after: &str| {
        t.strip_prefix(before)
            .and_then(|r| r.strip_suffix(after))
            .map_or(false, |n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
    };
    match w {
        Which::None | Which::Help => false,
        Which::ColorTest => true,
        Which::Minimize | Which::Derange => parse_shown_net(t).is_some(),
        Which::Enumerate => addr(t),
        Which::Report => t.is_empty() || parse_row(l).is_ok(),
        Which::Resize => t.is_empty() || parse_row(l).is_ok() || ["Original network:", "Supernet:", "Same-sized net:"].contains(&t) || headed("Subnet ", ":"),
        Which::Split => {
            let low = t.to_lowercase();
            t.is_empty()
                || parse_row(l).is_ok()
                || ["Subnet to split:", "Unused networks:"].contains(&t)
                || headed("Subnet for ", " hosts:")
                || parse_shown_net(t).is_some()
                || low.contains("too small")
                || low.contains("not enough")
        }
    }
}

impl Property for C25 {
    type Case = Argv;
    const ID: &'static str = "C25";
    const RULE: &'static str = "command lines of every mode with zero to three edits, as for C14, with more control characters, escape sequences and invalid UTF-8 in the arguments, on the regular and the batch build, standard output and standard error read separately. Every line of standard output must be one of the lines its mode prints (networks, addresses, rows, headings); what is not a result must be on standard error: nothing there with status 0 (the usage of --help excepted), a message with status 1. Neither stream may carry a control character other than the line break or be anything but UTF-8, and both end with a line break. Non-trivial: a message, or an argument with a control character or one that is not Unicode.";
    const ASSUMPTIONS: &'static [&'static str] = &["That a split is impossible is a result of split, which the program prints on standard output.", "--color-test prints no lines and is excluded."];
    const QUICK: u64 = 500_000;
    fn gen(&self, g: &mut Gen) -> Argv {
        loop {
            let mut v = fuzzed(g);
            if !v.is_empty() && g.chance(1, 3) {
                // something a terminal would obey, inside an argument or as one
                let evil = *g.pick(&[
                    &b"\x1b[31m"[..], b"\x1b]0;x\x07", b"\x1b[2J", b"\r", b"\n", b"\x07", b"\x08", b"\x7f", b"\x01", b"\t", b"\xc2\x9b31m", b"\xc2\x85", b"\xff", b"\xe2\x80\xae", b"\xe2\x80\xa8",
                    b"\n10.0.0.0/8", b"\r\n1.2.3.4", b"{}", b"%s%n", b"\"", b"\\",
                ]);
                let i = g.below(v.len() as u64) as usize;
                let at = g.below(v[i].0.len() as u64 + 1) as usize;
                v[i].0.splice(at..at, evil.iter().copied());
            }
            if bounded(&v) && which(&v) != Which::ColorTest {
                return v;
            }
        }
    }
    fn shrink(&self, c: &Argv) -> Vec<Argv> {
        let mut out = simpler_argv(c);
        out.retain(|v| bounded(v) && which(v) != Which::ColorTest);
        out
    }
    fn systematic(&self, tier: Tier) -> Box<dyn Iterator<Item = Argv>> {
        let mut out: Vec<Argv> = C14.systematic(tier).collect();
        // every mode with every control character in every argument
        for line in [&["10.0.0.0/30"][..], &["-m", "10.0.0.0/9", "10.128.0.0/9"], &["-d", "1::1", "1::9"], &["-s", "10.0.0.0/24", "5", "6"], &["-r", "1::/64", "66"], &["-e", "1.2.3.4/30", "1::/126"]] {
            let first = if line[0].starts_with('-') { 1 } else { 0 };
            for b in (1u8..32).chain([34, 92, 127, 128, 255]) {
                for i in first..line.len() {
                    for at in [0, line[i].len() / 2, line[i].len()] {
                        let mut v: Argv = line.iter().map(|s| Arg::from(*s)).collect();
                        v[i].0.insert(at, b);
                        out.push(v);
                    }
                }
            }
        }
        out.retain(|v| bounded(v) && which(v) != Which::ColorTest);
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Argv, x: &mut Exec) -> R<Verdict> {
        let out = x.run(c)?;
        if !out.clean() {
            return violation(out.describe());
        }
        let w = which(c);
        let lines = out.lines()?;
        for l in &lines {
            if let Some(ch) = l.chars().find(|ch| ch.is_control()) {
                return violation(format!("the control character {:?} in the line {:?}", ch, clip(l)));
            }
            if !is_result_line(w, l) {
                return violation(format!("standard output of {} has the line {:?}", w.label(), clip(l)));
            }
        }
        let Ok(err) = std::str::from_utf8(&out.err) else { return violation(format!("the message is not valid UTF-8: {}", out.describe())) };
        if let Some(ch) = err.chars().find(|ch| ch.is_control() && *ch != '\n') {
            return violation(format!("the control character {:?} in the message {:?}", ch, clip(err)));
        }
        if !err.is_empty() && !err.ends_with('\n') {
            return violation(format!("the message does not end with a line break: {:?}", clip(err)));
        }
        match out.status {
            Status::Code(0) => {
                if !err.is_empty() && w != Which::Help {
                    return violation(format!("success, but on standard error there is {:?}", clip(err)));
                }
            }
            _ => {
                // split's verdict on an impossible split is among its results
                let said = w == Which::Split && lines.iter().any(|l| l.to_lowercase().contains("not enough") || l.to_lowercase().contains("too small"));
                if err.trim().is_empty() && !said {
                    return violation(format!("refused without a message on standard error: {}", out.describe()));
                }
                if w == Which::None && !out.out.is_empty() {
                    return violation(format!("the usage on standard output: {}", out.describe()));
                }
            }
        }
        let odd = c.iter().any(|a| std::str::from_utf8(&a.0).map_or(true, |t| t.chars().any(|c| c.is_control())));
        Ok(Verdict::new(!err.is_empty() || odd)
            .label(true, w.label())
            .label(!err.is_empty(), "a message")
            .label(odd, "a control character, or not Unicode")
            .label(!err.is_empty() && !lines.is_empty(), "results and messages"))
    }
}

// ------------------------------------------------------------------------------------------------

/// How the system accepts output.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pieces {
    pub argv: Argv,
    pub seed: u64,
    /// Most bytes per write (0: any number).
    pub most: u64,
    /// Percentage of interrupted writes.
    pub interrupted: u64,
    /// Percentage of writes that are refused for the moment.
    #[serde(default)]
    pub again: u64,
    /// The bytes after which writing fails for good, and the error.
    pub fails: Option<(u64, i32)>,
}
pub struct C26;
impl Property for C26 {
    type Case = Pieces;
    const ID: &'static str = "C26";
    const RULE: &'static str = "command lines of every mode, --color-test included, with a preloaded library that lets each write to standard output take only some of the bytes offered (at most 1 to 5000, pseudo-randomly), interrupts up to 80 % of the writes (EINTR), in a third of the cases lets a non-blocking pipe refuse up to half of them for the moment (EAGAIN), and in half of the cases lets writing fail for good after any number of bytes (EIO, ENOSPC, EPIPE, EFBIG, EDQUOT). Without a failure everything must be as in an undisturbed run; with one, or when some were refused, what arrived must be the beginning of the undisturbed output, and the status must not be 0 unless nothing was missing. Non-trivial: at least two writes' worth of output.";
    const ASSUMPTIONS: &'static [&'static str] = &["The program writes through the C library (write, writev), as Rust programs on Linux do; the harness verifies that the library takes effect, or gives no answer."];
    const QUICK: u64 = 26_000;
    const FACTOR: u64 = 40;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Pieces {
        let argv = loop {
            let v = match g.below(20) {
                0 => fuzzed(g),
                1 => vec!["--color-test".into()],
                2 | 3 => {
                    let f = g.fam();
                    let hb = g.range(6, 12) as u32;
                    let m = g.mask_with_host_bits(f, hb);
                    vec!["-e".into(), Net::new(f, g.value(f), m).shown().into()]
                }
                _ => cmdline(g, 12),
            };
            if bounded(&v) {
                break v;
            }
        };
        let most = match g.below(6) {
            0 => 0,
            1 => 1,
            2 => g.range(2, 10),
            3 => g.range(2, 100),
            4 => 1 << g.range(1, 13),
            _ => g.range(2, 5000),
        };
        Pieces {
            argv,
            seed: g.below(1 << 20),
            most,
            interrupted: *g.pick(&[0, 0, 5, 30, 80]),
            again: *g.pick(&[0, 0, 0, 0, 0, 0, 1, 5, 20, 50]),
            fails: if g.chance(1, 2) {
                let k = match g.below(4) {
                    0 => g.below(20),
                    1 => g.below(300),
                    2 => 1024 * g.range(1, 16) + g.below(3) - 1,
                    _ => g.below(6000),
                };
                Some((k, *g.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EFBIG, libc::EDQUOT])))
            } else {
                None
            },
        }
    }
    fn shrink(&self, c: &Pieces) -> Vec<Pieces> {
        let mut out = Vec::new();
        if c.fails.is_some() {
            out.push(Pieces { fails: None, ..c.clone() });
        }
        if c.interrupted > 0 {
            out.push(Pieces { interrupted: 0, ..c.clone() });
        }
        if c.again > 0 {
            out.push(Pieces { again: 0, ..c.clone() });
        }
        if c.most > 0 {
            out.push(Pieces { most: 0, ..c.clone() });
        }
        if c.seed > 0 {
            out.push(Pieces { seed: 0, ..c.clone() });
        }
        if let Some((k, e)) = c.fails {
            for k2 in [k / 2, k.saturating_sub(1)] {
                if k2 < k {
                    out.push(Pieces { fails: Some((k2, e)), ..c.clone() });
                }
            }
        }
        out.extend(simpler_argv(&c.argv).into_iter().filter(|v| bounded(v)).map(|argv| Pieces { argv, ..c.clone() }));
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Pieces>> {
        // one byte at a time, with and without interruptions, and failing after every number of bytes
        let lines: [&[&str]; 8] = [
            &["10.0.0.0/30"],
            &["-m", "10.0.0.0/9", "10.128.0.0/9", "11.0.0.0/8", "1.2.3.4/32"],
            &["-d", "1::1", "1::9"],
            &["-s", "10.0.0.0/24", "5", "6"],
            &["-r", "1::/64", "66"],
            &["-e", "1.2.3.4/30", "1::/126"],
            &["--color-test"],
            &["-e", "1.2.3.4/30", "x"],
        ];
        let mut out = Vec::new();
        for l in lines {
            let argv: Argv = l.iter().map(|s| Arg::from(*s)).collect();
            let base = Pieces { argv, seed: 1, most: 0, interrupted: 0, again: 0, fails: None };
            for most in [0, 1, 2, 3, 7, 64] {
                for interrupted in [0, 50] {
                    out.push(Pieces { most, interrupted, ..base.clone() });
                    out.push(Pieces { most, interrupted, again: 20, ..base.clone() });
                }
            }
            for k in (0..120).chain([200, 320, 400, 500, 519, 800, 1024, 2000]) {
                out.push(Pieces { fails: Some((k, libc::ENOSPC)), ..base.clone() });
                out.push(Pieces { fails: Some((k, libc::EIO)), most: 3, ..base.clone() });
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Pieces, x: &mut Exec) -> R<Verdict> {
        let profile = match x.mode {
            Mode::Proc(p) => p,
            Mode::Batch => Profile::Dev,
        };
        let plain = x.run_proc(&c.argv, false, profile)?;
        let mut config = format!("s={}", c.seed);
        if c.most > 0 {
            config.push_str(&format!(",w={}", c.most));
        }
        if c.interrupted > 0 {
            config.push_str(&format!(",e={}", c.interrupted));
        }
        if c.again > 0 {
            config.push_str(&format!(",a={}", c.again));
        }
        if let Some((k, e)) = c.fails {
            config.push_str(&format!(",x={},y={}", k, e));
        }
        let out = x.run_shim(&c.argv, &config, None, profile)?;
        let enough = c.again == 0 && c.fails.map_or(true, |(k, _)| k > plain.out.len() as u64);
        if enough {
            if out != plain {
                return violation(format!("undisturbed: {}; written in pieces: {}", plain.describe(), out.describe()));
            }
        } else {
            if !plain.out.starts_with(&out.out) {
                return violation(format!("what arrived is not the beginning of the output: {}; undisturbed: {}", out.describe(), plain.describe()));
            }
            match out.status {
                Status::Code(0) if out.out.len() < plain.out.len() => return violation(format!("{} of {} bytes arrived, but the status is 0", out.out.len(), plain.out.len())),
                Status::Code(_) | Status::Signal(libc::SIGPIPE) => {}
                _ => return violation(out.describe()),
            }
        }
        Ok(Verdict::new(plain.out.len() > 1 && (c.most > 0 || c.interrupted > 0 || !enough))
            .label(true, which(&c.argv).label())
            .label(c.most > 0, "short writes")
            .label(c.interrupted > 0, "interruptions")
            .label(c.again > 0, "refused for the moment")
            .label(!enough, "a failure"))
    }
}

// ------------------------------------------------------------------------------------------------

pub struct C28;
impl Property for C28 {
    type Case = Again;
    const ID: &'static str = "C28";
    const RULE: &'static str = "command lines as for C19, and unreadable ones, with random environment variables, working directory, name, standard input (a file, a pipe or, for a third of them together with both outputs, a terminal) and file contents, under a system call filter that ends the program if it creates, opens for writing, changes or removes a file, makes a socket, starts a process, sends a signal, reads from standard input, writes to it, changes settings of a terminal, flags or locks of open files, priorities, owners or a setting of the system; the filter is first verified to work. Afterwards the place in and the rest of standard input and the settings of the terminal are compared with what they were. Non-trivial: the program ended by itself after printing at least one line.";
    const ASSUMPTIONS: &'static [&'static str] = &["The filter takes effect before the program's own code runs; what the dynamic loader does before that is not the program's doing.", "System calls that are not on the list do not change anything outside the program; writing to standard output and standard error is its output."];
    const QUICK: u64 = 26_000;
    const FACTOR: u64 = 40;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Again {
        let mut c = C19.gen(g);
        if g.chance(1, 3) {
            c.argv = loop {
                let v = fuzzed(g);
                if bounded(&v) {
                    break v;
                }
            };
        }
        c
    }
    fn shrink(&self, c: &Again) -> Vec<Again> {
        C19.shrink(c)
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Again>> {
        let lines: [&[&str]; 10] = [&[], &["--help"], &["--color-test"], &["10.0.0.1/8"], &["-m", "1::/64", "1:0:0:1::/64"], &["-d", "1.2.3.4", "1.2.3.9"], &["-s", "10.0.0.0/24", "5"], &["-r", "10.0.0.0/24", "25"], &["-e", "10.0.0.0/29"], &["x"]];
        let argvs: Vec<Argv> = lines.iter().map(|l| l.iter().map(|a| Arg::from(*a)).collect()).collect();
        Box::new(argvs.into_iter().map(|argv| Again { argv, around: Around { vars: Vec::new(), dir: "/".into(), name: String::new(), input: String::new() }, world: World::default() }))
    }
    fn check(&self, c: &Again, x: &mut Exec) -> R<Verdict> {
        let profile = match x.mode {
            Mode::Proc(p) => p,
            Mode::Batch => Profile::Dev,
        };
        if !x.bins.confinement {
            return Err(Fail::Harness("system calls cannot be forbidden here".into()));
        }
        let files = !c.world.config.is_empty();
        let config = format!("z=1,{}", c_config(&c.world.config));
        // a third of them on a terminal of some width
        let n = c.argv.len() + c.around.vars.len() + c.argv.iter().map(|a| a.0.len()).sum::<usize>();
        let columns = if n % 3 == 0 { Some(20 + n as u16 % 180) } else { None };
        let (out, note) = x.run_confined(&c.argv, &config, &c.around, if files { Some(&c.world.file) } else { None }, columns, profile)?;
        if let Some(note) = note {
            return violation(format!("{}: {}", note, out.describe()));
        }
        match out.status {
            Status::Signal(libc::SIGSYS) => violation(format!("it tried to change something: {}", out.describe())),
            Status::Code(99) => Err(Fail::Harness("the filter could not be installed".into())),
            _ => Ok(Verdict::new(matches!(out.status, Status::Code(_)) && (out.out.contains(&b'\n') || out.err.contains(&b'\n')))
                .label(true, which(&c.argv).label())
                .label(files, "files present")
                .label(columns.is_some(), "on a terminal")
                .label(out.status != Status::Code(0), "not successful")),
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// How a part of a long list of networks looks.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    /// Single addresses with gaps between them.
    Isolated,
    /// Consecutive single addresses.
    Run,
    /// Two neighbouring addresses, a gap, and so on.
    Pairs,
    /// An address and the network beside it, the network beside both, and so on.
    Chain,
    /// Networks within networks.
    Nested,
    /// A network, and many smaller ones within it.
    Covered,
    /// One network, again and again.
    Same,
    /// The members of a lopsided network.
    Members,
    /// Pairs of lopsided networks that can be joined.
    LopsidedPairs,
    /// Lopsided networks that have nothing in common but their base address.
    Crossing,
    /// Random networks.
    Random,
    /// Networks with any mask.
    Lopsided,
    /// Nothing that can be read.
    Junk,
}
const SHAPES: [Shape; 13] =
    [Shape::Isolated, Shape::Run, Shape::Pairs, Shape::Chain, Shape::Nested, Shape::Covered, Shape::Same, Shape::Members, Shape::LopsidedPairs, Shape::Crossing, Shape::Random, Shape::Lopsided, Shape::Junk];
impl Shape {
    /// Up to `count` networks, determined by `seed`.
    fn texts(self, fam: Fam, count: usize, seed: u64) -> Vec<String> {
        let n = fam.bits();
        let mut s = seed | 1;
        let mut random = || {
            let mut v = 0u128;
            for _ in 0..5 {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v = v << 31 | (s >> 33) as u128;
            }
            v & fam.ones()
        };
        // at least 2^20 addresses in a row
        let base = random() & !fam.prefix_mask(n) | random() & fam.prefix_mask(n - 20);
        let host = |v: u128| Net::cidr(fam, base.wrapping_add(v) & fam.ones(), n).shown();
        let few = random();
        let mut hole = |bits: u32| {
            let mut m = 0u128;
            while m.count_ones() < bits {
                m |= 1 << (random() % n as u128) as u32;
            }
            m
        };
        let scattered = hole(13);
        let c = count as u128;
        match self {
            Shape::Isolated => (0..c).map(|i| host(2 * i)).collect(),
            Shape::Run => (0..c).map(host).collect(),
            Shape::Pairs => (0..c).map(|i| host(4 * (i / 2) + i % 2)).collect(),
            Shape::Chain => (0..c.min(n as u128 - 1)).map(|i| if i == 0 { Net::cidr(fam, 0, n).shown() } else { Net::cidr(fam, 1 << (i - 1), n + 1 - i as u32).shown() }).collect(),
            Shape::Nested => (0..c.min(n as u128)).map(|i| Net::cidr(fam, few, n - i as u32).shown()).collect(),
            Shape::Covered => (0..c).map(|i| Net::cidr(fam, base + 3 * i, if i == 0 { n - 20 } else { n - (seed as u128 % 3 * i % 3) as u32 }).shown()).collect(),
            Shape::Same => (0..c).map(|_| Net::cidr(fam, few, 1 + seed as u32 % n).shown()).collect(),
            Shape::Members => (0..c).map(|i| Net::new(fam, base & !scattered | pdep(i, scattered), fam.ones()).shown()).collect(),
            Shape::LopsidedPairs => (0..c)
                .map(|i| {
                    // (the lowest two bits belong to the network)
                    let low = scattered & !3;
                    Net::new(fam, pdep(i / 2, fam.ones() & !low & !3) << 2 & fam.ones() | (i % 2), fam.ones() & !low).shown()
                })
                .collect(),
            Shape::Crossing => (0..c).map(|_| Net::new(fam, base, fam.ones() & !hole(3)).shown()).collect(),
            Shape::Random => (0..c).map(|_| Net::cidr(fam, hole(n / 2), n - (seed % 9) as u32).shown()).collect(),
            Shape::Lopsided => (0..c).map(|i| Net::new(fam, hole(n / 2), fam.ones() & !hole(1 + i as u32 % 8)).shown()).collect(),
            Shape::Junk => (0..c).map(|i| format!("{}x{}", i, few)).collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Long {
    /// A mode that takes networks, in the order of the parts or shuffled.
    Nets { mode: u8, fam: Fam, parts: Vec<(Shape, u16, u64)>, shuffle: Option<u64> },
    /// Splitting; each host count so many times.
    Counts { net: Net, counts: Vec<(u128, u16)>, shuffle: Option<u64> },
    /// Options and a few arguments, one of them this text repeated.
    Text { before: Vec<String>, text: String, times: u32, after: Vec<String> },
    /// Few arguments, much output.
    Output { argv: Vec<String> },
}
impl Long {
    const MOST: u32 = 5000;
    fn good(&self) -> bool {
        match self {
            Long::Nets { parts, .. } => {
                // (chains take one pass per link)
                let most = if parts.iter().any(|p| p.0 == Shape::Chain) { Self::MOST / 2 } else { Self::MOST };
                !parts.is_empty() && parts.iter().map(|p| p.1 as u32).sum::<u32>() <= most
            }
            Long::Counts { counts, net, .. } => net.prefix().is_some() && !counts.is_empty() && counts.iter().map(|p| p.1 as u32).sum::<u32>() <= Self::MOST,
            Long::Text { text, times, .. } => text.len() * *times as usize <= 120_000,
            Long::Output { .. } => true,
        }
    }
    fn argv(&self) -> Vec<String> {
        match self {
            Long::Nets { mode, fam, parts, shuffle } => {
                let mut nets: Vec<String> = parts.iter().flat_map(|(shape, n, seed)| shape.texts(*fam, *n as usize, *seed)).collect();
                if let Some(s) = shuffle {
                    fixed_shuffle(&mut nets, *s);
                }
                let mut out: Vec<String> = match mode {
                    0 => vec![],
                    1 => vec!["-m".into()],
                    2 => {
                        // (few members each)
                        nets = nets.iter().map(|t| parse_shown_net(t).map_or(t.clone(), |n| Net::new(n.fam, n.base, n.mask | n.fam.ones() & !15).shown())).collect();
                        vec!["-e".into()]
                    }
                    _ => vec!["--minimize".into()],
                };
                out.extend(nets);
                out
            }
            Long::Counts { net, counts, shuffle } => {
                let mut all: Vec<String> = counts.iter().flat_map(|(c, n)| (0..*n).map(|_| c.to_string())).collect();
                if let Some(s) = shuffle {
                    fixed_shuffle(&mut all, *s);
                }
                let mut out = vec!["-s".to_string(), net.shown()];
                out.extend(all);
                out
            }
            Long::Text { before, text, times, after } => {
                let mut out = before.clone();
                out.push(text.repeat(*times as usize));
                out.extend(after.iter().cloned());
                out
            }
            Long::Output { argv } => argv.clone(),
        }
    }
    fn label(&self) -> &'static str {
        match self {
            Long::Nets { mode: 0, .. } => "report",
            Long::Nets { mode: 2, .. } => "enumerate",
            Long::Nets { .. } => "minimize",
            Long::Counts { .. } => "split",
            Long::Text { .. } => "long argument",
            Long::Output { .. } => "much output",
        }
    }
}
fn long_texts() -> Vec<Long> {
    let mut out = Vec::new();
    let places: [(&[&str], &[&str]); 9] =
        [(&[], &[]), (&["-m", "1.2.3.4/32"], &[]), (&["-d"], &["1.2.3.4"]), (&["-d", "::"], &[]), (&["-r"], &["24"]), (&["-r", "10.0.0.0/8"], &[]), (&["-s", "10.0.0.0/8"], &["3"]), (&["-s"], &["3"]), (&["-e"], &[])];
    for (before, after) in places {
        for (text, times) in [("1.", 60_000), ("1:", 60_000), (":", 120_000), ("0", 120_000), ("9", 120_000), ("/", 120_000), ("1/", 60_000), ("é", 60_000), ("::1.2.3.4/", 12_000), ("-", 120_000), ("255.255.255.255", 8_000), ("ffff:", 24_000), ("\n", 120_000), ("x", 120_000), ("\u{301}\"", 40_000)] {
            out.push(Long::Text { before: before.iter().map(|s| s.to_string()).collect(), text: text.into(), times, after: after.iter().map(|s| s.to_string()).collect() });
        }
    }
    out
}

pub struct C29;
impl Property for C29 {
    type Case = Long;
    const ID: &'static str = "C29";
    const RULE: &'static str = "the release build with up to 5000 networks (2500 if some are chained; in parts of thirteen shapes: isolated, consecutive, paired, chained, nested, covered by one, repeated, lopsided in four ways, random, unreadable; in order or shuffled) to report, minimize or enumerate, up to 5000 host counts to split by, arguments of up to 120,000 bytes in every place, and short command lines with up to 2^18 lines of output (the long arguments in the development build too), under a limit of 8 s of processor time and 1 GiB of memory; the status is 0 or 1. Non-trivial: more than 500 arguments, an argument of more than 10,000 bytes, or more than 5000 lines of output.";
    const ASSUMPTIONS: &'static [&'static str] = &["8 s of processor time are more than five times what the unchanged program needs in the worst case generated."];
    const QUICK: u64 = 3000;
    const FACTOR: u64 = 25;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Long {
        loop {
            let shuffle = if g.chance(1, 2) { Some(g.u64()) } else { None };
            let mut budget = if g.chance(1, 2) { Self::most() } else { g.range(500, Self::most() as u64) as u32 };
            let c = match g.weighted(&[12, 4, 1, 1]) {
                0 => {
                    let fam = g.fam();
                    let mut parts = Vec::new();
                    let k = g.range(1, 4);
                    for i in 0..k {
                        let n = if i + 1 == k { budget } else { g.range(1, budget.max(2) as u64 - 1) as u32 };
                        let shape = if g.chance(1, 40) { Shape::Junk } else { *g.pick(&SHAPES[..12]) };
                        parts.push((shape, n as u16, g.u64()));
                        budget -= n;
                        if budget == 0 {
                            break;
                        }
                    }
                    g.shuffle(&mut parts);
                    Long::Nets { mode: g.weighted(&[1, 6, 1, 2]) as u8, fam, parts, shuffle }
                }
                1 => {
                    let fam = g.fam();
                    let hb = if g.chance(1, 2) { g.range(8, 20) } else { g.range(8, fam.bits() as u64) } as u32;
                    let net = Net::cidr(fam, g.value(fam), fam.bits() - hb);
                    let mut counts = Vec::new();
                    let k = g.range(1, 5);
                    for i in 0..k {
                        let n = if i + 1 == k { budget } else { g.range(1, budget.max(2) as u64 - 1) as u32 };
                        let v = if g.chance(1, 2) { g.below(300) as u128 } else { g.u128() >> (128 - hb.saturating_sub(11).max(1)) };
                        counts.push((v, n as u16));
                        budget -= n;
                        if budget == 0 {
                            break;
                        }
                    }
                    Long::Counts { net, counts, shuffle }
                }
                2 => {
                    let mut c = g.pick(&long_texts()).clone();
                    if let Long::Text { text, times, .. } = &mut c {
                        if g.chance(1, 2) {
                            *text = (0..1 + g.small(12)).map(|_| *g.pick(&['0', '1', '9', '.', ':', '/', '-', 'f', 'F', 'x', ' ', '+', 'é'])).collect();
                            *times = (g.range(1000, 120_000) / text.len() as u64) as u32;
                        }
                    }
                    c
                }
                _ => {
                    let fam = g.fam();
                    let hb = g.range(10, 18) as u32;
                    let m = g.mask_with_host_bits(fam, hb);
                    let net = Net::new(fam, g.value(fam), m);
                    let argv = if g.chance(1, 2) {
                        vec!["-e".to_string(), net.shown()]
                    } else {
                        let extra = g.range(8, 12) as u32;
                        let p = g.range(0, (fam.bits() - extra) as u64) as u32;
                        vec!["-r".to_string(), Net::cidr(fam, g.value(fam), p).shown(), (p + extra).to_string()]
                    };
                    Long::Output { argv }
                }
            };
            if c.good() {
                return c;
            }
        }
    }
    fn shrink(&self, c: &Long) -> Vec<Long> {
        let mut out = Vec::new();
        match c {
            Long::Nets { mode, fam, parts, shuffle } => {
                if shuffle.is_some() {
                    out.push(Long::Nets { mode: *mode, fam: *fam, parts: parts.clone(), shuffle: None });
                }
                let mut variants = shorter(parts, 1);
                variants.extend(simpler_elements(parts, |(s, n, seed)| {
                    let mut v = Vec::new();
                    if *n > 1 {
                        v.extend([(*s, n / 2, *seed), (*s, n - n / 4, *seed), (*s, n - n.div_ceil(16), *seed)]);
                    }
                    if *seed != 1 {
                        v.push((*s, *n, 1));
                    }
                    v
                }));
                out.extend(variants.into_iter().map(|parts| Long::Nets { mode: *mode, fam: *fam, parts, shuffle: *shuffle }));
            }
            Long::Counts { net, counts, shuffle } => {
                if shuffle.is_some() {
                    out.push(Long::Counts { net: *net, counts: counts.clone(), shuffle: None });
                }
                let mut variants = shorter(counts, 1);
                variants.extend(simpler_elements(counts, |(v, n)| {
                    let mut w = Vec::new();
                    if *n > 1 {
                        w.extend([(*v, n / 2), (*v, n - n / 4)]);
                    }
                    if *v > 0 {
                        w.extend([(0, *n), (v / 2, *n)]);
                    }
                    w
                }));
                out.extend(variants.into_iter().map(|counts| Long::Counts { net: *net, counts, shuffle: *shuffle }));
            }
            Long::Text { before, text, times, after } => {
                let make = |text: String, times: u32| Long::Text { before: before.clone(), text, times, after: after.clone() };
                out.push(make(text.clone(), times / 2));
                out.push(make(text.clone(), times - times / 4));
                out.extend(simpler_text(text).into_iter().map(|t| make(t, *times)));
            }
            Long::Output { .. } => {}
        }
        out.retain(|n| n.good() && n != c);
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Long>> {
        let mut out = long_texts();
        for fam in [Fam::V4, Fam::V6] {
            let nets = |mode: u8, parts: Vec<(Shape, u16, u64)>| Long::Nets { mode, fam, parts, shuffle: None };
            for a in SHAPES {
                for mode in 0..3 {
                    let most = if a == Shape::Chain { 2500 } else { 5000 };
                    out.push(nets(mode, vec![(a, most, 7)]));
                }
                for b in SHAPES {
                    if a != b && a != Shape::Junk && b != Shape::Junk {
                        let most = if a == Shape::Chain || b == Shape::Chain { 1250 } else { 2500 };
                        out.push(nets(1, vec![(a, most, 7), (b, most, 0x1234_5678_9ABC)]));
                    }
                }
            }
            let n = fam.bits();
            for hb in [12, 16, 24, n] {
                for v in [0, 1, 2, 6, 14, 1000, fam.ones() / 4096] {
                    out.push(Long::Counts { net: Net::cidr(fam, 0, n - hb), counts: vec![(v, 5000)], shuffle: None });
                }
            }
            for p in [0, 1, n / 2, n - 12] {
                let net = Net::cidr(fam, fam.ones(), p).shown();
                out.push(Long::Output { argv: vec!["-r".into(), net, (p + 12).to_string()] });
            }
            for m in [fam.prefix_mask(n - 18), fam.ones() >> 18, fam.ones() & !pdep(0x3FFFF, 0x5555_5555_5555_5555_5555_5555_5555_5555 & fam.ones() | 0xFFFF)] {
                out.push(Long::Output { argv: vec!["-e".into(), Net::new(fam, 0, m).shown()] });
            }
            out.push(Long::Output { argv: vec!["-d".into(), Addr::new(fam, 1).text(), Addr::new(fam, fam.ones() - 1).text()] });
        }
        out.retain(Long::good);
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Long, x: &mut Exec) -> R<Verdict> {
        let argv = c.argv();
        let out = x.run_proc(&argv, false, Profile::Release)?;
        match out.status {
            Status::Code(0 | 1) => {}
            _ => return violation(format!("{} with {} arguments: {}", c.label(), argv.len(), out.describe())),
        }
        if let Long::Text { .. } = c {
            // (for these, even the development build needs less than half a second)
            let dev = x.run_proc(&argv, false, Profile::Dev)?;
            if dev != out {
                return violation(format!("{}: release build {}, development build {}", c.label(), out.describe(), dev.describe()));
            }
        }
        let much = out.out.iter().filter(|b| **b == b'\n').count() > 5000;
        Ok(Verdict::new(argv.len() > 500 || much || argv.iter().any(|a| a.len() > 10_000)).label(true, c.label()).label(out.status == Status::Code(1), "refused"))
    }
}
impl C29 {
    fn most() -> u32 {
        Long::MOST
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Reduced {
    pub argv: Argv,
    pub color: bool,
    /// The optional features the program is built with.
    pub features: String,
}
pub struct C31;
impl C31 {
    /// What remains of the full program's output without the rows that need big numbers.
    fn without_counts(out: &[u8]) -> Vec<u8> {
        let mut rest = Vec::new();
        for line in out.split_inclusive(|b| *b == b'\n') {
            let plain = strip(line);
            if !plain.starts_with(b"Hosts/Net:") && !plain.starts_with(b"no hosts/net") {
                rest.extend_from_slice(line);
            }
        }
        rest
    }
    /// Messages, without the lines that explain splitting.
    fn without_split(err: &[u8]) -> Vec<u8> {
        err.split_inclusive(|b| *b == b'\n').filter(|l| !l.windows(7).any(|w| w == b"--split")).flatten().copied().collect()
    }
}
impl Property for C31 {
    type Case = Reduced;
    const ID: &'static str = "C31";
    const RULE: &'static str = "command lines of every mode, readable and not, with and without forced colours, each run in the full program and in one of the three programs built with fewer optional features (none, only console, only num-bigint); output, messages and status must be those of the full program, except that without num-bigint the rows with the number of hosts are missing and splitting is refused, and without console there are no colours. Non-trivial: the full program printed at least one line that must also come from the other.";
    const ASSUMPTIONS: &'static [&'static str] = &["What the full program prints is judged by the other properties.", "Development builds."];
    const QUICK: u64 = 30_000;
    const FACTOR: u64 = 30;
    const PROCESS_ONLY: bool = true;
    fn gen(&self, g: &mut Gen) -> Reduced {
        let argv = loop {
            let v = if g.chance(1, 4) {
                fuzzed(g)
            } else if g.chance(1, 60) {
                vec!["--color-test".into()]
            } else {
                cmdline(g, 20)
            };
            if bounded(&v) {
                break v;
            }
        };
        Reduced { argv, color: g.chance(1, 3), features: g.pick(&["", "console", "num-bigint"]).to_string() }
    }
    fn shrink(&self, c: &Reduced) -> Vec<Reduced> {
        let mut out: Vec<Reduced> = simpler_argv(&c.argv).into_iter().filter(|v| bounded(v)).map(|argv| Reduced { argv, ..c.clone() }).collect();
        if c.color {
            out.push(Reduced { color: false, ..c.clone() });
        }
        if !c.features.is_empty() {
            out.push(Reduced { features: String::new(), ..c.clone() });
        }
        out
    }
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Reduced>> {
        let lines: [&[&str]; 14] = [
            &[], &["--help"], &["--color-test"], &["10.0.0.1/8"], &["10.0.0.1/31", "1::/127", "1::2/128"], &["1::/10", "1.2.3.4/255.0.255.0"], &["-m", "1::/64", "1:0:0:1::/64"],
            &["-d", "1.2.3.4", "1.2.3.9"], &["-s", "10.0.0.0/24", "5"], &["--split", "1::/64", "5", "9"], &["-r", "10.0.0.0/24", "25"], &["-r", "10::/65", "63"], &["-e", "10.0.0.0/29"], &["x"],
        ];
        let mut out = Vec::new();
        for l in lines {
            for features in ["", "console", "num-bigint"] {
                for color in [false, true] {
                    out.push(Reduced { argv: l.iter().map(|a| Arg::from(*a)).collect(), color, features: features.into() });
                }
            }
        }
        Box::new(out.into_iter())
    }
    fn check(&self, c: &Reduced, x: &mut Exec) -> R<Verdict> {
        let console = c.features == "console";
        let big = c.features == "num-bigint";
        let full = x.run_proc(&c.argv, c.color && console, Profile::Dev)?;
        let out = x.run_reduced(&c.argv, c.color, &c.features)?;
        let splits = which(&c.argv) == Which::Split;
        if splits && !big {
            // (its usage text or a complaint about an unreadable network)
            out.refused()?;
            return Ok(Verdict::new(false).label(true, "splitting, which is not there"));
        }
        let want = if big { full.out.clone() } else { C31::without_counts(&full.out) };
        let messages = if big { (full.err.clone(), out.err.clone()) } else { (C31::without_split(&full.err), C31::without_split(&out.err)) };
        if out.status != full.status || out.out != want || messages.0 != messages.1 {
            return violation(format!("the full program: {}; with only these optional features: {:?}: {}", full.describe(), c.features, out.describe()));
        }
        Ok(Verdict::new(full.status == Status::Code(0) && want.contains(&b'\n'))
            .label(true, which(&c.argv).label())
            .label(c.color, "colours forced")
            .label(full.status != Status::Code(0), "not successful")
            .label(c.features.is_empty(), "no optional features")
            .label(console, "only console")
            .label(big, "only num-bigint"))
    }
}
