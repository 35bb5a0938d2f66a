//! Reads the program's reports and compares them with the model.

use crate::exec::{violation, Fail, R};
use crate::model::*;

pub const LABEL_COL: usize = 11;
pub fn binary_col(fam: Fam) -> usize {
    match fam {
        Fam::V4 => 32,
        Fam::V6 => 57,
    }
}

/// One row: label, value, and whatever follows it (binary column or class).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Row {
    pub label: String,
    pub value: String,
    pub extra: String,
}

pub const LABELS: [&str; 8] = ["Address:", "Netmask:", "Wildcard:", "Network:", "HostMin:", "HostMax:", "Broadcast:", "Hosts/Net:"];
const BARE: [&str; 4] = ["=>", "no hosts", "no broadcast", "no hosts/net"];

pub fn is_row(line: &str) -> bool {
    let t = line.trim_end();
    BARE.contains(&t) || LABELS.iter().any(|l| t.starts_with(l))
}

pub fn parse_row(line: &str) -> R<Row> {
    let t = line.trim_end();
    if BARE.contains(&t) {
        return Ok(Row { label: t.into(), value: String::new(), extra: String::new() });
    }
    for l in LABELS {
        if let Some(rest) = t.strip_prefix(l) {
            let toks: Vec<&str> = rest.split_whitespace().collect();
            if toks.is_empty() {
                return violation(format!("row without a value: {:?}", line));
            }
            let n = if l == "Netmask:" && toks.len() >= 3 && toks[1] == "=" { 3 } else { 1 };
            return Ok(Row { label: l.into(), value: toks[..n].join(" "), extra: toks[n..].join(" ") });
        }
    }
    violation(format!("not a row of a report: {:?}", line))
}

/// The rows a network's report must have: label, value, and the address whose bits follow (if any).
pub fn expected_rows(net: &Net, addr: Option<u128>) -> Vec<(&'static str, String, Option<u128>)> {
    let f = net.fam;
    let t = |v| fmt_addr(f, v);
    let mut rows: Vec<(&'static str, String, Option<u128>)> = Vec::new();
    if let Some(a) = addr {
        rows.push(("Address:", t(a), Some(a)));
        let m = match net.prefix() {
            Some(p) => format!("{} = {}", t(net.mask), p),
            None => t(net.mask),
        };
        rows.push(("Netmask:", m, Some(net.mask)));
        rows.push(("Wildcard:", t(net.wild()), Some(net.wild())));
        rows.push(("=>", String::new(), None));
    }
    rows.push(("Network:", net.shown_in_report(), Some(net.base)));
    match (net.host_min(), net.host_max()) {
        (Some(a), Some(b)) => {
            rows.push(("HostMin:", t(a), Some(a)));
            rows.push(("HostMax:", t(b), Some(b)));
        }
        _ => rows.push(("no hosts", String::new(), None)),
    }
    match net.broadcast() {
        Some(b) => rows.push(("Broadcast:", t(b), Some(b))),
        None => rows.push(("no broadcast", String::new(), None)),
    }
    match net.hosts() {
        Some(h) => rows.push(("Hosts/Net:", h.to_string(), None)),
        None => rows.push(("no hosts/net", String::new(), None)),
    }
    rows
}

/// Labels and values of a block of rows against the model.
pub fn check_rows(lines: &[&str], net: &Net, addr: Option<u128>) -> R<()> {
    let want = expected_rows(net, addr);
    let got: Vec<Row> = lines.iter().map(|l| parse_row(l)).collect::<R<_>>()?;
    for (i, (label, value, _)) in want.iter().enumerate() {
        match got.get(i) {
            None => return violation(format!("{}: the row {:?} is missing", describe(net), label)),
            Some(r) if r.label != *label || r.value != *value => {
                return violation(format!("{}: expected the row \"{} {}\", got \"{} {}\"", describe(net), label, value, r.label, r.value))
            }
            _ => {}
        }
    }
    if got.len() > want.len() {
        return violation(format!("{}: unexpected row {:?}", describe(net), got[want.len()]));
    }
    Ok(())
}
pub fn describe(net: &Net) -> String {
    format!("network {}", net.shown())
}

/// The lines of a report, split at empty lines.
pub fn blocks<'a>(lines: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut out: Vec<Vec<&str>> = Vec::new();
    let mut cur = Vec::new();
    for l in lines {
        if l.trim().is_empty() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(*l);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// A titled block: the heading without its colon and the rows.
#[derive(Clone, Debug)]
pub struct Titled<'a> {
    pub title: &'a str,
    pub rows: Vec<&'a str>,
}
/// Splits the output of resize or split into titled blocks; lines that are neither headings nor
/// rows go into the last element of the result.
pub fn titled<'a>(lines: &[&'a str]) -> R<(Vec<Titled<'a>>, Vec<&'a str>)> {
    let mut out: Vec<Titled> = Vec::new();
    let mut rest = Vec::new();
    for l in lines {
        let t = l.trim_end();
        if t.is_empty() {
            continue;
        }
        if is_row(l) && rest.is_empty() {
            match out.last_mut() {
                Some(b) => b.rows.push(l),
                None => return violation(format!("a row before any heading: {:?}", l)),
            }
        } else if rest.is_empty() && t.ends_with(':') && t != "Unused networks:" {
            out.push(Titled { title: &t[..t.len() - 1], rows: Vec::new() });
        } else {
            rest.push(t);
        }
    }
    Ok((out, rest))
}

/// The network a block of rows is about, taken from its Network row.
pub fn network_of(rows: &[&str]) -> R<Net> {
    for l in rows {
        let r = parse_row(l)?;
        if r.label == "Network:" {
            return parse_shown_net(&r.value).ok_or_else(|| Fail::Violation(format!("the Network row does not show a CIDR network: {:?}", l)));
        }
    }
    violation("a block without a Network row")
}

/// What `--split` printed.
#[derive(Clone, Debug)]
pub struct Split<'a> {
    pub original: Vec<&'a str>,
    pub slices: Vec<Titled<'a>>,
    pub unused: Vec<Net>,
    pub lists_unused: bool,
    pub complains: bool,
}
pub fn parse_split(text: &str) -> R<Split<'_>> {
    let lines: Vec<&str> = text.lines().collect();
    let (mut blocks, rest) = titled(&lines)?;
    if blocks.is_empty() || blocks[0].title != "Subnet to split" {
        return violation(format!("split does not begin with the network to split: {:?}", crate::exec::clip(text)));
    }
    let original = blocks.remove(0).rows;
    let mut s = Split { original, slices: blocks, unused: Vec::new(), lists_unused: false, complains: false };
    for l in rest {
        let low = l.to_lowercase();
        if l == "Unused networks:" {
            s.lists_unused = true;
        } else if low.contains("too small") || low.contains("not enough") {
            s.complains = true;
        } else if let (true, Some(n)) = (s.lists_unused, parse_shown_net(l)) {
            s.unused.push(n);
        } else {
            return violation(format!("unexpected line in the output of split: {:?}", l));
        }
    }
    Ok(s)
}

/// One character of coloured output with the style in force (SGR parameters since the last reset).
pub fn styled_chars(line: &str) -> Option<Vec<(char, String)>> {
    let mut out = Vec::new();
    let mut style = String::new();
    let mut it = line.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            if it.next() != Some('[') {
                return None;
            }
            let mut params = String::new();
            loop {
                let c = it.next()?;
                if c == 'm' {
                    break;
                }
                if !c.is_ascii_digit() && c != ';' {
                    return None;
                }
                params.push(c);
            }
            if params.is_empty() || params == "0" {
                style.clear();
            } else {
                style.push('[');
                style.push_str(&params);
            }
        } else {
            out.push((c, style.clone()));
        }
    }
    Some(out)
}
