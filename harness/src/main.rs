//! `ripverif check ID | replay FILE | list` - see DESIGN.md. Run through ../check.sh, which builds
//! the program under test and passes the paths in the environment.

mod dict;
mod engine;
mod exec;
mod gen;
mod model;
mod props;
mod recog;
mod report;

use std::path::PathBuf;

use engine::{Setup, Tier};
use exec::{Bins, Exec, Mode, Profile};

macro_rules! properties {
    ($m:ident) => {
        $m! {
            props::show::C01, props::lists::C02, props::lists::C03, props::lists::C04, props::lists::C05,
            props::sizes::C06, props::sizes::C07, props::sizes::C08, props::sizes::C09, props::sizes::C10,
            props::text::C11, props::show::C12, props::text::C13, props::robust::C14, props::show::C15,
            props::robust::C16, props::show::C17, props::show::C18, props::robust::C19, props::robust::C20,
            props::cross::C21, props::text::C22, props::lists::C23, props::text::C24, props::robust::C25,
            props::robust::C26,
            props::robust::C28,
            props::robust::C29,
            props::robust::C31
        }
    };
}
macro_rules! ids {
    ($($p:path),*) => { vec![$(<$p as engine::Property>::ID),*] };
}

fn run(id: &str, setup: &Setup) -> i32 {
    macro_rules! go {
        ($($p:path),*) => {
            $(if id == <$p as engine::Property>::ID { return engine::run(&$p, setup); })*
        };
    }
    properties!(go);
    println!("ERROR no property {:?}", id);
    2
}
fn replay(id: &str, setup: &Setup, case: &serde_json::Value) -> i32 {
    macro_rules! go {
        ($($p:path),*) => {
            $(if id == <$p as engine::Property>::ID { return engine::replay(&$p, setup, case); })*
        };
    }
    properties!(go);
    println!("ERROR no property {:?}", id);
    2
}

/// Whether the batch build answers like the development build, so that it may be used at all.
fn batch_works(bins: &Bins) -> Result<(), String> {
    let lines: &[&[&str]] = &[
        &["10.0.0.1/8"],
        &["-e", "1::/126"],
        &["-m", "10.0.0.0/9", "10.128.0.0/9", "11.0.0.0/255.0.255.0"],
        &["-d", "10.0.0.1", "10.0.0.9"],
        &["-s", "10.0.0.0/24", "5", "60"],
        &["-r", "10.0.0.0/24", "26"],
        &["--help"],
        &["bogus"],
        &[],
    ];
    let mut x = Exec::new(bins, Mode::Batch).map_err(|e| format!("{:?}", e))?;
    for round in 0..2 {
        for l in lines {
            x.mode = Mode::Batch;
            let b = x.run_colored(l, round == 1).map_err(|e| format!("{:?}", e))?;
            let d = x.run_proc(l, round == 1, Profile::Dev).map_err(|e| format!("{:?}", e))?;
            if x.batch_deaths > 0 {
                return Err(format!("the batch server ended on {:?}", l));
            }
            if b != d && b.clean() && d.clean() {
                return Err(format!("{:?}: batch {}, regular {}", l, b.describe(), d.describe()));
            }
        }
    }
    Ok(())
}

/// Whether preloading works here.
fn shim_works(bins: &Bins) -> Result<(), String> {
    let mut x = Exec::new(bins, Mode::Proc(Profile::Dev)).map_err(|e| format!("{:?}", e))?;
    let line = ["10.0.0.0/24"];
    for profile in [Profile::Dev, Profile::Release] {
        let out = x.run_shim(&line, "x=5,y=28", None, profile).map_err(|e| format!("{:?}", e))?;
        let plain = x.run_proc(&line, false, profile).map_err(|e| format!("{:?}", e))?;
        if plain.out.len() > 5 && out.out.len() > 5 {
            return Err(format!("it has no effect on the {:?} build", profile));
        }
    }
    Ok(())
}
/// Whether system calls can be forbidden.
fn confinement_works(bins: &Bins) -> Result<(), String> {
    let mut x = Exec::new(bins, Mode::Proc(Profile::Dev)).map_err(|e| format!("{:?}", e))?;
    for profile in [Profile::Dev, Profile::Release] {
        let out = x.run_shim(&["10.0.0.0/24"], "z=2", None, profile).map_err(|e| format!("{:?}", e))?;
        if out.status != exec::Status::Signal(libc::SIGSYS) {
            return Err(out.describe());
        }
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let env = |n: &str| std::env::var(n).ok().filter(|v| !v.is_empty());
    if args.get(1).map(String::as_str) == Some("list") {
        for id in properties!(ids) {
            println!("{}", id);
        }
        return;
    }
    if args.get(1).map(String::as_str) == Some("selftest") {
        let n = args.get(2).and_then(|n| n.parse().ok()).unwrap_or(20_000);
        macro_rules! go {
            ($($p:path),*) => { 0 $(+ engine::selftest(&$p, n))* };
        }
        std::process::exit(properties!(go).min(1));
    }
    let (Some(cmd), Some(arg)) = (args.get(1), args.get(2)) else {
        eprintln!("usage: ripverif check ID | replay FILE | selftest [N] | list");
        std::process::exit(2);
    };
    let path = |n: &str| env(n).map(PathBuf::from);
    let (Some(dev), Some(release)) = (path("RIPVERIF_DEV"), path("RIPVERIF_RELEASE")) else {
        eprintln!("RIPVERIF_DEV and RIPVERIF_RELEASE must name the programs");
        std::process::exit(2);
    };
    let mut bins = Bins { dev, release, batch: path("RIPVERIF_BATCH"), shim: path("RIPVERIF_SHIM"), confinement: false, reduced: Vec::new() };
    for features in ["", "console", "num-bigint"] {
        // (set for C31 only)
        let Some(dir) = path("RIPVERIF_REDUCED") else { break };
        let name = if features.is_empty() { "nothing" } else { features };
        let program = dir.join(format!("{}.program", name));
        let built = if program.is_file() {
            Ok(program)
        } else {
            let log = std::fs::read_to_string(dir.join(format!("{}.log", name))).unwrap_or_default();
            if !log.contains("could not compile `ripcalc`") {
                // not the program's fault: no answer
                continue;
            }
            Err(log.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; "))
        };
        bins.reduced.push((features.to_string(), built));
    }
    let mut notes = Vec::new();
    if bins.batch.is_none() {
        notes.push("no batch build: every command line ran in a process of its own, and there were fewer".to_string());
    } else if let Err(e) = batch_works(&bins) {
        notes.push(format!("the batch build is not used ({}); every command line ran in a process of its own, and there were fewer", e));
        bins.batch = None;
    }
    if bins.shim.is_none() {
        notes.push("no C compiler: the world around the program is not changed (C19), C26 and C28 cannot be decided".to_string());
    } else if let Err(e) = shim_works(&bins) {
        notes.push(format!("the shim is not used ({})", e));
        bins.shim = None;
    } else if let Err(e) = confinement_works(&bins) {
        notes.push(format!("system calls cannot be forbidden here ({}), C28 cannot be decided", e));
    } else {
        bins.confinement = true;
    }
    for n in &notes {
        println!("note: {}", n);
    }
    let setup = Setup {
        root: path("RIPVERIF_ROOT").unwrap_or_else(|| PathBuf::from("/verif")),
        bins,
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        scale: env("RIPVERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        notes,
    };
    let status = match cmd.as_str() {
        "check" => run(arg, &setup),
        "replay" => {
            let text = std::fs::read_to_string(arg).unwrap_or_else(|e| {
                eprintln!("{}: {}", arg, e);
                std::process::exit(2);
            });
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| {
                eprintln!("{}: {}", arg, e);
                std::process::exit(2);
            });
            replay(v["property"].as_str().unwrap_or(""), &setup, &v["case"])
        }
        _ => {
            eprintln!("usage: ripverif check ID | replay FILE | selftest [N] | list");
            2
        }
    };
    std::process::exit(status);
}
