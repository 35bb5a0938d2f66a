#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
HOOK = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^Add a verification hook"], text=True).split()
TECH = {
 "C01": "property-based testing against a u128 reference model",
 "C02": "property-based testing against a reference enumeration",
 "C03": "property-based testing against an interval model, metamorphic (order, repetition, idempotence), exhaustive small trees",
 "C04": "property-based testing with a validity predicate (exact set algebra on cubes), metamorphic",
 "C05": "property-based testing against a minimal-cover model, exhaustive small windows",
 "C06": "property-based testing against a reference model",
 "C07": "property-based testing against a bit-deposit model of network numbers",
 "C08": "property-based testing with a validity predicate over the printed blocks",
 "C09": "property-based testing with exact interval accounting",
 "C10": "property-based testing against an exact feasibility predicate",
 "C11": "metamorphic property-based testing (equivalent spellings, identical output)",
 "C12": "round-trip property-based testing against an independent formatter",
 "C13": "grammar-based fuzzing against an independent recogniser",
 "C14": "fuzzing of argument vectors with resource limits",
 "C15": "property-based testing: every printed row parsed and compared with its bits",
 "C16": "metamorphic property-based testing (colours on/off) and a style model",
 "C17": "property-based testing against a class model, systematic over top bytes",
 "C18": "metamorphic property-based testing (concatenation of single runs)",
 "C19": "differential property-based testing: repeated fresh processes in changed worlds, two build profiles",
 "C20": "property-based fault injection on standard output",
 "C21": "metamorphic property-based testing across modes (chains of invocations)",
 "C22": "property-based testing against a dispatch model",
 "C23": "property-based testing against a reference enumeration, with readers that leave",
 "C24": "grammar-based fuzzing against an independent recogniser, in every argument position",
 "C25": "fuzzing of argument vectors against a line grammar per mode and stream",
 "C26": "property-based fault injection into write(2): partial, interrupted, failing writes",
 "C27": "property-based testing (hypothesis) of the packaging script against an independent reader of packages and programs",
 "C28": "fuzzing of command lines and surroundings under a system call filter",
 "C29": "property-based stress testing with long inputs of many shapes under resource limits",
 "C30": "property-based testing (hypothesis) of the packaging recipe, in a model of makepkg",
 "C31": "differential property-based testing between builds with different optional features",
}
NOTE = "Generated-input search on the real program: no absence proof, but dense around the boundaries named in the evidence's rule. Trusts the oracle in harness/src (cross-checked by its own unit tests), cargo/rustc and, for speed only, the batch hook: no alarm is raised unless a fresh process of a regular (unhooked) build shows it, and 1/32 of all cases run on regular builds to begin with."
NOTE_P = "Generated-input search on the real, unhooked program in fresh processes of the development and release builds. Trusts the oracle in harness/src, cargo/rustc and the kernel's handling of the injected faults."
NOTE_DEB = "Generated-input search on the real script with the real git, strip, objdump/readelf, tar and ar of this system (strip is replaced by a stand-in for bare headers of foreign machines). Trusts the reader of packages and ELF files in harness/deb/deb.py, hypothesis, gcc. Other locales are made with localedef from the sources in /usr/share/i18n; if there are none, the runs in other locales are left out."
NOTE_ARCH = "Generated-input search on the real recipe with the real bash, git and coreutils; makepkg and cargo are replaced by stand-ins. Trusts the model of how makepkg calls a recipe (harness/deb/arch.py)."
checks = []
for id, t in TECH.items():
    checks.append({
        "property": id,
        "quick_cmd": f"./check.sh {id}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
        "evidence_file": f"evidence/{id}.json",
        "technique": t,
        "level": "fault_enumeration" if id in ("C20", "C26") else "exploration",
        "level_note": NOTE_DEB if id == "C27" else NOTE_ARCH if id == "C30" else NOTE_P if id in ("C19", "C20", "C23", "C26", "C28", "C29", "C31") else NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "--cfg ripcalc_batch", "enable": "RUSTFLAGS='--cfg ripcalc_batch -Coverflow-checks=on -Cdebug-assertions=on' cargo build --release (done by check.sh into /verif/build/batch)", "source_commits": HOOK},
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check builds the development, release and batch builds of /repo's working tree and the harness under /verif/build (ignored by git). A violation is shrunk and written to /verif/replays; run it again with ./check.sh --replay FILE.",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
