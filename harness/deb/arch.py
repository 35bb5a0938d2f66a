#!/usr/bin/env python3
"""C30: the recipe for Arch Linux packages, contrib/PKGBUILD.archlinux.

Property-based (hypothesis), with the driver of deb.py. The functions of the recipe are run as makepkg runs
them (bash, errexit, srcdir and pkgdir set, package() as the last one), with a stand-in for cargo.

    arch.py check | arch.py replay FILE
"""
import os, re, shutil, subprocess, tempfile

from hypothesis import strategies as st

import deb
from deb import Broken, NoAnswer, REPO, commits, git, make_history, need

deb.ID = "C30"
deb.RULE = ("histories of 0 to 40 commits (sometimes of up to 60,000, with one checked out whose name is almost that of another) with merged and unmerged branches, tags, detached heads and worktrees; programs of random bytes and modes; umasks; directories with blanks; an answer of cargo "
            "(success, failure of the build, of the tests); a program or licence that is missing; programs of an earlier build lying about; commands that fail. pkgver, build, check and package of the recipe are run as makepkg does; "
            "the version must be a valid one, contain the number of commits and an unambiguous beginning of the name of the commit, and must be newer than those of all earlier commits by pacman's rules; "
            "the package must consist of the program that was built (0755) and the licence (0644). Non-trivial: everything succeeded and the history has more than one commit, or it was refused.")
deb.ASSUMPTIONS = ["makepkg is not installed; how it calls the functions of a recipe is imitated (bash with errexit, srcdir, pkgdir)."]
deb.QUICK, deb.THOROUGH = 60, 3000
deb.cases = st.fixed_dictionaries({
    "commits": st.one_of(st.integers(1, 12), st.integers(1, 40), st.just(0)),
    "more": st.fixed_dictionaries({"merged": st.sampled_from([0, 0, 1, 2, 5]), "apart": st.sampled_from([0, 0, 1, 3]), "detached": st.booleans(), "worktree": st.just(False), "tag": st.booleans()}),
    "program": st.integers(0, 11).flatmap(lambda k: st.binary(max_size=40).map(lambda b: b.hex()) if k < 11 else st.none()),
    "mode": st.sampled_from([0o755, 0o700, 0o775, 0o777]),
    "licence": st.integers(0, 11).flatmap(lambda k: st.text(alphabet="abc \n\xe4", max_size=30) if k < 11 else st.none()),
    "umask": st.sampled_from([0o022, 0o002, 0o077, 0o027, 0o000]),
    "cargo": st.sampled_from(["ok"] * 9 + ["build", "test", "release"]),
    "place": st.sampled_from(["x", "a b", "a  b/c'd"]),
    "abbrev": st.sampled_from([None, None, 4, 12, 40]),
    "install": st.sampled_from(["ok"] * 11 + ["fails"]),
    # programs of an earlier build
    "stale": st.booleans(),
    # so many commits more, one of the two with the most similar names checked out
    "crowd": st.sampled_from([0] * 30 + [400] * 6 + [5000] * 2 + [60000]),
})
deb.BASE = {
    "commits": 3, "more": {"merged": 0, "apart": 0, "detached": False, "worktree": False, "tag": False}, "program": "7f454c4601", "mode": 0o755, "licence": "a b\n", "umask": 0o022, "cargo": "ok", "place": "x",
    "abbrev": None, "install": "ok", "stale": False, "crowd": 0,
}


def one_thing():
    yield {}
    for name, values in [
        ("commits", [0, 1, 2, 9, 10, 11, 40]), ("program", [None, ""]), ("mode", [0o700, 0o775, 0o777]), ("licence", [None, ""]), ("umask", [0o002, 0o077, 0o027, 0]), ("cargo", ["build", "test", "release"]),
        ("place", ["a b", "a  b/c'd"]), ("abbrev", [4, 12, 40]), ("install", ["fails"]), ("stale", [True]), ("crowd", [400, 5000]),
    ]:
        for v in values:
            yield {name: v}
    for name, v in [("merged", 3), ("apart", 3), ("detached", True), ("tag", True)]:
        yield {"more": dict(deb.BASE["more"], **{name: v})}
    for cargo in ("build", "test", "release"):
        yield {"cargo": cargo, "stale": True}


deb.one_thing = one_thing

HARNESS = """
set -e
srcdir=$1 pkgdir=$2 startdir=$3
. "$4"
case $5 in
vars) declare -p pkgname pkgver pkgrel pkgdesc arch license source sha512sums ;;
*) cd "$srcdir"; "$5" ;;
esac
"""


def describe(c, kind):
    return kind, kind == "refused" or c["commits"] > 1


deb.describe = describe


def newer(a, b):
    """Whether the version a is newer than b by the rules of pacman (which are those of rpm)."""
    pieces = lambda v: re.findall(r"[0-9]+|[a-zA-Z]+", v)
    x, y = pieces(a), pieces(b)
    for p, q in zip(x, y):
        if p.isdigit() != q.isdigit():
            return p.isdigit()
        if p.isdigit():
            p, q = int(p), int(q)
        if p != q:
            return p > q
    if len(x) == len(y):
        return False
    longer = x if len(x) > len(y) else y
    # (what remains makes a version newer, unless it begins with letters)
    return (longer is x) != longer[min(len(x), len(y))].isalpha()


def snapshot(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            out[os.path.relpath(p, top)] = (s.st_mode, open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) else None)
    return out


def check_case(c):
    top = tempfile.mkdtemp(prefix="ripverif-arch-")
    try:
        return check_in(top, c)
    finally:
        shutil.rmtree(top, ignore_errors=True)


deb.check_case = check_case


def crowd(code, c):
    """Adds many commits to the history and checks out one whose name is most like that of another; returns
    the number of commits up to that one."""
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    ask = lambda *a: subprocess.run(["git", *a], cwd=code, env=env, capture_output=True, text=True, check=True).stdout.split()
    parent = ask("rev-parse", "HEAD")[0]
    text = []
    for i in range(c["crowd"]):
        text.append(f"commit refs/crowd\ncommitter a <a@a> {1500000000 + i} +0000\ndata 1\nx\n")
        if i == 0:
            text.append(f"from {parent}\n")
    subprocess.run(["git", "fast-import", "--quiet"], cwd=code, env=env, input="".join(text), text=True, check=True, capture_output=True)
    # (counted upwards; what came before may be branched, this is not)
    new = ask("rev-list", "--reverse", f"{parent}..refs/crowd")
    need_order = sorted(new)
    alike = lambda a, b: len(os.path.commonprefix([a, b]))
    k = max(range(len(need_order) - 1), key=lambda i: alike(need_order[i], need_order[i + 1]))
    name = need_order[k]
    git(code, "update-ref", "refs/heads/crowd", "refs/crowd")
    git(code, "checkout", "-q", "--detach", name)
    return commits(c) + new.index(name) + 1


def check_in(top, c):
    os.chmod(top, 0o755)
    src, pkg, start = f"{top}/{c['place']}/src", f"{top}/{c['place']}/pkg/ripcalc", f"{top}/{c['place']}"
    code, bin = f"{src}/ripcalc", f"{top}/bin"
    for d in (code, pkg, bin, f"{top}/home"):
        os.makedirs(d)
    recipe = f"{start}/PKGBUILD"
    shutil.copy(f"{REPO}/contrib/PKGBUILD.archlinux", recipe)
    make_history(c, code)
    os.makedirs(f"{code}/contrib")
    shutil.copy(recipe, f"{code}/contrib/PKGBUILD.archlinux")
    if c["licence"] is not None:
        with open(f"{code}/COPYING.md", "w") as f:
            f.write(c["licence"])
    total = crowd(code, c) if c.get("crowd") and c["commits"] else commits(c)
    if c.get("stale"):
        for d in ("release", "debug"):
            os.makedirs(f"{code}/target/{d}")
            open(f"{code}/target/{d}/ripcalc", "w").write("an earlier one")
            os.chmod(f"{code}/target/{d}/ripcalc", 0o755)
    if c["abbrev"] and c["commits"]:
        git(code, "config", "core.abbrev", str(c["abbrev"]))
    # cargo: notes what it is asked for, and where; "builds" the program
    log = f"{top}/cargo.log"
    lines = ["#!/bin/bash", f'printf "%s\\n" "$PWD" "$*" >> "{log}"']
    if c["cargo"] == "build":
        lines.append('[ "$1" = build ] || [ "$1" = rustc ] || [ "$1" = b ] && { mkdir -p target/release; exit 101; }')
    if c["cargo"] == "release":
        # (an older program may be there)
        lines.append('for a; do case $a in --release|-r|--profile=release|release) exit 101;; esac; done')
    if c["cargo"] == "test":
        lines.append('[ "$1" = test ] || [ "$1" = t ] && exit 101')
    if c["program"] is not None:
        text = "".join(f"\\x{c['program'][i:i + 2]}" for i in range(0, len(c["program"]), 2))
        # (a debug build is another program)
        lines += ['r=debug; for a; do case $a in --release|-r|--profile=release|release) r=release;; esac; done', 'mkdir -p "target/$r"', f'[ "$r" = release ] && printf \'{text}\' > "target/$r/ripcalc" || printf debug > "target/$r/ripcalc"', f'chmod {c["mode"]:o} "target/$r/ripcalc"']
    lines.append("exit 0")
    open(f"{bin}/cargo", "w").write("\n".join(lines) + "\n")
    os.chmod(f"{bin}/cargo", 0o755)
    if c["install"] == "fails":
        for tool in ("install", "cp", "mkdir"):
            open(f"{bin}/{tool}", "w").write("#!/bin/sh\nexit 1\n")
            os.chmod(f"{bin}/{tool}", 0o755)
    open(f"{top}/run", "w").write(HARNESS)

    def call(what):
        path = os.environ.get("PATH", "/usr/bin:/bin")
        env = {"PATH": f"{bin}:{path}", "HOME": f"{top}/home", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_CEILING_DIRECTORIES": top, "LC_ALL": "C"}
        if what in ("vars", "pkgver", "build"):
            env["PATH"] = f"{bin}:{path}" if what == "build" and c["install"] == "ok" else path
            if what == "build" and c["install"] != "ok":
                # (only the last step is made to fail)
                os.makedirs(f"{top}/bin2", exist_ok=True)
                shutil.copy(f"{bin}/cargo", f"{top}/bin2/cargo")
                env["PATH"] = f"{top}/bin2:{path}"
        try:
            return subprocess.run(["bash", f"{top}/run", src, pkg, start, recipe, what], cwd=start, env=env, capture_output=True, text=True, timeout=60, umask=c["umask"])
        except subprocess.TimeoutExpired:
            raise NoAnswer(f"{what} took more than a minute")

    before = snapshot(top)
    r = call("vars")
    need(r.returncode == 0, f"the recipe cannot be read: {r.stderr[-300:]}")
    need('pkgname="ripcalc"' in r.stdout, f"pkgname: {r.stdout}")
    need(all(re.search(rf"\b{n}=", r.stdout) for n in ("pkgver", "pkgrel", "pkgdesc", "arch", "license", "source", "sha512sums")), f"variables: {r.stdout}")
    m = re.search(r'pkgver="([^"]*)"', r.stdout)
    need(m is not None and re.fullmatch(r"[A-Za-z0-9._+]+", m[1]) is not None, f"pkgver: {r.stdout}")
    count = lambda name: len(re.findall(r"\[\d+\]=", re.search(rf"{name}=\((.*)\)", r.stdout)[1]))
    need(count("source") == count("sha512sums"), "source and sha512sums differ in length")
    need(snapshot(top) == before, "reading the recipe changed files")

    # the version
    r = call("pkgver")
    need({k: v for k, v in snapshot(top).items() if "/.git" not in k} == {k: v for k, v in before.items() if "/.git" not in k}, "pkgver changed files")
    if c["commits"]:
        version = r.stdout.strip()
        need(r.returncode == 0, f"pkgver failed: {r.stderr[-300:]}")
        need(re.fullmatch(r"[A-Za-z0-9._+]+", version) is not None, f"the version is {version!r}")
        m = re.fullmatch(r"r([0-9]+)\.(?:g)?([0-9a-f]{4,40})", version)
        need(m is not None and int(m[1]) == total, f"the version is {version!r}, with {total} commits")
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
        names = lambda what: subprocess.run(["git", "rev-list", what], cwd=code, env=env, capture_output=True, text=True, check=True).stdout.split()
        head = names("HEAD")[0]
        need(head.startswith(m[2]) and sum(n.startswith(m[2]) for n in names("--all") + [head]) <= 2 and len({n for n in names("--all") + [head] if n.startswith(m[2])}) == 1, f"the version is {version!r}, the commit {head}")
        for parent in subprocess.run(["git", "rev-parse", "HEAD^@"], cwd=code, env=env, capture_output=True, text=True, check=True).stdout.split():
            # the version there
            git(code, "checkout", "-q", "--detach", parent)
            q = call("pkgver")
            git(code, "checkout", "-q", "--detach", head)
            need(q.returncode == 0, f"pkgver failed: {q.stderr[-300:]}")
            need(newer(version, q.stdout.strip()), f"the version {version!r} does not count as newer than {q.stdout.strip()!r} of its parent")
    # building and testing
    def asked():
        try:
            text = open(log).read().split("\n")[:-1]
            os.remove(log)
        except FileNotFoundError:
            return []
        return list(zip(text[::2], text[1::2]))

    r = call("build")
    did = asked()
    need(did and all(os.path.realpath(d) == os.path.realpath(code) for d, _ in did), f"build asked cargo for {did}")
    if c["cargo"] in ("build", "release"):
        need(r.returncode != 0, "the build failed, but build() succeeded")
        return "refused"
    need(r.returncode == 0, f"build failed: {r.stderr[-300:]}")
    path_has_install = call("check")
    did = asked()
    tests = [a.split() for _, a in did if a.split()[:1] in (["test"], ["t"])]
    need(any({"--release", "-r", "--profile=release", "release"} & set(a) for a in tests), f"check asked cargo for {did}, not for tests of the release build")
    if c["cargo"] == "test":
        need(path_has_install.returncode != 0, "a test failed, but check() succeeded")
        return "refused"
    need(path_has_install.returncode == 0 or c["install"] == "fails", f"check failed: {path_has_install.stderr[-300:]}")
    before = snapshot(src)
    r = call("package")
    need(snapshot(src) == before, "package() changed the sources")
    if (c["program"] is None and not c.get("stale")) or c["licence"] is None or c["install"] == "fails":
        need(r.returncode != 0, "the program or the licence could not be installed, but package() succeeded")
        return "refused"
    need(r.returncode == 0, f"package failed: {r.stderr[-300:]}")
    got = snapshot(pkg)
    want = {"usr/bin/ripcalc": (0o100755, bytes.fromhex(c["program"]) if c["program"] is not None else b"an earlier one"), "usr/share/licenses/ripcalc/LICENSE": (0o100644, c["licence"].encode())}
    files = {k: v for k, v in got.items() if v[1] is not None}
    need(files == want, f"the package contains {files}, expected {want}")
    for k, (mode, _) in got.items():
        need(k in want or any(w.startswith(k + "/") for w in want), f"{k} is in the package")
    return "package"


if __name__ == "__main__":
    deb.main()
