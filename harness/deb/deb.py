#!/usr/bin/env python3
"""C27: the Debian package that contrib/debianize.py makes.

Property-based (hypothesis): generated programs (ELF files of both sizes, with generated symbol-version
requirements, and bare ELF headers of many machines), histories, umasks, time zones, ways of calling;
every package is taken apart without the help of dpkg and compared with what went in.

    deb.py check | deb.py replay FILE
"""
import atexit, datetime, email.utils, gzip, hashlib, io, json, multiprocessing, os, re, shutil, stat, struct
import subprocess, sys, tarfile, tempfile, time
from fractions import Fraction

from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st

ID = "C27"
ROOT = os.environ.get("RIPVERIF_ROOT") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
REPO = os.environ.get("RIPVERIF_REPO") or "/repo"
PYTHON = "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else "python3"
RULE = ("programs to package: the release build; small ELF executables and libraries made by gcc for x86-64 and i386, with debugging information, code and data of random size and requirements for random "
        "versions (2.2.5 to 2.100, 2.9 beside 2.10) of symbols of GLIBC, GCC and other libraries; bare ELF headers of 22 machines, both sizes and byte orders (with a stand-in for strip, which "
        "knows only some machines); files that are not ELF; no file at all. Around it: 0 to 12 commits, merged and unmerged branches, tags, detached heads and worktrees, umask, time zone, locales (real ones, made by localedef), working directory, called by absolute or relative path or by a "
        "symbolic link, by root or by another user, older packages and other files lying about, symbolic links on the way to the program, a temporary directory whose files belong to another group, a checkout that is part of a larger one, variables that other packaging tools heed; one of the tools failing (at once, half way, after its work, killed), or the checkout's disk full after some bytes, or the script killed at that point (by a preloaded library). The package is taken apart by an ar reader of our own, tarfile and lzma: members and their order, owners, modes, paths, "
        "program (loaded segments as in the original, no symbol table), md5sums of all files, control fields (version, architecture, size, dependencies with the highest version), "
        "changelog with date (and no time stamp of its compression), copyright. If it cannot be made, the status must not be 0 and no package may appear. Non-trivial: a package was made of a program with requirements, or refused.")


class Broken(Exception):
    """The property is violated."""


class NoAnswer(Exception):
    """Something of ours failed."""


# ------------------------------------------------------------------------------------------------
# ELF files

MACHINES = [0x02, 0x03, 0x08, 0x14, 0x15, 0x16, 0x28, 0x2A, 0x2B, 0x32, 0x3E, 0xB7, 0xF3, 0x102, 0x0F, 0x04, 0x29, 0x5C, 0x9026, 0x07, 0xDC, 0]


def debian_arch(machine, bits, big, flags):
    """Names that a program for this machine may go under. None: Debian has no name for it."""
    little = not big
    return {
        (0x03, 32, False): {"i386"},
        (0x3E, 64, False): {"amd64"},
        (0x3E, 32, False): {"x32"},
        (0xB7, 64, False): {"arm64"},
        (0xB7, 64, True): {"arm64eb"},
        (0xB7, 32, False): {"arm64ilp32"},
        (0x28, 32, False): {"armel", "armhf"},
        (0x28, 32, True): {"armeb"},
        (0x08, 32, False): {"mipsel"},
        (0x08, 32, True): {"mips"},
        (0x08, 64, False): {"mips64el"},
        (0x08, 64, True): {"mips64"},
        (0x14, 32, True): {"powerpc"},
        (0x14, 32, False): {"powerpcel"},
        (0x15, 64, False): {"ppc64el"},
        (0x15, 64, True): {"ppc64"},
        (0x16, 64, True): {"s390x"},
        (0x16, 32, True): {"s390"},
        (0x02, 32, True): {"sparc"},
        (0x2B, 64, True): {"sparc64"},
        (0x2A, 32, False): {"sh4", "sh3"},
        (0x32, 64, False): {"ia64"},
        (0xF3, 64, False): {"riscv64"},
        (0x102, 64, False): {"loong64"},
        (0x0F, 32, True): {"hppa"},
        (0x04, 32, True): {"m68k"},
        (0x9026, 64, False): {"alpha"},
        (0x5C, 32, True): {"or1k"},
        (0xDC, 32, False): set(),
    }.get((machine, bits, big))


# what the script is meant to know
KNOWN = {(0x28, 32, False), (0x3E, 64, False), (0xB7, 64, False), (0x03, 32, False), (0x08, 32, False), (0x08, 64, False), (0x15, 64, False), (0x16, 64, True)}


def bare_header(c):
    """An ELF file that consists of its header."""
    e = ">" if c["big"] else "<"
    ident = b"\x7fELF" + bytes([2 if c["bits"] == 64 else 1, 2 if c["big"] else 1, 1, c["abi"], 0]) + bytes(7)
    if c["bits"] == 64:
        return ident + struct.pack(e + "HHIQQQIHHHHHH", c["type"], c["machine"], 1, 0, 0, 0, c["flags"], 64, 0, 0, 0, 0, 0) + bytes(c["pad"])
    return ident + struct.pack(e + "HHIIIIIHHHHHH", c["type"], c["machine"], 1, 0, 0, 0, c["flags"], 52, 0, 0, 0, 0, 0) + bytes(c["pad"])


def segments(data):
    """The loaded parts of an ELF file (little-endian), and whether there is a symbol table."""
    wide = data[4] == 2
    if wide:
        phoff, shoff = struct.unpack_from("<QQ", data, 32)
        phsize, phn, shsize, shn = struct.unpack_from("<HHHH", data, 54)
    else:
        phoff, shoff = struct.unpack_from("<II", data, 28)
        phsize, phn, shsize, shn = struct.unpack_from("<HHHH", data, 42)
    out = []
    for i in range(phn):
        at = phoff + i * phsize
        if wide:
            kind, flags, off, vaddr, _p, size, mem, _a = struct.unpack_from("<IIQQQQQQ", data, at)
        else:
            kind, off, vaddr, _p, size, mem, flags, _a = struct.unpack_from("<IIIIIIII", data, at)
        if kind == 1:
            body = bytearray(data[off:off + size])
            # (the header of the file is part of the first segment; where the sections are may change)
            if off == 0:
                for a, n in ((40, 8), (60, 4)) if wide else ((32, 4), (48, 4)):
                    body[a:a + n] = bytes(n)
            out.append((flags, vaddr, mem, bytes(body)))
    symtab = any(struct.unpack_from("<I", data, shoff + i * shsize + 4)[0] == 2 for i in range(shn))
    return out, symtab


def version_needs(data):
    """The numbered versions that a (little-endian) ELF file requires, by prefix."""
    wide = data[4] == 2
    shoff, = struct.unpack_from("<Q", data, 40) if wide else struct.unpack_from("<I", data, 32)
    size, n = struct.unpack_from("<HH", data, 58 if wide else 46)
    sections = [struct.unpack_from("<IIQQQQII" if wide else "<IIIIIIII", data, shoff + i * size) for i in range(n)]
    out = {}
    for _name, kind, _flags, _addr, off, _size, link, count in sections:
        if kind != 0x6FFFFFFE:
            continue
        strings = sections[link][4]
        at = off
        for _ in range(count):
            _v, aux, _file, first, following = struct.unpack_from("<HHIII", data, at)
            a = at + first
            for _ in range(aux):
                _h, _f, _o, name, after = struct.unpack_from("<IHHII", data, a)
                text = data[strings + name:data.index(b"\0", strings + name)].decode()
                m = re.fullmatch(r"([A-Z]+)_([0-9.]+)", text)
                if m:
                    out.setdefault(m[1], []).append(m[2])
                a += after
            at += following
    return {k: max(v, key=number) for k, v in out.items()}


def number(v):
    return [int(x) for x in v.split(".")]


def compile_program(c, work, into):
    """Makes a program that needs the given versions of symbols."""
    os.mkdir(work)
    m = ["-m32"] if c["bits"] == 32 else ["-m64"]
    libs, uses, n = [], [], 0
    for k, (prefix, versions) in enumerate(c["needs"]):
        src, script = [], []
        for v in versions:
            src.append(f"int f{n}(void) {{ return {n}; }}")
            script.append(f"{prefix}_{v} {{ global: f{n}; }};")
            uses.append(n)
            n += 1
        open(f"{work}/l{k}.c", "w").write("\n".join(src) + "\n")
        open(f"{work}/l{k}.map", "w").write("\n".join(script) + "\n")
        soname = {"GLIBC": "libc.so.6", "GCC": "libgcc_s.so.1"}.get(prefix, f"lib{prefix.lower()}.so.1") if all(n[0] != prefix for n in c["needs"][:k]) else f"libm{k}.so.6"
        run(["gcc", *m, "-nostdlib", "-shared", "-fPIC", "-o", f"l{k}.so", f"l{k}.c", f"-Wl,-soname,{soname}", f"-Wl,--version-script,l{k}.map"], work)
        libs.append(f"./l{k}.so")
    src = [f"int f{i}(void);" for i in uses]
    src.append(f"int data[{c['data'] + 1}] = {{1, 2, 3}};" if c["data"] > 2 else "int data[4];")
    src += [f"int unused{i}(int x) {{ return x * {i + 3}; }}" for i in range(c["code"])]
    src.append("int _start(void) { return data[0]" + "".join(f" + f{i}()" for i in uses) + "; }")
    open(f"{work}/p.c", "w").write("\n".join(src) + "\n")
    shape = {"exe": ["-no-pie", "-fno-pic"], "pie": ["-pie", "-fPIE"], "lib": ["-shared", "-fPIC"]}[c["shape"]]
    run(["gcc", *m, "-nostdlib", *shape, *(["-g"] if c["debug"] else []), "-Wl,--no-as-needed", "-o", into, "p.c", *libs], work)


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer(f"{cmd}: {r.stderr[-600:]}")
    return r.stdout


# ------------------------------------------------------------------------------------------------
# cases

def version():
    piece = st.one_of(st.integers(0, 12), st.integers(0, 100))
    return st.one_of(
        st.tuples(st.just(2), st.integers(0, 45)),
        st.tuples(st.just(2), st.integers(0, 45), st.integers(0, 9)),
        st.tuples(st.integers(0, 20), piece, piece),
        st.sampled_from([(2, 2, 5), (2, 3), (2, 9), (2, 10), (2, 17), (2, 34), (2, 100), (3, 0), (4, 2, 0), (3, 3, 1)]),
        st.tuples(st.integers(3, 15), st.integers(0, 9), st.integers(0, 9)),
    ).map(lambda t: ".".join(map(str, t)))


needs = st.integers(0, 4).flatmap(lambda k: st.lists(
    st.tuples(st.sampled_from(["GLIBC"] * 6 + ["GCC"] * 3 + ["GLIBCXX", "OPENSSL", "ZLIB"]), st.lists(version(), min_size=1, max_size=6, unique=True)).map(list),
    min_size=min(k, 1), max_size=3 if k else 0,
))
compiled = st.fixed_dictionaries({
    "kind": st.just("compiled"), "bits": st.sampled_from([64, 64, 32]), "needs": needs, "data": st.integers(0, 20000), "code": st.integers(0, 60),
    "debug": st.booleans(), "shape": st.sampled_from(["exe", "pie", "pie", "lib"]),
})
header = st.fixed_dictionaries({
    "kind": st.just("header"),
    "target": st.one_of(
        st.sampled_from(sorted(KNOWN)),
        st.tuples(st.sampled_from(MACHINES), st.sampled_from([32, 64]), st.booleans()),
        st.tuples(st.integers(0, 65535), st.sampled_from([32, 64]), st.booleans()),
    ).map(list),
    "type": st.sampled_from([2, 3]), "abi": st.sampled_from([0, 0, 3]), "flags": st.sampled_from([0, 0x05000200, 0x05000400]), "pad": st.integers(0, 3000),
})
junk = st.one_of(
    st.fixed_dictionaries({"kind": st.just("junk"), "bytes": st.one_of(st.binary(max_size=80), st.binary(max_size=30).map(lambda b: b"\x7fELF" + b), st.sampled_from([b"", b"\x7fEL", b"#!/bin/sh\necho hello\n", b"MZ\x90\0"])).map(lambda b: b.hex())}),
    st.just({"kind": "missing"}),
)
release = st.just({"kind": "release"})
cases = st.fixed_dictionaries({
    "program": st.integers(0, 19).flatmap(lambda k: compiled if k < 12 else header if k < 18 else release if k < 19 and os.environ.get("RIPVERIF_RELEASE") else junk),
    "commits": st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 3, 7, 10, 10, 12, 0]),
    "dirty": st.booleans(),
    "umask": st.sampled_from([0o022, 0o002, 0o077, 0o027, 0o000]),
    "tz": st.sampled_from(["UTC", "Europe/Vienna", "XYZ-5:45", "ABC3:30", "NZST-12", "HST10"]),
    "lang": st.sampled_from([{}, {"LANG": "C.UTF-8"}, {"LC_ALL": "C"}, {"LC_ALL": "de_AT.UTF-8"}, {"LANG": "de_AT.UTF-8", "LANGUAGE": "de"}, {"LANG": "C.UTF-8", "LC_TIME": "ja_JP.UTF-8"}, {"LANG": "ja_JP.UTF-8", "LC_TIME": "de_AT.UTF-8"}]),
    "cwd": st.sampled_from(["code", "contrib", "root", "elsewhere"]),
    "call": st.sampled_from(["absolute", "relative", "link"]),
    "stale": st.booleans(),
    # symbolic links on the way to the program; who makes the package, and where files belong to another group
    "links": st.sampled_from([None] * 6 + ["program", "far", "target"]),
    "user": st.sampled_from([0, 0, 0, 65534]),
    "setgid": st.sampled_from([False, False, True]),
    "vars": st.sampled_from([{}] * 6 + [{"SOURCE_DATE_EPOCH": "1600000000"}, {"PYTHONOPTIMIZE": "1"}, {"POSIXLY_CORRECT": "1"}, {"PYTHONUTF8": "1"}]),
    # commits merged from another branch, commits on a branch that is not part of this history, ...
    "more": st.fixed_dictionaries({"merged": st.sampled_from([0, 0, 0, 1, 2, 5]), "apart": st.sampled_from([0, 0, 0, 1, 3]), "detached": st.booleans(), "worktree": st.sampled_from([False, False, False, True]), "tag": st.booleans(), "nested": st.sampled_from([False, False, False, True])}),
    "fault": st.one_of(st.none(), st.none(), st.none(), st.one_of(
        st.fixed_dictionaries({"tool": st.sampled_from(["git", "strip", "tar", "ar", "readelf", "date", "gzip", "xz"]), "how": st.sampled_from(["at once", "afterwards", "killed", "killed at once", "half", "missing"])}),
        st.fixed_dictionaries({"room": st.one_of(st.sampled_from([0, 1, 8, 68, 512]), st.integers(0, 5000)), "kill": st.booleans()}),
    )),
})

PLAIN = {"kind": "compiled", "bits": 64, "needs": [["GLIBC", ["2.2.5", "2.17"]], ["GCC", ["3.0"]]], "data": 3, "code": 1, "debug": True, "shape": "pie"}
BASE = {
    "program": PLAIN, "commits": 2, "dirty": False, "umask": 0o022, "tz": "UTC", "lang": {}, "cwd": "code", "call": "absolute", "stale": False, "links": None, "user": 0, "setgid": False, "vars": {},
    "more": {"merged": 0, "apart": 0, "detached": False, "worktree": False, "tag": False, "nested": False}, "fault": None,
}


def one_thing():
    """Cases that differ from the ordinary one in one respect, as changes of it."""
    yield {}
    targets = {(m, bits, big) for (m, b, e) in KNOWN for bits, big in [(b, e), (96 - b, e), (b, not e)]}
    for t in sorted(targets):
        yield {"program": {"kind": "header", "target": list(t), "type": 3, "abi": 0, "flags": 0, "pad": 100}}
    for needs in [[], [["GLIBC", ["2.9", "2.10"]]], [["GLIBC", ["2.34", "2.100"]]], [["GLIBC", ["2.9"]], ["GLIBC", ["2.10"]]], [["GCC", ["3.3.1", "3.3"]]], [["GCC", ["10.0.0", "4.2.0"]]], [["GLIBC", ["3.0", "2.99"]]], [["ZLIB", ["1.2"]]]]:
        for bits in (64, 32):
            yield {"program": dict(PLAIN, needs=needs, bits=bits)}
    for shape in ("exe", "lib"):
        yield {"program": dict(PLAIN, shape=shape)}
    for n in (0, 1, 5, 40, 5000):
        yield {"program": dict(PLAIN, data=n, code=0, debug=False)}
    yield {"program": {"kind": "missing"}}
    for n in (0, 1, 9, 10, 11, 100):
        yield {"commits": n}
    for name, values in [
        ("umask", [0o002, 0o077, 0o027, 0]), ("tz", ["Europe/Vienna", "XYZ-5:45", "HST10"]), ("lang", [{"LC_ALL": "C"}, {"LC_ALL": "de_AT.UTF-8"}, {"LANG": "C.UTF-8", "LC_TIME": "ja_JP.UTF-8"}]),
        ("cwd", ["contrib", "root", "elsewhere"]), ("call", ["relative", "link"]), ("stale", [True]), ("dirty", [True]), ("links", ["program", "far", "target"]), ("user", [65534]), ("setgid", [True]),
        ("vars", [{"SOURCE_DATE_EPOCH": "1600000000"}, {"PYTHONOPTIMIZE": "1"}, {"POSIXLY_CORRECT": "1"}, {"PYTHONUTF8": "1"}]),
    ]:
        for v in values:
            yield {name: v}
    for name, v in [("merged", 3), ("apart", 3), ("detached", True), ("worktree", True), ("tag", True), ("nested", True)]:
        yield {"more": dict(BASE["more"], **{name: v})}
    for tool in ("git", "strip", "tar", "ar", "readelf"):
        for how in ("at once", "afterwards", "killed", "killed at once", "half", "missing"):
            yield {"fault": {"tool": tool, "how": how}}
    for room in (0, 1, 8, 68, 512, 2000):
        for kill in (False, True):
            yield {"fault": {"room": room, "kill": kill}}


def systematic():
    return [dict(BASE, **d) for d in one_thing()]


# ------------------------------------------------------------------------------------------------
# taking a package apart

def ar_members(data):
    if data[:8] != b"!<arch>\n":
        raise Broken("the package is not an ar archive")
    out, at = [], 8
    while at < len(data):
        h = data[at:at + 60]
        if len(h) < 60 or h[58:60] != b"`\n":
            raise Broken("the ar archive is damaged")
        size = int(h[48:58])
        name = h[:16].decode().rstrip()
        out.append((name[:-1] if name.endswith("/") and len(name) > 1 else name, h, data[at + 60:at + 60 + size]))
        if at + 60 + size > len(data):
            raise Broken("the ar archive is cut short")
        at += 60 + size + size % 2
    return out


def tar_members(data, mode):
    try:
        t = tarfile.open(fileobj=io.BytesIO(data), mode=mode)
        return [(m, t.extractfile(m).read() if m.isfile() else None) for m in t.getmembers()]
    except (tarfile.TarError, EOFError, OSError, ValueError) as e:
        raise Broken(f"a tar archive cannot be read: {e!r}")


def clean_path(m):
    p = m.name
    if p.startswith("/") or ".." in p.split("/"):
        raise Broken(f"the path {p!r} leads elsewhere")
    return "/".join(x for x in p.split("/") if x not in ("", "."))


def need(cond, text):
    if not cond:
        raise Broken(text)


def fields(text):
    out, last = {}, None
    need(text.endswith("\n"), "the control file does not end with a line break")
    for line in text[:-1].split("\n"):
        need(line.strip() != "", "there is an empty line in the control file")
        if line[0] in " \t":
            need(last is not None, "the control file starts with a continuation line")
            out[last] += "\n" + line
        else:
            need(re.match(r"[A-Za-z][A-Za-z0-9-]*:( |$)", line) is not None, f"not a control field: {line!r}")
            last, _, rest = line.partition(":")
            need(last not in out, f"the field {last} occurs twice")
            out[last] = rest.strip()
    return out


def check_package(data, c, arch, name, program, started, ended):
    members = ar_members(data)
    need([m[0] for m in members] == ["debian-binary", "control.tar.gz", "data.tar.xz"], f"members of the package: {[m[0] for m in members]}")
    need(members[0][2] == b"2.0\n", f"debian-binary contains {members[0][2]!r}")
    control, files = tar_members(members[1][2], "r:gz"), tar_members(members[2][2], "r:xz")
    for m, _ in control + files:
        need((m.uid, m.gid) == (0, 0) and m.uname in ("root", "") and m.gname in ("root", ""), f"{m.name} belongs to {m.uid} ({m.uname}), {m.gid} ({m.gname})")
        need(m.isdir() or m.isfile(), f"{m.name} is neither a file nor a directory")
        want = 0o555 if m.isdir() else 0o444
        need(m.mode & want == want, f"{m.name} has mode {m.mode:o}, not everyone can read it")
        need(m.mode & 0o6002 == 0, f"{m.name} has mode {m.mode:o}")
    paths = [clean_path(m) for m, _ in files]
    need(len(set(paths)) == len(paths), "a path occurs twice in the package")
    regular = {clean_path(m): b for m, b in files if m.isfile()}
    dirs = {clean_path(m) for m, _ in files if m.isdir()}
    doc = "usr/share/doc/ripcalc"
    need(set(regular) == {"usr/bin/ripcalc", f"{doc}/changelog.gz", f"{doc}/copyright"}, f"files in the package: {sorted(regular)}")
    for p in regular:
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            need(p in dirs, f"the directory {p} is not in the package")
    need(all(d == "" or any(p.startswith(d + "/") for p in regular) for d in dirs), "there is an empty directory in the package")
    mode = next(m.mode for m, _ in files if clean_path(m) == "usr/bin/ripcalc")
    need(mode & 0o555 == 0o555, f"the program has mode {mode:o}, not everyone can run it")
    packed = regular["usr/bin/ripcalc"]
    if c["program"]["kind"] in ("compiled", "release"):
        (a, symbols), (b, _) = segments(packed), segments(program)
        need(a == b, "the program in the package is another one (its loaded segments differ)")
        need(not symbols, "the program in the package is not stripped")
    else:
        need(packed == program, "the program in the package is another one")

    # control
    cfiles = {clean_path(m): b for m, b in control if m.isfile()}
    need(set(cfiles) == {"control", "md5sums"}, f"control files: {sorted(cfiles)}")
    sums = {}
    for line in cfiles["md5sums"].decode().splitlines():
        m = re.fullmatch(r"([0-9a-f]{32})  (\S+)", line)
        need(m is not None, f"line in md5sums: {line!r}")
        need(m[2] not in sums, f"{m[2]} occurs twice in md5sums")
        sums[m[2]] = m[1]
    need(sums == {p: hashlib.md5(b).hexdigest() for p, b in regular.items()}, f"md5sums does not fit: {sums}")
    f = fields(cfiles["control"].decode("utf-8"))
    for k in ("Package", "Version", "Architecture", "Maintainer", "Description"):
        need(f.get(k), f"the control file lacks {k}")
    need(f["Package"] == "ripcalc", f"Package: {f['Package']}")
    need(f["Version"] == str(commits(c)), f"Version: {f['Version']} with {commits(c)} commits")
    need(f["Architecture"] == arch, f"Architecture: {f['Architecture']}, expected {arch}")
    need(re.fullmatch(r"[^<>]+ <[^<>@ ]+@[^<>@ ]+>", f["Maintainer"]) is not None, f"Maintainer: {f['Maintainer']}")
    total = sum(map(len, regular.values()))
    need(f.get("Installed-Size", "").isdigit(), f"Installed-Size: {f.get('Installed-Size')}")
    # (in KiB; rounded down, up, or up for every file and directory)
    need(total // 1024 <= int(f["Installed-Size"]) <= total // 1024 + len(files) + 3, f"Installed-Size: {f['Installed-Size']} for {total} bytes")
    need(re.fullmatch(r"[a-z0-9-]+(/[a-z0-9-]+)?", f.get("Section", "")) is not None and f.get("Priority") in ("optional", "extra", "standard", "important", "required"), "Section or Priority")
    # dependencies
    wanted = version_needs(program) if c["program"]["kind"] in ("compiled", "release") else {}
    got = {}
    for d in filter(None, (x.strip() for x in f.get("Depends", "").split(","))):
        m = re.fullmatch(r"([a-z0-9][a-z0-9+.-]+)(?: \(>= ([0-9][0-9A-Za-z.+~-]*)\))?", d)
        need(m is not None, f"dependency {d!r}")
        need(m[1] not in got, f"{m[1]} occurs twice in Depends")
        got[m[1]] = m[2]
    for prefix, names in (("GLIBC", ("libc6",)), ("GCC", ("libgcc1", "libgcc-s1"))):
        have = [got.pop(n) for n in names if n in got]
        if prefix in wanted:
            need(have and have[0] == wanted[prefix], f"Depends: {f.get('Depends')}; needed: {wanted}")
        else:
            need(have == [], f"Depends: {f.get('Depends')}; needed: {wanted}")
    need(len(got) == len(set(wanted) - {"GLIBC", "GCC"}), f"Depends: {f.get('Depends')}; needed: {wanted}")

    # documents
    try:
        log = gzip.decompress(regular[f"{doc}/changelog.gz"]).decode("utf-8")
    except (OSError, EOFError, ValueError) as e:
        raise Broken(f"changelog.gz: {e!r}")
    need(regular[f"{doc}/changelog.gz"][4:8] == bytes(4), "changelog.gz carries the time of its compression")
    lines = log.rstrip("\n").split("\n")
    need(re.fullmatch(r"ripcalc \(%s\) [a-z]+; urgency=[a-z]+" % re.escape(str(commits(c))), lines[0]) is not None, f"changelog starts with {lines[0]!r}")
    m = re.fullmatch(r" -- ([^<>]+ <[^<>]+>)  ((?:Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d\d (?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4} \d\d:\d\d:\d\d [+-]\d{4})", lines[-1])
    need(m is not None, f"changelog ends with {lines[-1]!r}")
    need(m[1] == f["Maintainer"], f"changelog by {m[1]}, maintainer {f['Maintainer']}")
    when = email.utils.parsedate_to_datetime(m[2])
    need(started - 2 <= when.timestamp() <= ended + 2, f"changelog dated {m[2]}")
    need(when.strftime("%a") == m[2][:3], f"changelog dated {m[2]}")
    need(all(l == "" or l.startswith("  ") for l in lines[1:-1]) and any(l.startswith("  * ") for l in lines[1:-1]), "changelog has no entry")
    right = regular[f"{doc}/copyright"].decode("utf-8")
    need("\nLicense: " in right and "\nCopyright: " in right and "\nFiles: *\n" in right and right.startswith("Format: "), "copyright is incomplete")


# ------------------------------------------------------------------------------------------------
# one case

def git(code, *args):
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
    r = subprocess.run(["git", *args], cwd=code, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer(f"git {args}: {r.stderr}")


def commits(c):
    """How many commits the history of the checkout consists of."""
    merged = c.get("more", {}).get("merged", 0)
    return c["commits"] and c["commits"] + (merged + 1 if merged else 0)


def make_history(c, code):
    more = c.get("more", {})
    git(code, "init", "-q", "-b", "main")
    for i in range(c["commits"]):
        git(code, "commit", "-q", "--allow-empty", "-m", f"commit {i}")
    if c["commits"] == 0:
        return
    for name in ("merged", "apart"):
        if more.get(name):
            git(code, "checkout", "-q", "-b", name, f"HEAD~{c['commits'] // 2}" if name == "merged" else "HEAD")
            for i in range(more[name]):
                git(code, "commit", "-q", "--allow-empty", "-m", f"{name} {i}")
            git(code, "checkout", "-q", "main")
            if name == "merged":
                # (neither part may contain the other, or there would be nothing to merge)
                git(code, "merge", "-q", "--no-ff", "-m", "merge", name)
    if more.get("tag"):
        git(code, "tag", "-a", "-m", "tag", "v99")
    if more.get("detached"):
        git(code, "checkout", "-q", "--detach")


def scratch_tools():
    """Locales and a library that are needed by some cases; made once."""
    global TOOLS
    if TOOLS is None:
        TOOLS = tempfile.mkdtemp(prefix="ripverif-deb-tools-")
        os.chmod(TOOLS, 0o755)
        run(["gcc", "-O1", "-shared", "-fPIC", "-o", f"{TOOLS}/full.so", os.path.join(os.path.dirname(os.path.abspath(__file__)), "full.c")], TOOLS)
        for l in ("de_AT", "ja_JP"):
            try:
                subprocess.run(["localedef", "-i", l, "-f", "UTF-8", f"{TOOLS}/{l}.UTF-8"], capture_output=True)
            except OSError:
                pass  # then only C
    return TOOLS


TOOLS = None


def check_case(c):
    """Raises Broken; returns what kind of case it was."""
    top = tempfile.mkdtemp(prefix="ripverif-deb-")
    try:
        return check_in(top, c)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check_in(top, c):
    os.chmod(top, 0o755)
    code, other, tmp = f"{top}/some code", f"{top}/elsewhere", f"{top}/tmp"
    for d in (code, other, tmp, f"{code}/contrib", f"{code}/target", f"{code}/target/release"):
        os.mkdir(d)
    shutil.copy(f"{REPO}/contrib/debianize.py", f"{code}/contrib/debianize.py")
    shutil.copy(f"{REPO}/Cargo.toml", f"{code}/Cargo.toml")
    make_history(c, code)
    if c.get("more", {}).get("worktree") and c["commits"]:
        # the same history, checked out in another place
        os.rename(code, f"{top}/main")
        git(f"{top}/main", "worktree", "add", "-q", "--detach", code)
        for n in os.listdir(f"{top}/main"):
            if n != ".git":
                os.rename(f"{top}/main/{n}", f"{code}/{n}")
    elif c.get("more", {}).get("nested"):
        # the checkout is a directory of a larger one
        os.rename(f"{code}/.git", f"{top}/.git")
    if c["dirty"]:
        open(f"{code}/untracked", "w").write("x")
        open(f"{code}/target/release/other", "w").write("x")
    p, target, program = c["program"], f"{code}/target/release/ripcalc", None
    if c.get("links") == "target":
        os.rename(f"{code}/target", f"{top}/built")
        os.symlink("../built", f"{code}/target")
    path = real_path = os.environ.get("PATH", "/usr/bin:/bin")
    path = f"{top}/bin:{path}"
    os.mkdir(f"{top}/bin")

    def stand_in(tool, script):
        open(f"{top}/bin/{tool}", "w").write(f"#!/bin/sh\n{script}\n")
        os.chmod(f"{top}/bin/{tool}", 0o755)

    fault = c.get("fault") or {}
    arch = None
    if p["kind"] == "compiled":
        compile_program(p, f"{top}/work", target)
        arch = {"i386"} if p["bits"] == 32 else {"amd64"}
        declared = {}
        for prefix, versions in p["needs"]:
            declared[prefix] = max([*versions, declared.get(prefix, "0")], key=number)
        if declared != version_needs(open(target, "rb").read()):
            raise NoAnswer(f"the program made needs {version_needs(open(target, 'rb').read())}, not {declared}")
    elif p["kind"] == "release":
        shutil.copy(os.environ["RIPVERIF_RELEASE"], target)
        arch = {"i386"} if open(target, "rb").read()[4] == 1 else {"amd64"}
    elif p["kind"] == "header":
        machine, bits, big = p["target"]
        open(target, "wb").write(bare_header(dict(p, machine=machine, bits=bits, big=big)))
        arch = debian_arch(machine, bits, big, p["flags"])
        # no strip knows all machines
        stand_in("strip", "exit 0")
    elif p["kind"] == "junk":
        open(target, "wb").write(bytes.fromhex(p["bytes"]))
    if p["kind"] != "missing":
        # what cargo would have made
        os.chmod(target, 0o777 & ~c["umask"])
        program = open(target, "rb").read()
        if c.get("links") in ("program", "far"):
            real = f"{top}/ripcalc-0.1" if c["links"] == "far" else f"{code}/target/release/ripcalc-0.1"
            os.rename(target, real)
            os.symlink(real if c["links"] == "far" else "ripcalc-0.1", target)
    stale = {}
    if c["stale"]:
        for a in ("amd64", "i386", "arm64", "armel", "s390x"):
            for k in (commits(c), commits(c) + 1):
                n = f"ripcalc_{k}_{a}.deb"
                subprocess.run(["ar", "rc", n, "Cargo.toml"], cwd=code, check=True)
                stale[n] = open(f"{code}/{n}", "rb").read()
    script = f"{code}/contrib/debianize.py"
    cwd = {"code": code, "contrib": f"{code}/contrib", "root": "/", "elsewhere": other}[c["cwd"]]
    if c["call"] == "link":
        script = f"{other}/link.py"
        os.symlink(f"{code}/contrib/debianize.py", script)
    elif c["call"] == "relative":
        script = os.path.relpath(script, cwd)
    env = {"PATH": path, "TZ": c["tz"], "TMPDIR": tmp, "HOME": other, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_CEILING_DIRECTORIES": os.path.dirname(top), "LOCPATH": scratch_tools(), **c["lang"], **c.get("vars", {})}
    if "tool" in fault:
        tool = shutil.which(fault["tool"], path=path)
        stand_in(fault["tool"], {"at once": "exit 1", "afterwards": f'"{tool}" "$@"\nexit 3', "killed": f'"{tool}" "$@"\nkill -9 $$', "killed at once": "kill -9 $$", "half": f'"{tool}" "$@" | head -c 9\nkill -15 $$', "missing": "exit 127"}[fault["how"]] if tool and not tool.startswith(top) else "exit 1")
    if "room" in fault:
        env.update(LD_PRELOAD=f"{scratch_tools()}/full.so", DEB_FULL=code, DEB_ROOM=str(fault["room"]))
        if fault["kill"]:
            env["DEB_KILL"] = "1"
    as_user = {}
    if c.get("user") and os.geteuid() == 0:
        for d, dirs, files in os.walk(top):
            for n in [d] + [os.path.join(d, n) for n in files]:
                os.chown(n, c["user"], c["user"], follow_symlinks=False)
        as_user = {"user": c["user"], "group": c["user"], "extra_groups": []}
    if c.get("setgid") and os.geteuid() == 0:
        os.chown(tmp, -1, 5)
        os.chmod(tmp, 0o2777)
    before = snapshot(top)
    started = time.time()
    try:
        r = subprocess.run([PYTHON, "-B", script], cwd=cwd, env=env, capture_output=True, timeout=120, umask=c["umask"], **as_user)
    except subprocess.TimeoutExpired:
        raise NoAnswer("debianize.py took more than two minutes")
    ended = time.time()
    after = snapshot(top)
    said = (r.stdout + r.stderr).decode("utf-8", "replace")[-300:]
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
    if r.returncode == -9 and fault.get("kill"):
        # stopped while it worked: what is called a package must be one
        for n in sorted(changed):
            if n.startswith("some code/") and n.endswith(".deb"):
                m = re.fullmatch(r"some code/ripcalc_([^_/]+)_([a-z0-9-]+)\.deb", n)
                need(m is not None and arch is not None and m[2] in arch and commits(c) > 0 and n in after, f"stopped while it worked, it left {n}")
                check_package(open(f"{top}/{n}", "rb").read(), c, m[2], n, program, started, ended)
        return "stopped"
    if r.returncode != 0:
        need(changed == set(), f"it failed, but {sorted(changed)} changed")
        if fault:
            return "fault"
        if p["kind"] in ("junk", "missing") or c["commits"] == 0:
            return "refused"
        if p["kind"] == "header" and tuple(p["target"]) not in KNOWN:
            return "refused"
        if any(prefix not in ("GLIBC", "GCC") for prefix, _ in p.get("needs", [])):
            return "refused"
        raise Broken(f"no package was made (status {r.returncode}): {said}")
    need(c["commits"] > 0, f"there is no commit, but a package was made: {said}")
    need(p["kind"] not in ("junk", "missing"), f"there is no program, but a package was made: {said}")
    need(r.stdout.endswith(b"\n") and r.stdout.count(b"\n") == 1, f"standard output: {r.stdout!r}")
    name = r.stdout.decode().strip()
    m = re.fullmatch(r"ripcalc_([^_/]+)_([a-z0-9-]+)\.deb", name)
    need(m is not None and m[1] == str(commits(c)), f"the package is called {name!r}, with {commits(c)} commits")
    need(arch is None or m[2] in arch, f"the package is called {name!r}, expected architecture {arch}")
    need(arch is not None, f"the package is called {name!r}, though Debian does not have this architecture")
    need(changed == {f"some code/{name}"}, f"changed files: {sorted(changed)}, announced: {name!r}")
    data = open(f"{code}/{name}", "rb").read()
    check_package(data, c, m[2], name, program, started, ended)
    if shutil.which("dpkg-deb"):
        for what in ("--info", "--contents"):
            q = subprocess.run(["dpkg-deb", what, f"{code}/{name}"], capture_output=True, text=True)
            need(q.returncode == 0, f"dpkg-deb {what}: {q.stderr[-300:]}")
    return "package in spite of a fault" if fault else "package"


def snapshot(top):
    out = {}
    for d, dirs, files in os.walk(top):
        if ".git" in dirs:
            dirs.remove(".git")
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), top)] = None
        for n in files:
            p = os.path.join(d, n)
            out[os.path.relpath(p, top)] = os.readlink(p) if os.path.islink(p) else hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


# ------------------------------------------------------------------------------------------------
# driver

def describe(c, kind):
    """A label for the statistics, and whether the case is a non-trivial one."""
    return kind + ", " + c["program"]["kind"], kind != "package" or bool(c["program"].get("needs")) or c["program"]["kind"] == "release"


ASSUMPTIONS = ["git, tar, xz, ar, strip and readelf are installed, as the script requires; gcc makes the programs."]
QUICK, THOROUGH = 140, 4000


def worker(shard, shards, n, seed_value, regress, budget):
    out = {"evaluations": 0, "kinds": {}, "distinct": [], "samples": [], "failure": None, "error": None, "short": False}
    end = time.time() + budget
    seen = set()
    last = {}

    def one(c):
        out["evaluations"] += 1
        kind = check_case(c)
        label, counts = describe(c, kind)
        out["kinds"][label] = out["kinds"].get(label, 0) + 1
        text = json.dumps(c, sort_keys=True)
        if counts and text not in seen:
            seen.add(text)
            if len(out["samples"]) < 2:
                out["samples"].append(c)

    def body(c):
        if time.time() > end:
            out["short"] = True
            return
        try:
            one(c)
        except Broken as e:
            last["case"], last["why"] = c, str(e)
            raise

    try:
        for c in (regress + systematic())[shard::shards]:
            body(c)
        test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False)(seed(seed_value * 1000 + shard)(given(cases)(body)))
        test()
    except Broken:
        out["failure"] = last
    except NoAnswer as e:
        out["error"] = str(e)
    except Exception as e:  # hypothesis: flaky and the like
        if last:
            out["failure"] = last
        else:
            out["error"] = repr(e)
    out["distinct"] = [hashlib.sha256(t.encode()).hexdigest()[:16] for t in seen]
    return out


def check():
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed_value = int(os.environ.get("VERIF_SEED") or 1)
    per = QUICK if tier == "quick" else THOROUGH
    per = max(1, int(per * float(os.environ.get("RIPVERIF_SCALE") or 1)))
    start = time.time()
    try:
        regress = [json.loads(l) for l in open(f"{ROOT}/regress/{ID}.jsonl") if l.strip()]
    except FileNotFoundError:
        regress = []
    shards = 8
    atexit.register(shutil.rmtree, scratch_tools(), ignore_errors=True)
    with multiprocessing.Pool(shards) as pool:
        results = pool.starmap(worker, [(i, shards, per, seed_value, regress, 500 if tier == "quick" else 5 * 3600) for i in range(shards)])
    failure = next((r["failure"] for r in results if r["failure"]), None)
    error = next((r["error"] for r in results if r["error"]), None)
    if failure:
        # in a process of its own, and more than once
        for _ in range(2):
            try:
                check_case(failure["case"])
                failure, error = None, f"a failure did not happen again: {failure['why']}"
                break
            except Broken as e:
                failure["why"] = str(e)
            except NoAnswer as e:
                failure, error = None, str(e)
                break
    kinds = {}
    for r in results:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    total = sum(r["evaluations"] for r in results)
    distinct = len({d for r in results for d in r["distinct"]})
    evidence = {
        "property": ID, "tier": tier, "seed": seed_value, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": distinct, "rule": RULE, "samples": [s for r in results for s in r["samples"]][:12], "regression_cases": len(regress), "systematic_cases": len(systematic()), "labels": kinds,
            "notes": ["the time limit was reached before all planned cases were generated"] if any(r["short"] for r in results) else [],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": 0,
    }
    status = 0
    if failure:
        digest = hashlib.sha256(json.dumps(failure["case"], sort_keys=True).encode()).hexdigest()[:16]
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        replay = f"{ROOT}/replays/{ID}-{digest}.json"
        json.dump({"property": ID, "case": failure["case"], "message": failure["why"]}, open(replay, "w"), indent=1)
        evidence["violations"] = 1
        evidence["replay"] = replay
        evidence["message"] = failure["why"]
        print(f"{ID}: {failure['why']}")
        print(f"VIOLATION property={ID} replay={replay}")
        status = 1
    elif error:
        print(f"ERROR {ID}: {error}")
        status = 2
    else:
        print(f"{ID}: held on {total} cases ({distinct} distinct non-trivial; {kinds}) in {time.time() - start:.1f} s")
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump(evidence, open(f"{ROOT}/evidence/{ID}.json", "w"), indent=1)
    return status


def replay(path):
    d = json.load(open(path))
    atexit.register(lambda: TOOLS and shutil.rmtree(TOOLS, ignore_errors=True))
    try:
        print(f"{ID}: held ({check_case(d['case'])})")
        return 0
    except Broken as e:
        print(f"{ID}: {e}")
        print(f"VIOLATION property={ID} replay={path}")
        return 1
    except NoAnswer as e:
        print(f"ERROR {ID}: {e}")
        return 2


def main():
    if sys.argv[1:] == ["check"]:
        sys.exit(check())
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(f"usage: {sys.argv[0]} check | replay FILE")
    sys.exit(2)


if __name__ == "__main__":
    main()
