"""Compiling again gives the same bytes, whatever memory, addresses, environment, clock and directory contents are."""
import os, random, shutil
from .. import gen, lang
from ..server import base_env, memcheck_report, strip_memcheck
from . import _faults, c01, c17

PROP, LEVEL = "C03", "exploration"
RULE = ("valid, warned-about, faulty and mangled sources x output modes, each compiled several times in separate processes with different address "
        "layouts, heap fill patterns, allocator settings, environments, clocks, working directories and stale outputs; status, both streams and every file "
        "compared byte for byte; a sample also under valgrind, where any use of uninitialised memory is a violation; "
        "non-trivial: every comparison of two runs; distinct by source and command")
ASSUMPTIONS = ["COLOR and the locale variables, which are documented inputs, are not varied; the compared runs use the same relative path, and with -g, which records it, the same directory"]
UNITS = {"quick": 96, "thorough": 6000}
VARIANTS = ("plain",)
PER = 8
MEM = 1
MODES = [["-E"], ["-E"], ["-c"], ["-S"], ["--c-backend"], ["-E", "-g"], ["-c", "-g"], ["-S", "-g"], ["-c", "-O2"], ["-E", "-O3"], ["--c-backend", "-g"], ["-E", "-q"], ["-E", "--werror"],
         ["-E", "--color"], ["-c", "-o", "out.o"], ["-E", "-o", "out.ll"], ["--c-backend", "-o", "out.c"], []]
NAMES = ["a.sk", "a.sk", "dir/b.sk", "x y.sk", "./c.sk", "über.sk"]


def envs():
    e = [("base", base_env())]
    e.append(("fill-a5", base_env(MALLOC_PERTURB_="165", USER="somebody", SKV_SKEW="86400000", HOME="/root", PWD="/nowhere")))
    e.append(("fill-5a", base_env(MALLOC_PERTURB_="90", JUNK="j" * 30000, TERM="xterm-256color", SKV_SKEW="-1000000", TMPDIR="/tmp")))
    e.append(("arena", base_env(GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096:glibc.malloc.top_pad=100000", MALLOC_PERTURB_="1", SKV_SKEW="40", HOSTNAME="elsewhere", SKULL="1", DEBUG="1", CC="clang", CFLAGS="-g", SOURCE_DATE_EPOCH="1")))
    return e


def many_names(r):
    """unused and never-changed variables and functions: the order of reports is the order of a table"""
    n = r.randint(2, 60)
    out = []
    for k in range(n):
        nm = "".join(r.choice("abcxyz") for _ in range(r.randint(1, 4))) + str(k)
        out.append(r.choice(["%s := 1", "mut %s := 2", "%s() {\n\tnoop\n}", "%s: Int = 3", "mut %s := \"s\"", "if true {\n\t%s := 1\n}"]) % nm)
    return "\n".join(out) + "\n"


def source(r):
    x = r.random()
    if x < 0.45:
        return lang.show(gen.make(r)[0], lang.RandomLayout(r) if r.random() < 0.3 else None).encode()
    if x < 0.6:
        return many_names(r).encode()
    if x < 0.8:
        f = _faults.make(r)
        return (f.text if f else many_names(r)).encode("utf-8", "surrogateescape")
    return c01.source(r) if hasattr(c01, "source") else c01.mutate(r, c01.base(r))


def snapshot(d, skip):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            n = os.path.relpath(p, d)
            if n != os.path.normpath(skip):
                with open(p, "rb") as h:
                    out[n] = (os.stat(p).st_mode & 0o777, h.read())
    return out


def one(s, d, name, data, args, stale, timeout=30):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
    with open(os.path.join(d, name), "wb") as f:
        f.write(data)
    for n, (m, b) in (stale or {}).items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b"\0stale" * 5000 + b)
        os.chmod(os.path.join(d, n), m)
    res = s.run([name] + args, d, timeout)
    return res, snapshot(d, name)


def unit(w, i, rng, rep):
    es = envs()
    for _ in range(PER):
        r = random.Random(rng.getrandbits(64))
        data, name, args = source(r), r.choice(NAMES), r.choice(MODES)
        name_bytes = name
        res0 = None
        for k, (tag, e) in enumerate(es):
            s = w.server("plain", e, "c03" + tag)
            d = os.path.join(w.dir, "det", "elsewhere" if k == 3 and "-g" not in args else "here")
            res, files = one(s, d, name_bytes, data, args, files0 if k == 2 and res0.rc == 0 else None)
            if res.timed_out:
                rep.inconclusive.append("timeout")
                break
            if res0 is None:
                res0, files0 = res, files
                continue
            rep.eval(data + repr((name, args, tag)).encode(), {"args": args, "exit": res.rc, "files": sorted(files)})
            rep.counts["comparisons"] += 1
            rep.counts["files compared"] += len(files)
            rep.cover["modes"].add(" ".join(args))
            rep.cover["outcomes"].add("exit %d" % res.rc)
            what = "%s %s: run under '%s' differs from the first run" % (name, " ".join(args), tag)
            keep = {"source.sk": data, "first.out": res0.out, "second.out": res.out}
            if res.status != res0.status:
                rep.violation("status", "%s: status %d, then %d" % (what, res0.status, res.status), keep)
            elif res.stdout != res0.stdout or res.stderr != res0.stderr:
                rep.violation("messages", "%s in what it prints" % what, keep)
            elif files != files0:
                n = next(x for x in sorted(set(files) | set(files0)) if files.get(x) != files0.get(x))
                keep.update({"first.file": files0.get(n, (0, b"absent"))[1], "second.file": files.get(n, (0, b"absent"))[1]})
                rep.violation("files", "%s in the file %s" % (what, n), keep)
            else:
                continue
            break
    for _ in range(MEM):
        r = random.Random(rng.getrandbits(64))
        data = source(r)
        args = r.choice([["-E"], ["-E"], ["--c-backend"], ["-E", "-g"]])
        res, _ = one(w.server("memcheck"), os.path.join(w.dir, "det", "mem"), "a.sk", data, args, None, 60)
        rep.eval(data + b"memcheck")
        rep.counts["memcheck runs"] += 1
        m = memcheck_report(res)
        if res.timed_out:
            rep.inconclusive.append("memcheck timeout")
        elif m:
            rep.violation("uninitialised", "memcheck: " + m, {"source.sk": data, "valgrind.txt": res.stderr})
