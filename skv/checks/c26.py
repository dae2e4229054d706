"""Compilations made one after another in one process (as a program embedding the compiler makes them) are independent."""
import os, random, shutil
from ..server import base_env
from . import c03, c11

PROP, LEVEL = "C26", "exploration"
RULE = ("histories of 2 to 120 compilations in one process: valid, warned-about, faulty, mangled and empty sources in every output mode, with the settings put "
        "back in between, in the plain build and under AddressSanitizer; each step's status, both streams and output file are compared byte for byte with the same "
        "compilation in a process of its own, and the number of open descriptors with that before the step; "
        "non-trivial: every step after the first; distinct by history")
ASSUMPTIONS = ["between the steps the embedding program puts the public settings (BUILD_DATA) back to zero; memory that is not given back is not judged"]
UNITS = {"quick": 160, "thorough": 8000}
VARIANTS = ("plain", "seq", "seqasan")
MODES = [["-E"], ["-E"], ["-c"], ["-S"], ["--c-backend"], ["-E", "-g"], ["-c", "-g"], ["-c", "-O2"], ["-E", "-O3"], ["-E", "-q"], ["-E", "--werror"], ["-E", "--color"],
         ["-c", "-O1", "-g"], ["-q", "-c"], ["--c-backend", "-q"], ["-E", "--llvm-no-verify"], [], ["-g"], ["-O2"]]
SMALL = ["", " \n", "# only a comment\n", "import nosuch\n", "import lib\n", "return 3\n", "x := 1\n", "mut x := 1\n", "if true {\n\tx := 1\n}\n", "noop\n", "y := nosuch\n",
         "x := \"é\"\n", "x := \"\\q\"\n", "export f() {\n\tnoop\n}\n", "external g() Int\nx := g()\nreturn x\n", "namespace n {\n\tx := 1\n}\n", "type T = Int\nx: T = 1\n",
         "x := 2 ^ 10\n", "s := \"a\" is \"b\"\n", "f() Int {\n\treturn 1\n}\n", "while true {\n\tbreak\n}\n", "else {\n\tnoop\n}\n", "f(\n", "unreachable\n", "x := 1 / 0\n"]


def data(r):
    if r.random() < 0.45:
        t = "".join(r.choice(SMALL) for _ in range(r.choice([1, 1, 2])))
        return t.encode()
    if r.random() < 0.05:
        return b"x := \xff\n"
    if r.random() < 0.12:
        # faulty literals: what the message quotes must be of this source, not of an earlier one
        return ("x := %s\n" % c11.bad_lit(r)[1]).encode("utf-8", "surrogateescape")
    if r.random() < 0.06:
        return ("x := %s\n" % r.choice(["\"\\%s\"" % r.choice("qzkQZ~-9"), "'\\%s'" % r.choice("qzkQZ~-9"), "\"a\\xZ%d\"" % r.randint(0, 9), "nosuch%d" % r.randint(0, 99),
                                       "f%d()" % r.randint(0, 9), "1 + %d.5" % r.randint(0, 9)])).encode()
    return c03.source(r)


def files(d, name):
    out = c03.snapshot(d, name)
    out.pop("lib.sk", None)
    return out


def unit(w, i, rng, rep):
    variant = "seqasan" if i % 3 == 2 else "seq"
    r = random.Random(rng.getrandbits(64))
    long = i % 16 == 5
    n = r.randint(60, 120) if long else r.choice([2, 3, 4, 6, 9, 14, 20, 30])
    pool = []
    for _ in range(r.randint(2, 6) if long else n):
        pool.append((data(r), r.choice(MODES), r.choice(["a.sk", "a.sk", "b.sk", "mod.sk", "dir/c.sk"])))
    steps = [r.choice(pool) for _ in range(n)] if long or r.random() < 0.4 else pool
    d = w.sub("seq")
    argv, dirs = [], []
    for k, (b, args, name) in enumerate(steps):
        # the directory is part of the file name, and every step has the same length of it
        x = os.path.join(d, "s%03d" % k)
        os.makedirs(os.path.join(x, os.path.dirname(name)))
        for nm, c in ((name, b), ("lib.sk", b"noop\n")):
            with open(os.path.join(x, nm), "wb") as f:
                f.write(c)
        dirs.append(x)
        argv += (["\3"] if k else []) + ["s%03d/%s" % (k, name)] + args
    srv = w.server(variant)
    res = srv.run(argv, d, 100)
    if res.timed_out:
        rep.inconclusive.append("timeout")
        return
    base = os.path.join(srv.dir, "out")
    first = None
    for k, (b, args, name) in enumerate(steps):
        got = None
        if os.path.exists("%s.%d.rc" % (base, k)):
            with open("%s.%d.rc" % (base, k)) as f:
                rc, fds, lost = map(int, f.read().split())
            got = [rc] + [open("%s.%d%s" % (base, k, x), "rb").read() for x in ("", ".err")]
            for x in ("", ".err", ".rc"):
                os.unlink("%s.%d%s" % (base, k, x))
        fl = files(dirs[k], name)
        hist = "step %d of %d (%s)" % (k + 1, n, " ".join([name] + args))
        keep = {"step%02d.sk" % j: s[0] for j, s in enumerate(steps[:k + 1])}
        keep["history.txt"] = "\n".join(" ".join([nm] + a) for _, a, nm in steps[:k + 1]) + "\n"
        if got is None:
            # what does it do on its own?  (a crash of its own is not this property's)
            solo = w.server("plain").run(["s%03d/%s" % (k, name)] + args, d, 60)
            if solo.timed_out or solo.crashed or solo.rc not in (0, 1):
                rep.inconclusive.append("fails alone")
                return
            err = open("%s.%d.err" % (base, k), "rb").read() if os.path.exists("%s.%d.err" % (base, k)) else b""
            rep.violation("died", "%s: the process ended (status %d) in it; alone it exits with %d: %s" % (hist, res.status, solo.rc, err[-1500:].decode("utf-8", "replace")), keep)
            return
        for f in fl:
            os.unlink(os.path.join(dirs[k], f))
        solo = w.server("plain").run(["s%03d/%s" % (k, name)] + args, d, 60)
        if solo.timed_out:
            rep.inconclusive.append("timeout")
            return
        want = [solo.rc, solo.stdout, solo.stderr]
        wfl = files(dirs[k], name)
        if first is None:
            first = fds
        rep.eval("\n".join(sorted(keep)) + repr((steps[:k + 1])), {"history": [" ".join([nm] + a) for _, a, nm in steps[:k + 1]][-3:], "exit": got[0], "files": sorted(fl)})
        rep.counts["steps"] += 1
        rep.counts["files compared"] += len(fl)
        rep.counts["accepted steps"] += got[0] == 0
        rep.counts["after a refused step"] += k > 0 and last != 0
        rep.cover["modes"].add(" ".join(args))
        last = got[0]
        if solo.crashed:
            rep.inconclusive.append("fails alone")
            return
        if got[0] != want[0]:
            rep.violation("status", "%s: status %d, alone %d: %s" % (hist, got[0], want[0], (got[2] + want[2])[:600].decode("utf-8", "replace")), keep)
        elif got[1:] != want[1:]:
            rep.violation("messages", "%s prints something else than alone: %r, alone %r" % (hist, (got[1] + got[2])[:300], (want[1] + want[2])[:300]), keep)
        elif fl != wfl:
            x = next(x for x in sorted(set(fl) | set(wfl)) if fl.get(x) != wfl.get(x))
            keep.update({"in-history.out": fl.get(x, (0, b"absent"))[1], "alone.out": wfl.get(x, (0, b"absent"))[1]})
            rep.violation("files", "%s: the file %s differs from what is written alone" % (hist, x), keep)
        elif lost:
            rep.violation("stream", "%s closes the standard output or error of the program it runs in" % hist, keep)
        elif fds > first:
            rep.violation("descriptors", "%s: %d descriptors open after it, %d after the first step" % (hist, fds, first), keep)
        else:
            continue
        return
    if res.status:
        rep.violation("end", "the process that made %d compilations ended with status %d: %s" % (n, res.status, res.stderr[-800:].decode("utf-8", "replace")))
    rep.cover["history lengths"].add(str(n))
