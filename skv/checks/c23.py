"""Every environmental failure ends in a diagnosed, clean non-zero exit."""
import os, random, shutil, stat
from .. import build, exec as ex, gen, lang
from ..server import base_env
from . import _faults, c03

PROP, LEVEL = "C23", "fault_enumeration"
RULE = ("programs x output modes under AddressSanitizer with one environmental fault each: every occurrence in turn (and with all later ones) of every failing call of the compiler's own code - allocation, copying, opening, reading, seeking, "
        "closing, flushing, starting and awaiting the C compiler, removing - and of LLVM's open, write, short write and close; file size limits up to the size of the output, full and closed standard output, descriptor limits, destinations that "
        "are full, directories or in missing directories, unreadable sources, a C compiler that is missing, fails or is killed, also with SIGCHLD ignored or other children ending meanwhile, and a current directory that is gone; the outcome is judged by status, message and a byte comparison of the output with the fault-free run's; "
        "non-trivial: runs in which the fault was hit; distinct by program, mode and fault")
ASSUMPTIONS = ["allocation failures inside LLVM and libc are not injected", "a C compiler that reports success has succeeded"]
UNITS = {"quick": 66, "thorough": 4000}
VARIANTS = ("fault",)
MODES = [["-E"], ["-S"], ["-c"], [], ["--c-backend"], ["--c-backend", "-E"], ["-E", "-o", "out.x"], ["-c", "-o", "d/out.x"], ["-S", "-o", "out.x"], ["--c-backend", "-o", "d/out.x"], ["-o", "out.x"]]
MORE = [[], [], [], [], ["-g"], ["-O2"], ["-q"], ["--werror"], ["-g", "-O1"], ["--color"], ["-g", "--llvm-no-verify"]]
ERR = [5, 12, 28, 13, 24, 4]
CALLS = "malloc calloc realloc strdup fopen fread fseek ftell fclose fflush getcwd fork execvp wait remove setlocale open write wshort close".split()
HAND = [
    "external puts(s: Str)\nf(a: Int) Int {\n\tmut t := a\n\tt = t + 1\n\treturn t\n}\nexport g := \"x\"\nmut i := 0\nwhile i < 3 {\n\ti = i + 1\n\tif i is 2 {\n\t\tputs(\"é\")\n\t}\n}\nreturn f(4)\n",
    "return 3\n", "x := 1\nmut y := 2\nz() {\n\tnoop\n}\n", "import b\n# note\nreturn 0\n",
    "#{ a\nb #}\nmut a: Float = 1.5\na = a * 2.0\nif a is 3.0 {\n\ta = 1.0\n} elif a > 2.0 {\n\ta = 2.0\n} else {\n\tnoop\n}\nc := 'x'\nif c is '\\n' {\n\treturn 1\n}\nreturn 2\n",
    "A := Int\nf(x: A, y: &Int) Int {\n\treturn x + *y\n}\nv := 0x1f\nr := &v\nns_ := \"a\\tb\"\nif ns_ is \"b\" and not true {\n\tnoop\n}\nreturn f(1, r)\n",
]
ERRONEOUS = ["x := nosuch\n", "f(\n", "x := 1\nx := 2\ny := zz\n", "return \"\n", "mut a := 1\na = 1.5\n", "import nosuch\n", "é := 1\n"]


def program(r, i):
    """(text, valid)"""
    if i < len(HAND) * 2:
        return HAND[i % len(HAND)], True
    x = r.random()
    if x < 0.25:
        return r.choice(HAND), True
    if x < 0.4:
        return r.choice(ERRONEOUS), False
    if x < 0.5:
        return c03.many_names(r), True
    if x < 0.6:
        n = r.choice([300, 1200])
        return "\n".join("export v%d := %d" % (k, r.getrandbits(50)) for k in range(n)) + "\nreturn 0\n", True
    return lang.show(gen.make(r, size=r.choice([3, 8]))[0]), True


def clean(d, text):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "d"))
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(text)
    with open(os.path.join(d, "b.sk"), "wb") as f:
        f.write(b"return 0\n")


def outputs(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            if f not in ("a.sk", "b.sk") and stat.S_ISREG(os.lstat(p).st_mode):
                with open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
    return out


def counts(s):
    with open(os.path.join(s.dir, "out.cnt")) as f:
        return {k: int(v) for k, v in (l.split() for l in f)}


def cc_dir(w, kind):
    """a directory for PATH in which the C compiler misbehaves"""
    p = os.path.join(w.dir, "cc-" + kind)
    if not os.path.isdir(p):
        os.makedirs(p)
        if kind != "missing":
            with open(os.path.join(p, "cc"), "w") as f:
                f.write("#!/bin/sh\n" + {"fails": "echo cc: error >&2; exit 1\n", "fails3": "echo cc: error >&2; exit 3\n", "fails255": "echo cc: error >&2; exit 255\n", "fails128": "echo cc: error >&2; exit 128\n", "fails64": "echo cc: error >&2; exit 64\n", "killed": "kill -9 $$\n", "segv": "kill -11 $$\n", "term": "kill -15 $$\n"}[kind])
            os.chmod(os.path.join(p, "cc"), 0o644 if kind == "noexec" else 0o755)
    return p


def unit(w, i, rng, rep):
    r = random.Random(rng.getrandbits(64))
    text, valid = program(r, i)
    data = text.encode("utf-8", "surrogateescape")
    mode = MODES[i % len(MODES)] + r.choice(MORE)
    exe = "-E" not in mode and "-S" not in mode and "-c" not in mode and "--c-backend" not in mode
    rest = ["--", ex.rt_obj("standalone")] if exe and "sk_" in text else []
    args = ["a.sk"] + mode + rest
    s, d = w.server("fault"), os.path.join(w.dir, "c23")
    clean(d, data)
    ref = s.run(args, d, 60)
    refout, cnt = outputs(d), counts(s)
    if ref.timed_out:
        rep.inconclusive.append("timeout")
        return
    where = "a.sk " + " ".join(mode)
    keep = {"source.sk": data, "command.txt": where}
    if ref.crashed or ref.rc not in (0, 1):
        return rep.violation("reference", "%s without any fault: status %d: %s" % (where, ref.rc, ref.stderr[-300:]), keep)
    ok = ref.rc == 0
    nout = sum(map(len, refout.values())) + len(ref.stdout)

    def judge(fault, res, must=False, silent=False, hit=True, gone=False):
        """must: the run has to fail; silent: it cannot say so"""
        if res.timed_out:
            rep.inconclusive.append("timeout")
            return
        rep.counts["runs"] += 1
        if hit:
            rep.eval(data + repr((args, fault)).encode(), {"command": where, "fault": fault, "exit": res.rc})
            rep.counts["faults hit"] += 1
            rep.cover["faults"].add(fault.split(" ")[0].split(":")[0])
            rep.cover["outcomes"].add("exit %d" % res.rc)
        k = dict(keep, **{"fault.txt": fault.replace("\x02", "") + "\n", "stderr.txt": res.stderr})
        tail = res.stderr[-400:].decode("utf-8", "replace")
        if res.crashed or res.signal:
            return rep.violation("crash", "%s with %s: %s: %s" % (where, fault, "signal %d" % res.signal if res.signal else "status %d" % res.rc, tail), k)
        if res.rc == 0:
            if must:
                return rep.violation("success", "%s with %s: exit status 0" % (where, fault), k)
            if not ok:
                return rep.violation("accepted", "%s with %s: exit status 0 for a refused program" % (where, fault), k)
            got = outputs(d)
            if gone and "-g" in mode:                          # the directory is part of the output
                return
            if any(got.get(n) != b for n, b in refout.items()):
                n = next(n for n, b in refout.items() if got.get(n) != b)
                return rep.violation("incomplete", "%s with %s: exit status 0, but %s %s" % (where, fault, n, "is missing" if n not in got else "has %d of %d bytes" % (len(got[n]), len(refout[n])) if len(got[n]) != len(refout[n]) else "differs"), k)
            if res.stdout != ref.stdout:
                return rep.violation("incomplete", "%s with %s: exit status 0, but standard output has %d bytes instead of %d" % (where, fault, len(res.stdout), len(ref.stdout)), k)
        elif not silent and not res.stderr.strip() and "-q" not in mode:    # -q hides errors, a finding of its own
            return rep.violation("silent", "%s with %s: exit status %d and no message" % (where, fault, res.rc), k)

    def run(fault, extra, server=None, **kw):
        clean(d, data)
        x = server or s
        res = x.run(extra + args, d, 60)
        c = counts(x)
        judge(fault, res, hit=kw.pop("always", False) or c["hit"] > 0, **kw)
        return res

    budget = 300 if w.tier == "quick" else 3000
    jobs = []
    for c in CALLS:
        n = cnt.get(c, 0)
        at = list(range(1, n + 1))
        cap = budget // 5
        if n > cap:
            at = sorted(set(at[:20] + at[-20:] + r.sample(at, cap - 40)))
        must = c in ("fork", "execvp", "wait")
        for k in at:
            jobs.append(("%s:%d" % (c, k), ["\x02fault=%s:%d" % (c, k)], must))
        for k in at if n < 8 else r.sample(at, 8):
            jobs.append(("%s:%d and later" % (c, k), ["\x02faults=%s:%d" % (c, k)], must))
        if n and c in ("open", "write", "fopen", "fork", "execvp", "remove"):
            for e in r.sample(ERR, 2):
                k = r.randint(1, n)
                jobs.append(("%s:%d errno %d" % (c, k, e), ["\x02errno=%d" % e, "\x02fault=%s:%d" % (c, k)], must))
        if n and c == "fread":
            for k in at:
                jobs.append(("%s:%d half" % (c, k), ["\x02errno=1", "\x02fault=%s:%d" % (c, k)], False))
    # a read error of the source is never harmless
    for f, x, must in jobs:
        run(f, x, must=must)
    size = max([len(b) for b in refout.values()] + [len(ref.stdout)])
    if ok and size:
        for n in sorted({0, 1, size - 1, size // 2, min(4096, size - 1), min(4095, size - 1), min(8192, size - 1)} | {r.randrange(size) for _ in range(6)}):
            if not exe:
                run("fsize:%d" % n, ["\x02fsize=%d" % n], must=True, always=True)
        if exe:
            run("fsize:100", ["\x02fsize=100"], must=True, always=True)
    if ok and ref.stdout:
        run("full standard output", ["\x02full"], must=True, always=True)
        run("closed standard output", ["\x02close=1"], must=True, always=True)
    else:
        run("full standard output", ["\x02full"], always=True)
        run("closed standard output", ["\x02close=1"], always=True)
    run("closed standard error", ["\x02close=2"], always=True, silent=True)
    run("closed standard input", ["\x02close=0"], always=True)
    run("all closed", ["\x02close=0", "\x02close=1", "\x02close=2"], always=True, silent=True)
    for n in (3, 4, 5):
        run("nofile:%d" % n, ["\x02nofile=%d" % n], always=True)
    # destinations
    if ok and "-o" in mode:
        dest = os.path.join(d, mode[mode.index("-o") + 1])

        def at(what, make):
            clean(d, data)
            make()
            res = s.run(args, d, 60)
            judge(what, res, must=True)
        at("destination is a directory", lambda: os.mkdir(dest))
        at("destination is a full directory", lambda: os.makedirs(dest + "/x"))
        if not exe:
            at("destination is full", lambda: os.symlink("/dev/full", dest))
        if "/d/" in dest:
            at("destination's directory is missing", lambda: shutil.rmtree(os.path.dirname(dest)))
            at("destination's directory is a file", lambda: (shutil.rmtree(os.path.dirname(dest)), open(os.path.dirname(dest), "w").close()))
    elif ok and not exe and refout:
        dest = os.path.join(d, next(iter(refout)))
        for what, make in (("default destination is a directory", lambda: os.mkdir(dest)), ("default destination is full", lambda: os.symlink("/dev/full", dest))):
            clean(d, data)
            make()
            judge(what, s.run(args, d, 60), must=True)
    # sources
    def src(what, make):
        clean(d, data)
        os.remove(os.path.join(d, "a.sk"))
        make(os.path.join(d, "a.sk"))
        judge(what, s.run(args, d, 60), must=True)
    src("source is missing", lambda p: None)
    src("source is a directory", os.mkdir)
    src("source is a dangling link", lambda p: os.symlink("nowhere", p))
    src("source is a link to itself", lambda p: os.symlink("a.sk", p))
    # a current directory that does not exist
    if "-o" not in mode:
        clean(d, data)
        full = [os.path.join(d, "a.sk")] + mode + rest
        aref = s.run(full, d, 60)
        if not aref.timed_out:
            keep_ref = ref, refout
            ref, refout = aref, outputs(d)
            clean(d, data)
            gone = os.path.join(w.dir, "gone")
            judge("current directory is gone", s.run(["\x02gone=" + gone] + full, d, 60), gone=True)
            ref, refout = keep_ref
    # the C compiler
    if exe and ok:
        for kind in ("missing", "fails", "fails3", "fails255", "fails128", "fails64", "killed", "segv", "term"):
            p = cc_dir(w, kind)
            for extra in ([], [r.choice(["\x02sigchld", "\x02child=%d:%d" % (r.choice([1, 5, 20, 60]), r.choice([0, 7]))])]):
                run("cc %s %s" % (kind, " ".join(extra)), extra, server=w.server("fault", base_env(PATH=p), "cc" + kind), must=True, always=True)
        run("SIGCHLD is ignored", ["\x02sigchld"], always=True)
        for ms in (0, 3, 10, 30, 80):
            run("another child ends after %d ms" % ms, ["\x02child=%d:%d" % (ms, r.choice([0, 0, 1, 255]))], always=True)
