"""Command lines mean what the manual page says."""
import difflib, os, random, re, shutil, subprocess
from .. import build, exec as ex
from ..server import base_env

PROP, LEVEL = "C18", "exploration"
RULE = ("random command lines: every combination of the documented options in every order and position around the file name, destinations, arguments after -- with every kind of special character (observed by a stand-in for cc that records its arguments), "
        "COLOR settings; and the same with exactly one mistake (conflict, repetition, unknown or incomplete option, bad file name, missing file, directory); outcome, outputs and files compared with a model of the manual; "
        "non-trivial: every command line; distinct by command line and environment")
ASSUMPTIONS = ["more than one file name on a command line is not generated; -O levels are told apart by comparing the IR with opt's at each level"]
UNITS = {"quick": 400, "thorough": 8000}
VARIANTS = ("plain",)
PER = 24
OPT = shutil.which("opt-19") or shutil.which("opt")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

WARN = "x := 1\nmut y := 2\nexport z := \"é\"\nf(a: Int) Int {\n\treturn a\n}\nreturn f(3)\n"      # three warnings
CLEAN = "f(a: Int) Int {\n\tmut t := a\n\tt = t + 1\n\treturn t\n}\nreturn f(4)\n"
BAD = "x := nosuch\n"
WARNINGS = 3
LEVELS = """external sk_pi(x: Int)
external sk_qi(x: Int) Int
add(a: Int, b: Int) Int {
	mut t := a
	mut i := 0
	while i < b {
		t = t + i * a
		i = i + 1
	}
	return t
}
big(n: Int) Int {
	mut s := 0
	mut k := 0
	while k < n {
		if k mod 3 is 0 {
			s = s + add(k, n)
		}
		else {
			s = s - k
		}
		k = k + 1
	}
	return s
}
sk_pi(big(sk_qi(10)))
sk_pi(add(3, 4))
"""

NAMES = ["a.sk"] * 5 + ["a b.sk", "./a.sk", "s/q.sk", "é.sk", "a.b.sk", "x.sk.sk", "q'r.sk", "$(x).sk", "s/.skdir/t.sk", "a;b.sk", "..sk.sk", "A" * 80 + ".sk"]
EXTRA = ["-v", "-DX=1", "-Wl,--as-needed", "-O2", "-DS=\"a b\"", "a'b", "$HOME", "`id`", "$(touch pwned)", "; touch pwned", "&", "| cat", "*", "?", "~", "a\\b", "\"", "''", "", " ", "é", "--", "-", "#x", "> redirected", "a\tb", "!x", "{a,b}", "-E", "-c", "-o"]


def cc_env(w, mode, color):
    d = os.path.join(w.dir, "fakebin")
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copy(os.path.join(HERE, "native", "fakecc.sh"), os.path.join(d, "cc"))
        os.chmod(os.path.join(d, "cc"), 0o755)
    e = base_env(SKV_CCLOG=os.path.join(w.dir, "cclog"), SKV_CCDO=mode)
    e["PATH"] = d + ":" + e["PATH"]
    if color is not None:
        e["COLOR"] = color
    return e


class Cmd:
    """a well-formed command line and what it asks for"""

    def __init__(self, r):
        self.r = r
        self.name = r.choice(NAMES)
        self.mode = r.choice(["-E", "-S", "-c", "exe", "c", "cE"])
        self.g = r.random() < 0.3
        self.o = r.choice([0, 0, 0, 1, 2, 3])
        self.quiet = self.werror = False
        x = r.random()
        if x < 0.25:
            self.quiet = True
        elif x < 0.5:
            self.werror = True
        self.color = r.random() < 0.2
        self.envcolor = None if self.color or r.random() < 0.8 else r.choice(["1", "0", "", "yes", "1x", "true"])
        self.noverify = r.random() < 0.15 and self.mode[0] != "c"
        self.dest = None
        if r.random() < 0.35:
            self.dest = r.choice(["out", "s/out", "o u t", "out.x", "-x", "./-"]) if self.mode in ("exe", "-c") or r.random() < 0.7 else "-"
        self.src = r.choice(["warn", "clean", "clean", "bad"])
        self.extra = [r.choice(EXTRA) for _ in range(r.randint(1, 4))] if r.random() < (0.7 if self.mode == "exe" else 0.1) else None
        self.toks = self.tokens()

    def tokens(self):
        t = {"-E": [["-E"]], "-S": [["-S"]], "-c": [["-c"]], "exe": [], "c": [["--c-backend"]], "cE": [["--c-backend"], ["-E"]]}[self.mode]
        t = list(t) + [[self.name]]
        if self.g:
            t.append(["-g"])
        if self.o:
            t.append(["-O%d" % self.o])
        if self.quiet:
            t.append(["-q"])
        if self.werror:
            t.append(["--werror"])
        if self.color:
            t.append(["--color"])
        if self.noverify:
            t.append(["--llvm-no-verify"])
        if self.dest is not None:
            t.append(["-o", self.dest])
        self.r.shuffle(t)
        return t

    def argv(self):
        return [a for t in self.toks for a in t] + (["--"] + self.extra if self.extra is not None else [])

    def target(self):
        """file that has to hold the output, or None for standard output"""
        if self.dest == "-":
            return None
        if self.dest is not None:
            return self.dest
        h, t = os.path.split(self.name)
        if self.mode in ("-E", "cE"):
            return None
        if self.mode == "exe":
            return self.name[:-3]
        return os.path.join(h, ".%s.%s" % (t, {"-S": "s", "-c": "o", "c": "c"}[self.mode]))


MISTAKES = ["dup", "unknown", "short", "level", "two levels", "two modes", "c verify", "quiet werror", "c asm", "color twice", "no output name", "no extra", "no file", "no extension", "bare .sk", "missing file", "directory", "no arguments at all", "binary to stdout", "no directory", "out is directory"]


def mistake(r, c, k):
    """turn c into a command line with the mistake k; None if it does not fit"""
    t = c.toks
    ins = lambda *x: t.insert(r.randrange(len(t) + 1), list(x))
    if k == "dup":
        o = [x for x in t if x[0][0] == "-"]
        if not o:
            return None
        ins(*r.choice(o))
    elif k == "unknown":
        ins(r.choice(["-x", "-z", "-1", "-e", "-s", "-C", "-Q", "--c-backends", "--c-backen", "--Werror", "--werror=1", "--colour", "--no-color", "--debug", "--llvm-no-verif", "--llvm", "-", "---", "--output", "-é"]))
    elif k == "short":
        ins(r.choice(["-gq", "-Eg", "-ccc", "-SS", "-q1", "-out", "-hv", "-vx"]))
    elif k == "level":
        if c.o:
            return None
        ins(r.choice(["-O0", "-O4", "-O", "-Os", "-O9", "-Ofast", "-O12", "-O33", "-O-1", "-O1x", "-O 1"]))
    elif k == "two levels":
        if not c.o:
            return None
        ins("-O%d" % r.choice([x for x in (1, 2, 3) if x != c.o]))
    elif k == "two modes":
        if c.mode not in ("-E", "-S", "-c"):
            return None
        ins(r.choice([m for m in ("-E", "-S", "-c") if m != c.mode]))
    elif k == "c verify":
        if c.mode[0] != "c":
            return None
        ins("--llvm-no-verify")
    elif k == "quiet werror":
        if c.quiet == c.werror:
            return None
        ins("--werror" if c.quiet else "-q")
    elif k == "c asm":
        if c.mode != "c":
            return None
        ins("-S")
    elif k == "color twice":
        if c.envcolor is None:
            return None
        ins("--color")
    elif k == "no output name":
        if c.dest is not None or c.extra is not None:
            return None
        t.append(["-o"])
    elif k == "no extra":
        if c.extra is not None:
            return None
        t.append(["--"])
    elif k in ("no file", "no extension", "bare .sk", "missing file", "directory"):
        i = next(i for i, x in enumerate(t) if x == [c.name])
        if k == "no file":
            del t[i]
            if not t:
                return None              # no arguments at all ask for help
        else:
            t[i] = [r.choice({"no extension": ["a", "a.skx", "a.sk ", "a.s", "sk", "x.sk.txt", "a.SK", "s", ""], "bare .sk": [".sk", "s/.sk", "./.sk"], "missing file": ["nosuch.sk", "nodir/a.sk", "s/nosuch.sk"], "directory": ["dir.sk"]}[k])]
            if not t[i][0] and c.extra is not None:
                return None
    elif k == "no arguments at all":
        return None
    elif k == "binary to stdout":
        if c.mode not in ("-c", "exe") or c.dest is not None or c.src != "clean":
            return None
        ins("-o", "-")
    elif k == "no directory":
        if c.dest is not None or c.src != "clean" or c.extra is not None:
            return None
        ins("-o", "nodir/out")
    elif k == "out is directory":
        if c.dest is not None or c.src != "clean" or c.extra is not None:
            return None
        ins("-o", "dir.sk")
    return c


def fill(d, c):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "s", ".skdir"))
    os.makedirs(os.path.join(d, "dir.sk"))
    for n in ("a", "a.skx", "a.sk ", "a.s", "sk", "x.sk.txt", "a.SK", ".sk", "s/.sk", "keep.txt"):
        with open(os.path.join(d, n), "w") as f:
            f.write(CLEAN)
    with open(os.path.join(d, c.name), "w") as f:
        f.write({"warn": WARN, "clean": CLEAN, "bad": BAD}[c.src])


def snap(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for n in fs:
            p = os.path.join(b, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
        for n in ds:
            out[os.path.relpath(os.path.join(b, n), d) + "/"] = b""
    return out


def kind(b):
    if b[:4] == b"\x7fELF":
        return {1: "object", 2: "executable", 3: "executable"}.get(b[16], "elf %d" % b[16])
    if b.startswith(b"; ModuleID"):
        return "ir"
    if b.startswith(b"#include"):
        return "c"
    if b"\t.text" in b[:400]:
        return "asm"
    return "something else"


KIND = {"-E": "ir", "-S": "asm", "-c": "object", "exe": "executable", "c": "c", "cE": "c"}
DEBUG = {"ir": rb"!DICompileUnit\(", "asm": rb"\.debug_info", "object": rb"\.debug_info", "executable": rb"\.debug_info", "c": rb"(?m)^#line \d+"}


def judge(w, d, r, rep, c, k):
    args = c.argv()
    fail = k is None and c.mode == "exe" and r.random() < 0.1
    # arguments cc does not understand are only recorded
    do = "run" if k else "fail" if fail or c.extra is not None else "run"
    srv = w.server("plain", cc_env(w, do, c.envcolor), "c18%s%s" % (do, c.envcolor))
    log = os.path.join(w.dir, "cclog")
    if os.path.exists(log):
        os.unlink(log)
    fill(d, c)
    before = snap(d)
    res = srv.run(args, d, 30)
    after = snap(d)
    rep.eval(repr((args, c.envcolor, c.src)), {"args": args, "COLOR": c.envcolor, "exit": res.rc})
    rep.counts["command lines"] += 1
    rep.counts["with a mistake" if k else "correct"] += 1
    rep.cover["mistakes" if k else "modes"].add(k or c.mode)
    what = "skull %s%s (source: %s)" % (" ".join(map(repr, args)), " with COLOR=" + c.envcolor if c.envcolor is not None else "", c.src)

    def bad(key, msg):
        rep.violation(key, "%s: %s" % (what, msg), {"args.txt": "\0".join(args), "stdout.txt": res.stdout[-3000:], "stderr.txt": res.stderr[-3000:], "source.sk": {"warn": WARN, "clean": CLEAN, "bad": BAD}[c.src]})
    if res.timed_out:
        rep.inconclusive.append("timeout")
        return
    if res.crashed or res.signal:
        return bad("crash", "status %d" % res.status)
    changed = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
    err = res.stderr.decode("utf-8", "replace")
    if k:
        if res.rc == 0:
            return bad("accepted:" + k, "exit status 0 in spite of the mistake '%s'" % k)
        if not err.strip():
            return bad("silent:" + k, "refused without a message (mistake '%s')" % k)
        if changed:
            return bad("wrote:" + k, "refused, but changed %s" % changed)
        return
    color = c.color or (c.envcolor is not None and c.envcolor.startswith("1"))
    if c.src == "bad":
        # (with -q the message is missing too: known finding of C17)
        if res.rc != 1 or (not c.quiet and "not found" not in err):
            return bad("bad-source", "exit %d, stderr %r" % (res.rc, err[-200:]))
        if not c.quiet and ("\x1b[" in err) != color:
            return bad("color", "color %s, but stderr is %r" % (color, err[-200:]))
        if changed:
            return bad("bad-wrote", "a refused source changed %s" % changed)
        return
    nw = err.count("Warning:") if not color else len(re.findall("Warning(?:\x1b\\[0m)?:", err))
    if c.src == "warn" and c.werror:
        if res.rc != 1 or changed:
            bad("werror", "exit %d, changed %s" % (res.rc, changed))
        return
    if c.mode == "exe":
        if not os.path.exists(log):
            return bad("cc", "cc was not called")
        with open(log, "rb") as f:
            cc = f.read().decode("utf-8", "surrogateescape").split("\0")[:-1]
        ext = c.extra or []
        if "-o" not in cc or c.target() not in [b for a, b in zip(cc, cc[1:]) if a == "-o"]:
            return bad("cc-output", "cc is not told to write %r: %r" % (c.target(), cc))
        if ext and not any(cc[i:i + len(ext)] == ext for i in range(len(cc))):
            return bad("cc-args", "the arguments after -- do not reach cc unchanged: %r" % cc)
        if fail or (do == "fail"):
            if res.rc == 0:
                return bad("cc-failed", "exit status 0 although cc failed")
            if changed:
                return bad("cc-left", "cc failed and %s changed" % changed)
            return
    if res.rc != 0:
        return bad("refused", "exit %d: %s" % (res.rc, err[-300:]))
    want = 0 if c.quiet or c.src == "clean" else WARNINGS
    if nw != want:
        return bad("warnings", "%d warnings on standard error, expected %d: %r" % (nw, want, err[-300:]))
    if want and ("\x1b[" in err) != color:
        return bad("color", "color %s, but stderr is %r" % (color, err[-200:]))
    tgt = c.target()
    if changed != ([os.path.normpath(tgt)] if tgt is not None else []):
        return bad("files", "changed %s, expected %s" % (changed, tgt))
    b = res.stdout if tgt is None else after[os.path.normpath(tgt)]
    if tgt is not None and res.stdout:
        return bad("stdout", "unexpected output on standard output: %r" % res.stdout[:100])
    if kind(b) != KIND[c.mode]:
        return bad("kind", "the output is %s, expected %s" % (kind(b), KIND[c.mode]))
    if bool(re.search(DEBUG[kind(b)], b)) != c.g:
        return bad("debug", "debug information %s" % ("missing" if c.g else "present without -g"))
    rep.cover["outputs"].add("%s to %s" % (kind(b), "default" if c.dest is None else "-" if c.dest == "-" else "file"))


def levels(w, rep):
    """-O1, -O2, -O3: the IR is closest to what opt makes of the unoptimised IR at that level"""
    d = w.sub("lv")
    with open(os.path.join(d, "o.sk"), "w") as f:
        f.write(LEVELS)
    ir = {}
    for l in (0, 1, 2, 3):
        res = w.server().run(["o.sk", "-E"] + (["-O%d" % l] if l else []), d, 30)
        if res.rc != 0:
            rep.violation("level-refused", "-O%d is refused: %r" % (l, res.out[-200:]), {"o.sk": LEVELS})
            return
        ir[l] = res.stdout.decode()
    with open(os.path.join(d, "o0.ll"), "w") as f:
        f.write(ir[0])

    def norm(t):
        return [re.sub(r" #\d+", "", x) for x in t.splitlines() if x and not x.startswith(("target ", "; ModuleID", "attributes "))]
    ref = {}
    triple = subprocess.run([build.LLVM_CONFIG, "--host-target"], capture_output=True, text=True).stdout.strip()
    for l in (1, 2, 3):
        p = subprocess.run([OPT, "-S", "-mtriple=" + triple, "-mcpu=native", "-passes=default<O%d>" % l, os.path.join(d, "o0.ll")], capture_output=True, text=True)
        if p.returncode:
            rep.inconclusive.append("opt failed")
            return
        ref[l] = norm(p.stdout)
    for l in (1, 2, 3):
        dist = {m: sum(1 for x in difflib.unified_diff(norm(ir[l]), ref[m], n=0, lineterm="")) for m in (1, 2, 3)}
        dist[0] = sum(1 for x in difflib.unified_diff(norm(ir[l]), norm(ir[0]), n=0, lineterm=""))
        rep.eval("level%d" % l)
        rep.counts["optimisation levels compared"] += 1
        rep.cover["distance of -O%d" % l].add(str(dist))
        m = min(dist, key=dist.get)
        if dist[m] < dist[l]:
            rep.violation("level", "-O%d gives the code of level %d (differences to each level: %s)" % (l, m, dist), {"o.sk": LEVELS})


def info(w, d, rep):
    srv = w.server()
    for a, pat in ((["-h"], "file"), (["--help"], "file"), (["-v"], "Skull"), (["--version"], "Skull"), ([], "file"), (["a.sk", "-h"], "file"), (["a.sk", "-E", "--help"], "file"), (["--werror", "-v", "a.sk"], "Skull"), (["-o", "x", "--version"], "Skull")):
        c = Cmd(random.Random(5))
        fill(d, c)
        before = snap(d)
        res = srv.run(a, d, 20)
        rep.eval(repr(a))
        if res.rc != 0 or pat not in res.stdout.decode("utf-8", "replace") or snap(d) != before:
            rep.violation("info", "skull %s: exit %d, stdout %r" % (" ".join(a), res.rc, res.stdout[:200]), {"output.txt": res.out})
        for o in ("-S", "-E", "-c", "--c-backend", "--werror", "-O1", "-o", "--llvm-no-verify", "--color", "--"):
            if pat == "file" and o not in res.stdout.decode("utf-8", "replace"):
                rep.violation("usage", "the usage text does not mention %s" % o, {"output.txt": res.out})


def unit(w, i, rng, rep):
    d = os.path.join(w.dir, "cl")
    if i == 0:
        levels(w, rep)
        info(w, d, rep)
    for n in range(PER):
        r = random.Random(rng.getrandbits(64))
        c = Cmd(r)
        k = None
        if n % 2:
            k = MISTAKES[(i * PER + n) // 2 % len(MISTAKES)]
            for _ in range(60):
                if mistake(r, c, k):
                    break
                c = Cmd(r)
            else:
                k, c = None, Cmd(r)
        judge(w, d, r, rep, c, k)
