"""Only the documented output files are written, nothing else is touched."""
import os, random, re, shutil, stat, tempfile
from .. import build
from ..server import Server, base_env
from . import c18

PROP, LEVEL = "C19", "exploration"
RULE = ("compilations in scratch trees full of files with confusable names (stale outputs, the other modes' outputs, links, directories): every mode, default and explicit destinations, names with every kind of character, "
        "sources given relatively, absolutely and through links, accepted and refused programs, several compilations at once; the whole tree is compared before and after (content, inode, time, mode), the output with that of a compilation in an empty tree; "
        "a sample also runs under strace and every path the compiler opens for writing, renames or removes is checked; non-trivial: every compilation; distinct by command line and tree")
ASSUMPTIONS = ["the intermediate object of an executable, .<name>.sk.o next to the source, is the compiler's own to replace and remove",
               "what cc does to its own output file when it fails is not the compiler's doing"]
UNITS = {"quick": 160, "thorough": 8000}
VARIANTS = ("plain",)
PER = 6
OK = "f(a: Int) Int {\n\tmut t := a\n\tt = t + %d\n\treturn t\n}\nexport g := \"%s\"\nreturn f(4)\n"
BAD = ["x := nosuch\n", "x := 1\nx := 2\n", "f(", "return 1\nreturn 2\n", "\"abc\n", "x: Int = 1.5\n", "\xff", "import nosuch\n", "break\n", " \n\n", "if true {\n"]
WARN = "x := 1\n"
NOLINK = "external nowhere_%d()\nnowhere_%d()\n"
STEMS = ["a", "a", "b", "main", "a b", "é", "日本", "a.b", "x.sk", "q'r", "$HOME", "$(touch pwned)", "`x`", "a;b", "a&b", "a|b", "#a", "%s", "%n", "a*", "[a]", "a?b", "~", "a\\b", "\"q\"", "!x", "{a,b}", "(a)", "<a>", "a=b", "a,b", "a:b", "+a", "_", "0", "-", "-o", "-c", "--", "..", "...", ".a", ".a.b", "A" * 120, "B" * 246, "é" * 120, "C" * 201, "sk", "o", "s", "a.o", "a.c", "tmp", " ", " a ", "a\tb", "@a", "a@b", "é́"]
DIRS = ["", "", "", "d", "d", "d/e", "x.sk", ".sk", "é", "a b", "$X", "q'", "-d", "d/../d", ".", "L" * 250, "/".join("M%d" % i + "M" * 190 for i in range(12))]
CCENV = {}


def names(r):
    s = r.choice(STEMS)
    d = r.choice(DIRS)
    return d, s + ".sk"


class Case:
    def __init__(self, r, stem=None, real=True):
        self.mode = r.choice(["-E", "-S", "-c", "exe", "exe", "c", "cE"])
        self.dir, self.file = names(r)
        self.form = r.choice(["rel", "rel", "rel", "abs", "up"])
        self.link = r.random() < 0.12
        self.what = r.choice(["ok", "ok", "ok", "ok", "bad", "werror"])
        if self.mode == "exe" and r.random() < 0.15:
            self.what = "nolink"
        self.text = {"nolink": NOLINK % ((r.randint(1, 9),) * 2), "ok": OK % (r.randint(1, 9), r.choice(["", "x", "é" * 30])), "bad": r.choice(BAD), "werror": WARN}[self.what]
        self.opts = []
        if r.random() < 0.3:
            self.opts.append("-g")
        if r.random() < 0.3:
            self.opts.append(r.choice(["-O1", "-O2", "-O3"]))
        if self.what == "werror":
            self.opts.append("--werror")
        self.dest = None
        if r.random() < 0.35:
            dd, ds = names(r)
            ds = r.choice([ds[:-3], ds + ".out", ".o" + ds[:-3]])
            self.dest = os.path.join(dd, ds) if r.random() < 0.85 or self.mode in ("exe", "-c") else "-"

    def path(self, root):
        p = os.path.join(self.dir, self.file)
        if self.form == "abs":
            return os.path.join(root, p)
        if self.form == "up":
            return os.path.join("..", os.path.basename(root), p)
        return p if not p.startswith("-") else "./" + p

    def args(self, root):
        a = {"-E": ["-E"], "-S": ["-S"], "-c": ["-c"], "exe": [], "c": ["--c-backend"], "cE": ["--c-backend", "-E"]}[self.mode]
        return [self.path(root)] + a + self.opts + (["-o", self.dest] if self.dest is not None else [])

    def target(self):
        """relative to the root; None: standard output"""
        if self.dest == "-":
            return None
        if self.dest is not None:
            return os.path.normpath(self.dest)
        if self.mode in ("-E", "cE"):
            return None
        if self.mode == "exe":
            return os.path.normpath(os.path.join(self.dir, self.file[:-3]))
        return os.path.normpath(os.path.join(self.dir, ".%s.%s" % (self.file, {"-S": "s", "-c": "o", "c": "c"}[self.mode])))

    def own(self):
        """the intermediate object"""
        return os.path.normpath(os.path.join(self.dir, ".%s.o" % self.file)) if self.mode == "exe" else None

    def source(self):
        return os.path.normpath(os.path.join(self.dir, self.file))


def put(root, name, data, mode=0o644):
    p = os.path.join(root, name)
    if len(os.path.basename(p).encode()) > 255 or os.path.lexists(p):
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    os.chmod(p, mode)


def tree(root, c, r, crowd):
    """the directory in which c is compiled; False if it cannot be made"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    src, tgt, own = c.source(), c.target(), c.own()
    if os.path.isdir(os.path.join(root, src)) or tgt in (src, own) or (tgt is not None and os.path.isdir(os.path.join(root, tgt))):
        return False
    data = c.text.encode("utf-8") if c.text != "\xff" else b"x := \"\xff\"\n"
    if c.link:
        put(root, "elsewhere/orig.sk", data)
        os.symlink(os.path.relpath(os.path.join(root, "elsewhere/orig.sk"), os.path.join(root, os.path.dirname(src))), os.path.join(root, src))
    else:
        put(root, src, data)
    if not crowd:
        return True
    b = os.path.basename(src)
    s = b[:-3]
    near = [s, s + ".o", s + ".s", s + ".c", s + ".ll", s + ".out", "." + b, "." + s, ".%s.o" % b, ".%s.s" % b, ".%s.c" % b, ".%s.ll" % b, ".%s.o" % s, b + ".o", b + ".c", b + ".s", b + ".ll", ".%s.o.tmp" % b, b + "~", "a.out", ".o", ".s", "out", ".a.sk.o", ".a.sk.c", "a", "pwned", "tmp.o", "-", "core"]
    for d in {os.path.dirname(src), "", os.path.dirname(tgt or "")}:
        for n in near:
            p = os.path.normpath(os.path.join(d, n))
            if p != own and r.random() < 0.6:
                put(root, p, ("old %s\n" % n).encode() * r.choice([1, 1, 3000]), r.choice([0o644, 0o755, 0o444]))
    if own and r.random() < 0.3:
        put(root, own, b"stale intermediate")
    if tgt and r.random() < 0.7:
        put(root, tgt, b"stale output\n" * 20000, r.choice([0o644, 0o755]))
    return True


def snap(root):
    """everything below root: kind, mode, inode, time, contents"""
    out = {}
    for b, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(b, n)
            st = os.lstat(p)
            k = stat.S_IFMT(st.st_mode)
            body = os.readlink(p) if k == stat.S_IFLNK else None
            if k == stat.S_IFREG:
                with open(p, "rb") as f:
                    body = f.read()
            out[os.path.relpath(p, root)] = (k, st.st_mode & 0o7777, st.st_ino, st.st_mtime_ns if k != stat.S_IFDIR else 0, body)
    return out


def diff(a, b):
    return sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))


def judge(c, root, res, before, after, rep, bad, clean):
    ch = diff(before, after)
    ok = c.what == "ok"
    if res.timed_out:
        rep.inconclusive.append("timeout")
        return
    if res.crashed or res.signal:
        return bad("crash", "status %d" % res.status)
    if ok != (res.rc == 0):
        return bad("outcome", "exit %d: %s" % (res.rc, res.stderr[-300:].decode("utf-8", "replace")))
    own = c.own()
    if not ok:
        if c.what == "nolink":
            if own in after:
                return bad("intermediate", "linking failed and the intermediate file %r is left behind" % own)
            ch = [n for n in ch if n != c.target()]        # what the linker does to it
        # a stale intermediate object may only stay or go
        ch = [n for n in ch if not (n == own and n not in after)]
        if ch:
            return bad("refused-changed", "a refused program changed %s" % ch)
        if res.stdout:
            return bad("refused-stdout", "a refused program wrote to standard output: %r" % res.stdout[:80])
        return
    if own in after:
        return bad("intermediate", "the intermediate file %r is left behind" % own)
    ch = [n for n in ch if n != own]
    tgt = c.target()
    if tgt is None:
        if ch:
            return bad("changed", "standard output asked for, but %s changed" % ch)
        data = res.stdout
    else:
        if ch != [tgt]:
            return bad("changed", "expected to write %r, changed %s" % (tgt, ch))
        if res.stdout:
            return bad("stdout", "output on standard output: %r" % res.stdout[:80])
        k, mode, _, _, data = after[tgt]
        if k != stat.S_IFREG:
            return bad("kind", "%r is not a regular file" % tgt)
        if c.mode == "exe" and not mode & 0o100:
            return bad("mode", "the executable has mode %o" % mode)
    if c18.kind(data) != c18.KIND[c.mode]:
        return bad("content", "the output is %s instead of %s" % (c18.kind(data), c18.KIND[c.mode]))
    if clean is not None and data != clean:
        return bad("residue", "the output differs from that of a compilation in an empty tree (%d and %d bytes)" % (len(data), len(clean)))


def describe(c, root):
    return "skull %s (%s source%s)" % (" ".join(map(repr, c.args(root))), c.what, ", a link" if c.link else "")


def single(w, r, rep, root, srv, watch=None):
    for _ in range(40):
        c = Case(r)
        if tree(root, c, r, False):
            break
    else:
        return
    # in an empty tree
    clean = None
    if c.what == "ok":
        res = srv.run(c.args(root), root, 30)
        if res.rc == 0:
            t = c.target()
            p = os.path.join(root, t) if t is not None else None
            if p is None:
                clean = res.stdout
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    clean = f.read()
    tree(root, c, r, True)
    before = snap(root)
    mark = watch.mark() if watch else None
    res = srv.run(c.args(root), root, 60)
    after = snap(root)
    what = describe(c, root)
    rep.eval(repr((c.args("R"), c.what, sorted(before))), {"command": what, "exit": res.rc, "changed": diff(before, after)})
    rep.counts["compilations"] += 1
    rep.counts["files watched"] += len(before)
    rep.counts["refused" if res.rc else "accepted"] += 1
    rep.cover["modes"].add("%s %s %s %s" % (c.mode, c.form, "default" if c.dest is None else "-o -" if c.dest == "-" else "-o", c.what))
    rep.cover["names"].add(c.file)

    def bad(key, msg):
        rep.violation(key, "%s: %s" % (what, msg), {"source.sk": c.text, "tree.txt": "\n".join(sorted(before)), "stdout.txt": res.stdout[-2000:], "stderr.txt": res.stderr[-2000:]})
    judge(c, root, res, before, after, rep, bad, clean)
    if watch and not rep.viol:
        watch.check(mark, c, root, rep, bad)


SYS = "trace=open,openat,openat2,creat,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,link,linkat,symlink,symlinkat,truncate,ftruncate,chmod,fchmod,fchmodat,chown,fchownat,mknod,mknodat,utimensat,chdir,execve,kill"


class Watch:
    """strace of the compiler: which paths it opens for writing or changes"""

    def __init__(self, w):
        self.log = os.path.join(w.dir, "strace")
        self.srv = w.srv.get(("c19", "strace"))
        if self.srv is None:
            self.srv = w.srv[("c19", "strace")] = Server(w.exes["server-plain"], base_env(TMPDIR=w.sub("tmp", False)), ["strace", "-f", "-qq", "-xx", "-s", "4096", "-o", self.log, "-e", SYS])
        self.works = shutil.which("strace") is not None

    def mark(self):
        return os.path.getsize(self.log) if os.path.exists(self.log) else 0

    def check(self, mark, c, root, rep, bad):
        with open(self.log, "rb") as f:
            f.seek(mark)
            log = f.read().decode("latin-1")
        allowed = {os.path.join(root, p) for p in (c.target(), c.own()) if p is not None}
        real = {os.path.realpath(p) for p in allowed}
        execd, parent = set(), None
        for line in log.splitlines():
            m = re.match(r"(\d+) (\w+)\((.*)\)\s+= (\S+)", line)
            if not m:
                continue
            pid, call, a, ret = m.groups()
            if call == "execve":
                execd.add(pid)                     # from here on it is the shell or cc
            if pid in execd or ret.startswith("-"):
                continue
            strs = [bytes.fromhex(x.replace("\\x", "")).decode("utf-8", "surrogateescape") for x in re.findall(r'"((?:\\x[0-9a-f]{2})*)"', a)]
            rep.counts["system calls watched"] += 1
            if call in ("open", "openat", "openat2"):
                if not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC", a):
                    continue
            elif call == "kill":
                bad("kill", "the compiler calls kill: " + line)
                return
            elif call in ("chdir", "fchmod", "ftruncate"):
                continue
            for s in strs:
                p = os.path.join(root, s)
                if p.startswith(self.srv.dir) or p.startswith("/dev/") or p.startswith("/proc/"):
                    continue
                if execd and False:
                    continue
                if os.path.normpath(p) not in allowed and os.path.realpath(p) not in real and p not in real:
                    # cc's children run in pids of their own, which exec at once
                    bad("touches", "the compiler calls %s on %r, which is none of its outputs" % (call, s))
                    return
                rep.counts["writes and removals watched"] += 1


def together(w, r, rep, root):
    """several compilations in one tree at the same time"""
    n = r.choice([2, 3, 4])
    cs, used = [], set()
    shutil.rmtree(root, ignore_errors=True)
    pool = r.sample(["a", "b", "a.b", "ab", "A", "a b", "main", "é", "x.sk", "o"], 4)
    mode = r.choice(["exe", "exe", "exe", "-c", "-S", "c", None])
    while len(cs) < n:
        c = Case(r)
        c.dir, c.file, c.form, c.link = r.choice(["", "", "d"]), r.choice(pool) + ".sk", "rel", False
        c.dest, c.mode = None, mode or c.mode
        c.what = r.choice(["ok", "ok", "ok", "bad"])
        c.opts = [o for o in c.opts if o != "--werror"]
        c.text = OK % (r.randint(1, 999), "q%d" % r.randint(0, 99)) if c.what == "ok" else r.choice(BAD[:5])
        mine = {x for x in (c.source(), c.target(), c.own()) if x}
        if mine & used:
            continue
        used |= mine
        cs.append(c)
    srvs = [w.server("plain", None, "t%d" % k) for k in range(n)]

    def fill():
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(os.path.join(root, "d"))
        for c in cs:
            put(root, c.source(), c.text.encode())
    fill()
    alone = [srvs[0].run(c.args(root), root, 30) for c in cs]
    one = snap(root)
    for rnd in range(3):
        fill()
        before = snap(root)
        for s, c in zip(srvs, cs):
            s.send(c.args(root), root, 60)
        got = [s.recv() for s in srvs]
        two = snap(root)
        rep.eval(repr([(c.args("R"), c.text) for c in cs]) + str(rnd))
        rep.counts["compilations at the same time"] += n
        what = " and at the same time ".join(describe(c, root) for c in cs)
        files = {"s%d.sk" % i: c.text for i, c in enumerate(cs)}
        if any(g.timed_out for g in got):
            rep.inconclusive.append("timeout")
            return
        for c, x, y in zip(cs, alone, got):
            if (x.status, x.stdout, x.stderr) != (y.status, y.stdout, y.stderr):
                rep.violation("together-outcome", "%s: %r ends with status %d and %r, alone with %d" % (what, c.args(root)[0], y.status, y.out[-200:], x.status), files)
                return
        strip = lambda t: {k: (v[0], v[1], v[4]) for k, v in t.items()}
        d = diff(strip(one), strip(two))
        if d:
            rep.violation("together-files", "%s: the files %s differ from those of the same compilations one after another" % (what, d), files)
            return


def unit(w, i, rng, rep):
    root = os.path.join(w.dir, "root")
    env = base_env(TMPDIR=w.sub("tmp", False))
    for n in range(PER):
        r = random.Random(rng.getrandbits(64))
        single(w, r, rep, root, w.server("plain", env, "c19"))
    left = os.listdir(os.path.join(w.dir, "tmp"))
    if left:
        rep.violation("tmp", "temporary files are left behind: %s" % left, {})
        w.sub("tmp")
    if i % 4 == 0:
        wt = Watch(w)
        if wt.works:
            for n in range(2):
                single(w, random.Random(rng.getrandbits(64)), rep, root, wt.srv, wt)
    if i % 3 == 0:
        together(w, random.Random(rng.getrandbits(64)), rep, root)
