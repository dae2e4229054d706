"""Warnings: the set printed against the set a model predicts; -q and --werror."""
import collections, os, random, re
from . import _faults, _rej
from .. import gen, lang
from ..lang import *

PROP, LEVEL = "C17", "exploration"
RULE = ("random programs in random layouts compiled plainly, with -q and with --werror; the warnings (text and position, as a multiset) are compared with those a "
        "model computes from the program, and exit status, streams and outputs of the three runs with each other; non-trivial: every judged "
        "program; distinct by text")
ASSUMPTIONS = ["variables and functions declared inside function bodies are not reported as unused (the compiler does not look there)",
               "a redundant type is one given to a variable that is initialised with a literal",
               "a constant condition is a boolean literal, possibly in parentheses"]
UNITS = {"quick": 240, "thorough": 16000}
VARIANTS = ("plain",)
PER = 20


def strip(e):
    return strip(e.repl) if getattr(e, "repl", None) is not None else e


class Model:
    def __init__(self, p):
        self.read, self.written, self.called = set(), set(), set()
        self.out = []
        self.scan(p.body)
        for f in p.extdefs:
            if f.fn not in self.called:
                self.out.append((f.npos, 'function "%s" is unused' % f.fn.name))
        self.unused(p.body)

    def expr(self, e):
        e = strip(e)
        if isinstance(e, Use):
            self.read.add(e.var)
        elif isinstance(e, (Addr, Deref)):
            self.read.add(e.use.var)
        elif isinstance(e, Bin):
            self.expr(e.l)
            self.expr(e.r)
        elif isinstance(e, Un):
            self.expr(e.e)
        elif isinstance(e, Call):
            self.called.add(e.fn)
            for a in e.args:
                self.expr(a)

    def cond(self, e):
        self.expr(e)
        e = strip(e)
        if isinstance(e, Lit):
            self.out.append((e.pos, "condition is always %s" % ("true" if e.value else "false")))

    def scan(self, body):
        for s in body:
            if isinstance(s, Def):
                self.expr(s.e)
                if s.tname and isinstance(strip(s.e), Lit):
                    self.out.append((None, 'explicit type "%s" can be trivialy deduced' % s.var.type))
            elif isinstance(s, Assign):
                self.written.add(s.var)
                self.expr(s.e)
            elif isinstance(s, (Do, Return)):
                if s.e is not None:
                    self.expr(s.e)
            elif isinstance(s, If):
                for c, b in s.arms:
                    self.cond(c)
                    self.scan(b)
                if s.els is not None:
                    self.scan(s.els)
            elif isinstance(s, While):
                self.cond(s.cond)
                self.scan(s.body)
            elif isinstance(s, Namespace):
                self.scan(s.body)
            elif isinstance(s, FnDef) and s.fn.body:
                self.scan(s.fn.body)

    def unused(self, body):
        for s in body:
            if isinstance(s, Def):
                v = s.var
                if v.mut and v not in self.written:
                    self.out.append((v.shown, 'variable "%s" should be constant' % v.name))
                if v not in self.read and not v.export:
                    self.out.append((v.shown, 'variable "%s" is unused' % v.name))
            elif isinstance(s, FnDef):
                if s.fn not in self.called and not s.fn.export:
                    self.out.append((s.npos, 'function "%s" is unused' % s.fn.name))
            elif isinstance(s, If):
                for _, b in s.arms:
                    self.unused(b)
                if s.els is not None:
                    self.unused(s.els)
            elif isinstance(s, (While, Namespace)):
                self.unused(s.body)


LINE = re.compile(r"^(.*?): (?:\x1b\[1m\x1b\[\d+m)?Warning(?:\x1b\[0m)?: (?:line (\d+) column (\d+): )?(.*)$")


def warnings(res):
    out, other = [], []
    for l in res.stderr.decode("utf-8", "replace").split("\n"):
        m = LINE.match(l)
        if m:
            out.append(((int(m.group(2)), int(m.group(3))) if m.group(2) else None, m.group(4)))
        elif l.strip():
            other.append(l)
    return out, other


PROFS = [dict(stmts=(1, 8), block=(1, 3), expr=1), dict(stmts=(1, 4), expr=1, depth=4), dict(stmts=(2, 10), expr=2, w=dict(d=9, a=4, p=2, f=4, i=3, w=2, n=2, al=1, c=1, no=0, u=0, r=3)),
         dict(stmts=(0, 3), block=(1, 2), expr=0), dict(stmts=(1, 6), expr=1, lit=0.9)]
CLEAN = dict(stmts=(1, 5), expr=1, w=dict(d=0, a=0, p=6, f=0, i=0, w=0, n=0, al=1, c=1, no=1, u=0, r=0), lit=0.9)


def make(r):
    """(text, predicted warnings)"""
    x = r.random()
    if x < 0.03:
        t = r.choice(["", "# only a comment\n", "#{ block\n#}\n", "\ufeff# c\n"])
        w = [(None, "file is empty")] if t == "" else []
        return t, w + ([(None, "BOM found")] if t[:1] == "\ufeff" else [])
    g = gen.Gen(r, **(CLEAN if x < 0.25 else r.choice(PROFS)))
    p = g.program()
    if x > 0.6:
        Cluster(r).into(p)
    if not p.body:
        p.body = [Simple("noop")]      # an external declaration needs a newline after it
    p.externs = sorted(g.used.values(), key=lambda f: f.name)
    if r.random() < 0.15 and x >= 0.25:
        p.externs = p.externs + [lang.Func("unused_ext", [], VOID, external=True)]
    t = lang.show(p, lang.RandomLayout(random.Random(r.getrandbits(64))) if r.random() < 0.5 else None)
    want = Model(p).out
    if r.random() < 0.08:
        t = "\ufeff" + t
        want = want + [(None, "BOM found")]
    return t, want


class Cluster:
    """runs of adjacent control blocks whose variables are unused, never changed, or neither"""

    def __init__(self, r):
        self.r, self.n = r, 0

    def name(self):
        self.n += 1
        return "cl%dz" % self.n

    def lit(self):
        v = self.r.randint(0, 99)
        return Lit(INT, v, str(v))

    def cond(self):
        if self.r.random() < 0.3:
            v = self.r.random() < 0.5
            return Lit(BOOL, v, "true" if v else "false")
        return Bin(self.r.choice(["is", "<", ">="]), self.lit(), self.lit(), BOOL)

    def body(self, d):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2])):
            v = Var(self.name(), INT, r.random() < 0.4)
            out.append(Def(v, self.lit(), INT if r.random() < 0.15 else None))
            x = r.random()
            if x < 0.3:
                out.append(Def(Var(self.name(), INT, False), Bin("+", Use(v), self.lit(), INT)))
            if v.mut and r.random() < 0.4:
                out.append(Assign(v, self.lit()))
        if d > 0 and r.random() < 0.4:
            out += self.run(d - 1)
        return out or [Simple("noop")]

    def run(self, d):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.choice("iiwwnf") if not out or r.random() < 0.6 else kind
            kind = k
            if k == "i":
                out.append(If([(self.cond(), self.body(d)) for _ in range(r.choice([1, 1, 2, 3]))], self.body(d) if r.random() < 0.5 else None))
            elif k == "w":
                out.append(While(self.cond(), self.body(d)))
            elif k == "n":
                out.append(Namespace(lang.NS(self.name()), self.body(d)))
            else:
                f = lang.Func(self.name(), [], VOID)
                f.body = self.body(d)
                out.append(FnDef(f))
                if r.random() < 0.4:
                    out.append(Do(Call(f, [])))
            if r.random() < 0.2:
                out += [Comment("# between")] * r.randint(1, 2)
        return out

    def into(self, p):
        for _ in range(self.r.randint(1, 3)):
            b = p.body
            while self.r.random() < 0.6:
                k = [x for s in b for x in ([y for _, y in s.arms] + ([s.els] if s.els is not None else []) if isinstance(s, If) else
                                            [s.body] if isinstance(s, (While, Namespace)) else [s.fn.body] if isinstance(s, FnDef) and s.fn.body else [])]
                if not k:
                    break
                b = self.r.choice(k)
            end = next((j for j, s in enumerate(b) if isinstance(s, Return) or isinstance(s, Simple) and s.kw != "noop"), len(b))
            j = self.r.randint(0, end)
            b[j:j] = self.run(2)


MODES = [["-E"]] * 4 + [["-c"], ["-S"], ["-E", "-g"], ["--color", "-E"], ["-E", "-O2"]]


def unit(w, i, rng, rep):
    d = w.sub("warn")
    if i == 0:
        quiet_errors(w, d, rep)
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        text, want = make(r)
        mode = r.choice(MODES)
        clean = not want
        norm = _rej.run(w, d, text, mode)
        outs = sorted(os.listdir(d))
        blob = {n: open(os.path.join(d, n), "rb").read() for n in outs}
        for n in outs:
            os.unlink(os.path.join(d, n))
        quiet = _rej.run(w, d, text, mode + ["-q"])
        qblob = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        werr = _rej.run(w, d, text, mode + ["--werror"])
        wouts = sorted(os.listdir(d))
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        if any(x.timed_out for x in (norm, quiet, werr)):
            rep.inconclusive.append("timeout")
            continue
        got, other = warnings(norm)
        rep.counts["programs"] += 1
        rep.counts["warnings observed"] += len(got)
        rep.counts["programs without warnings"] += clean
        for _, t in got:
            rep.cover["warning kinds"].add(re.sub(r'"[^"]*"', '""', t))
        rep.eval(text, {"source": text[-300:], "warnings": got[:4]})
        files = {"program.sk": text, "expected.txt": "\n".join(map(repr, sorted(want, key=repr))), "output.txt": norm.out[-4000:]}
        if norm.rc != 0 or other:
            rep.violation("status", "a program with %s is refused or has other messages (%s): status %d %s" % (
                "%d warnings" % len(want), " ".join(mode), norm.rc, other[:2] or norm.out[-200:]), files)
            continue
        if collections.Counter(got) != collections.Counter(want):
            miss = list((collections.Counter(want) - collections.Counter(got)).elements())
            extra = list((collections.Counter(got) - collections.Counter(want)).elements())
            rep.violation("warnings", "warnings differ: missing %s, unexpected %s" % (miss[:3], extra[:3]), files)
            continue
        if quiet.rc != 0 or quiet.stderr.strip() or quiet.stdout != norm.stdout or qblob != blob:
            rep.violation("quiet", "with -q: status %d, stderr %r, same output: %s" % (
                quiet.rc, quiet.stderr[-200:], quiet.stdout == norm.stdout and qblob == blob), files)
            continue
        wg, wo = warnings(werr)
        if clean:
            if werr.rc != 0 or werr.stdout != norm.stdout or wouts != outs:
                rep.violation("werror-clean", "--werror changes a compilation without warnings: status %d %s" % (werr.rc, werr.stderr[-200:]), files)
        elif werr.rc != 1 or not wg or collections.Counter(wg) - collections.Counter(want):
            rep.violation("werror", "--werror with warnings %s: status %d, printed %s" % (want[:3], werr.rc, wg[:3]), files)
        elif werr.stdout.strip() or wouts != ["a.sk"]:
            rep.violation("werror-output", "--werror with warnings still writes output: %s" % (wouts,), files)


def quiet_errors(w, d, rep):
    """-q is documented to suppress warnings: errors must still be shown"""
    src = "x := y\n"
    res = _rej.run(w, d, src, ["-E", "-q"])
    if not _rej.errors(res):
        rep.violation("quiet-hides-errors", "with -q the error in 'x := y' is not printed (exit status %d)" % res.rc, {"a.sk": src})
