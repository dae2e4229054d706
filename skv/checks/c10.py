"""The C backend's output compiles and behaves like the program."""
import random
from .. import gen, lang
from ..lang import *
from . import _sem, c05, c06, c07, c08

PROP, LEVEL = "C10", "exploration"
RULE = ("random programs of the documented subset (expressions, control flow, functions, references; see cify()), "
        "compiled with --c-backend with and without -g, the C compiled by gcc at -O0 and -O2 together with the logging "
        "runtime and run; the event log is compared with the reference interpreter; non-trivial: at least one logged "
        "event; distinct by text and log")
ASSUMPTIONS = ["the C is compiled as gnu2x (the backend's own output uses `bool` without a header)",
               "an expression has at most one operand with effects (C leaves their order open)"]
UNITS = {"quick": 170, "thorough": 8000}
VARIANTS = ("plain",)
PER = 10
NAT = ("Int", "Float", "Bool", "Rune", "Str", "Void")


def cname(path):
    pre = path[:len(path) - len(path.lstrip("&"))]
    p = path.lstrip("&")
    return path if p in NAT or p.startswith("sk_") else pre + p + "_v"


class CLayout(Layout):
    def name(self, path):
        return cname(path)


class CRandom(RandomLayout):
    def name(self, path):
        return cname(path)


class Reject(Exception):
    pass


class Cify:
    """Rewrites a program into the subset whose meaning in C is fixed: operands with effects are sequenced, no
    namespaces or nested functions, no top-level constant made by a dereference (known finding)."""

    def __init__(self, g, r):
        self.g, self.r = g, r

    def stable(self, e):
        if isinstance(e, (Lit, Addr)):
            return True
        if isinstance(e, Use):
            return not e.var.mut
        if isinstance(e, Bin):
            return self.stable(e.l) and self.stable(e.r)
        if isinstance(e, Un):
            return self.stable(e.e)
        if isinstance(e, Call):
            return e.fn.pure and all(map(self.stable, e.args))
        return False

    def effects(self, e):
        if isinstance(e, Bin):
            return self.effects(e.l) or self.effects(e.r)
        if isinstance(e, Un):
            return self.effects(e.e)
        if isinstance(e, Call):
            return not e.fn.pure or any(map(self.effects, e.args))
        return False

    def sub(self, e):
        """a stable expression of the same type"""
        t = e.type
        if t[0] == "&":
            raise Reject()
        if self.r.random() < 0.5:
            return Call(self.g.native("sk_q" + gen.SUF[t]), [self.g.safe_lit(t)])
        return self.g.safe_lit(t)

    def expr(self, e, top=False):
        while getattr(e, "repl", None) is not None:
            e = e.repl
        if isinstance(e, Deref) and top and not e.use.var.mut:
            return self.sub(e)
        if isinstance(e, Un):
            e.e = self.expr(e.e, top)
        elif isinstance(e, Bin):
            e.l, e.r = self.expr(e.l, top), self.expr(e.r, top)
            if self.effects(e.r) and e.op in ("and", "or"):
                e.r = self.sub(e.r)
            if self.effects(e.l) and not self.stable(e.r):
                e.r = self.sub(e.r)
            elif self.effects(e.r) and not self.stable(e.l):
                e.l = self.sub(e.l)
        elif isinstance(e, Call):
            e.args = [self.expr(a, top) for a in e.args]
            if any(map(self.effects, e.args)):
                k = next(i for i, a in enumerate(e.args) if self.effects(a))
                e.args = [a if i == k or self.stable(a) else self.sub(a) for i, a in enumerate(e.args)]
        return e

    def body(self, b, depth, func):
        for s in b:
            top = depth == 0 and func is None
            if isinstance(s, Def):
                s.e = self.expr(s.e, top)
                if s.var.export and func is not None:
                    raise Reject()
            elif isinstance(s, (Assign, Do)):
                s.e = self.expr(s.e)
            elif isinstance(s, Return) and s.e is not None:
                s.e = self.expr(s.e)
            elif isinstance(s, If):
                s.arms = [(self.expr(c), self.body(x, depth + 1, func)) for c, x in s.arms]
                if s.els is not None:
                    self.body(s.els, depth + 1, func)
            elif isinstance(s, While):
                s.cond = self.expr(s.cond)
                self.body(s.body, depth + 1, func)
            elif isinstance(s, FnDef):
                if not top:
                    raise Reject()
                self.body(s.fn.body, 1, s.fn)
            elif isinstance(s, (Namespace, Raw)):
                raise Reject()
        return b


PROFILES = [
    dict(),
    dict(stmts=(8, 18)),
    dict(w=dict(d=5, a=5, p=8, f=4, i=4, w=3, n=0, al=1, c=1, no=1, u=1, r=4), stmts=(6, 14)),
    dict(w=dict(d=3, a=2, p=9, f=7, i=3, w=2, n=0, al=1, c=1, no=1, u=0, r=2), depth=4, stmts=(4, 9)),
]


def source(r):
    x = r.random()
    if x < 0.55:
        p = dict(r.choice(PROFILES))
        p.update(namespaces=False, nested_funcs=False)
        return gen.make(r, **p)
    return r.choice([c05, c06, c06, c07, c08]).program(r)


def program(r):
    while True:
        g = gen.Gen(r)
        try:
            p = source(r)[0]
            for e in p.externs:
                g.native(e.name)
            Cify(g, r).body(p.body, 0, None)
            p.externs = sorted(g.used.values(), key=lambda f: f.name)
            ev, ret, it = gen.settle(p, g)
        except (gen.GiveUp, Reject):
            continue
        lay = CRandom(random.Random(r.getrandbits(64))) if r.random() < 0.3 else CLayout()
        ret = (ret + (1 << 31)) % (1 << 32) - (1 << 31)
        return p, ev, ret, it, lay, ["--c-backend"] + r.choice([[], [], ["-g"]])


def unit(w, i, rng, rep):
    if i == 0:
        known(w, rep)
    ps = [program(rng) for _ in range(PER)]
    for p in ps:
        _sem.shapes(p[0], rep)
    b = w.batch("plain")
    b.copt = rng.choice(["-O0", "-O0", "-O2"])
    _sem.run_sem(w, rng, rep, ps)
    b.copt = "-O0"


# what is known not to work (see KNOWN_FINDINGS.txt): (key, program, the C compiler's complaint, events if it worked)
KNOWN = [
    ("c-deref-constant", "external sk_pi(x: Int)\na_v := 11\nb_v := &a_v\nc_v := *b_v\nsk_pi(c_v)\n", "initializer element is not constant", ["sk_pi 11"]),
    ("c-namespace-names", "external sk_pi(x: Int)\nnamespace n_v {\n\tx_v := 11\n}\nsk_pi(n_v.x_v)\n", "undeclared", ["sk_pi 11"]),
    ("c-nested-functions", "external sk_pi(x: Int)\nf_v() {\n\th_v() {\n\t\tsk_pi(1)\n\t}\n\th_v()\n}\ng_v() {\n\th_v() {\n\t\tsk_pi(2)\n\t}\n\th_v()\n}\nf_v()\ng_v()\n", "redefinition", ["sk_pi 1", "sk_pi 2"]),
    ("c-reserved-names", "external sk_pi(x: Int)\nint := 11\nsk_pi(int)\n", "expected identifier", ["sk_pi 11"]),
]


def known(w, rep):
    for key, text, complaint, want in KNOWN:
        o = w.batch("plain").run([(text, ["--c-backend"])])[0]
        rep.eval(text)
        if o.compile.status == 0 and o.err and complaint in o.err:
            rep.violation(key, o.err, {"program.sk": text})
        elif o.compile.status != 0 or o.err:
            rep.violation(key + "-other", str(o.err), {"program.sk": text})
        elif o.events != want:
            rep.violation("behaviour", "expected %s, observed %s" % (want, o.events), {"program.sk": text})
