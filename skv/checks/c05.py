"""Expressions evaluate to the value the language defines."""
from .. import gen, lang
from . import _sem
from ..lang import *

PROP, LEVEL = "C05", "exploration"
RULE = ("random and systematic expressions over all operators, types and nesting shapes, inside programs whose every "
        "operand and result is logged; non-trivial: at least one logged event; distinct by source text and event log")
ASSUMPTIONS = ["the host's cc links and runs the objects; IEEE-754 doubles; values the documentation leaves open "
               "(overflow, shift out of range, negative exponents, inexact powers) are never generated"]
UNITS = {"quick": 96, "thorough": 6000}
VARIANTS = ("plain",)
PER = 16

W_EXPR = dict(d=6, a=3, p=12, f=0, i=0, w=0, n=0, al=0, c=0, no=0, u=0, r=2)
INTOPS = ["+", "-", "*", "/", "mod", "^", "<<", ">>", "<", ">", "<=", ">=", "is", "isnt"]
FLTOPS = ["+", "-", "*", "/", "mod", "^", "<", ">", "<=", ">=", "is", "isnt"]
BOOLOPS = ["and", "or", "xor", "is", "isnt"]


def chain(g, r):
    """long flat chains of mixed operators without parentheses: precedence and associativity"""
    t = r.choice([INT, INT, FLOAT, BOOL])

    def atom(t):
        return g.leaf(t, False)

    def build(lvl_ops, n, t):
        # parse a random flat operator sequence by the documented precedence to obtain the tree
        ops = [r.choice(lvl_ops) for _ in range(n)]
        atoms = [atom(t) for _ in range(n + 1)]
        for i, op in enumerate(ops):
            if op == "^":
                k = r.randint(0, 3)
                atoms[i + 1] = g.int_lit(k) if t == INT else Lit(FLOAT, float(k), "%d.0" % k)
            if op in ("<<", ">>"):
                atoms[i + 1] = g.int_lit(r.randint(0, 12))
            if op in ("/", "mod") and t == INT and isinstance(atoms[i + 1], Lit) and atoms[i + 1].value == 0:
                atoms[i + 1] = g.int_lit(3)
        out, st = [atoms[0]], []

        def red():
            op = st.pop()
            b, a = out.pop(), out.pop()
            out.append(Bin(op, a, b, BOOL if op in ("is", "isnt", "<", ">", "<=", ">=") else t))
        for i, op in enumerate(ops):
            while st and PREC[st[-1]] <= PREC[op]:
                red()
            st.append(op)
            out.append(atoms[i + 1])
        while st:
            red()
        return out[0]
    if t == INT:
        e = build(["+", "-", "*", "/", "mod", "^", "<<", ">>"], r.randint(2, 9), INT)
        if r.random() < 0.3:
            return Bin(r.choice(["<", ">", "is", "isnt", "<=", ">="]), e, build(["+", "*", "-"], r.randint(1, 4), INT), BOOL)
        return e
    if t == FLOAT:
        e = build(["+", "-", "*", "/", "mod"], r.randint(2, 9), FLOAT)
        if r.random() < 0.3:
            return Bin(r.choice(["<", ">", "is", "isnt", "<=", ">="]), e, build(["+", "*", "-"], r.randint(1, 4), FLOAT), BOOL)
        return e
    # and/or/xor: right operands stay pure
    g.p["calls"], old = False, g.p["calls"]
    e = build(["and", "or", "xor"], r.randint(2, 8), BOOL)
    g.p["calls"] = old
    return e


def special(g, r):
    """operators on boundary values, through opaque calls so nothing is folded, and as literals"""
    if r.random() < 0.55:
        vals = [0, 1, -1, 2, -2, 3, 7, -7, 10, 63, 64, IMAX, IMIN, IMAX - 1, IMIN + 1, 1 << 32, -(1 << 32), (1 << 31), -(1 << 31), 255,
                r.getrandbits(62), -r.getrandbits(62), r.getrandbits(31)]
        op = r.choice(INTOPS)
        a, b = r.choice(vals), r.choice(vals)
        if r.random() < 0.3:                # equal but for one bit
            b = (a ^ (1 << r.randint(0, 63))) & ((1 << 64) - 1)
            b -= (b >> 63) << 64
        if op in ("<<", ">>"):
            b = r.choice([0, 1, 2, 31, 32, 33, 62, 63])
        if op == "^":
            a, b = r.choice([(r.randint(-9, 9), r.randint(0, 18)), (r.choice([0, 1, -1]), r.randint(0, 400)),
                             (2, 62), (-2, 63), (r.choice(vals), r.choice([0, 1]))])
        if op in ("/", "mod") and b == 0:
            b = 3
        t = INT
        mk = lambda v: g.int_lit(v)
        q = "sk_qi"
    else:
        import math
        vals = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 1e300, -1e300, 1e-300, 0.1, 123456789.125, -7.25, math.nan, math.inf, -math.inf,
                r.uniform(-1e6, 1e6), r.random()]
        op = r.choice(FLTOPS)
        a, b = r.choice(vals), r.choice(vals)
        if r.random() < 0.3:
            b = r.choice([a, -a, math.nextafter(a, 0.0) if 1e-200 < abs(a) < 1e200 else a, math.nextafter(a, math.inf) if 1e-200 < abs(a) < 1e200 else a])
        if op == "^":
            a, b = r.choice([0.0, 1.0, -2.0, 3.0, 0.5, 10.0]), float(r.randint(0, 5))
        t = FLOAT

        def mk(v):
            if v != v:
                return Lit(FLOAT, v, "NaN")
            if math.isinf(v):
                return Lit(FLOAT, v, "Infinity" if v > 0 else "-Infinity")
            s = repr(v)
            if "e" in s:
                s = "%.340f" % v if abs(v) < 1 else "%.1f" % v
            return Lit(FLOAT, float(s), s)
        q = "sk_qf"
    ea, eb = mk(a), mk(b)
    if r.random() < 0.6:
        ea = Call(g.native(q), [ea])
    if r.random() < 0.6:
        eb = Call(g.native(q), [eb])
    if op in ("/", "mod") and isinstance(eb, Lit) and t == INT and eb.value == 0:
        eb = Call(g.native(q), [g.int_lit(5)])
    rt = BOOL if op in ("<", ">", "<=", ">=", "is", "isnt") else t
    return Bin(op, ea, eb, rt)


def compare(g, r):
    """is / isnt on strings, runes, bools that share prefixes"""
    op = r.choice(["is", "isnt"])
    t = r.choice([STR, STR, RUNE, BOOL])
    if t == STR:
        base = g.str_lit(r.choice([0, 1, 2, 5, 9]))
        other = r.choice([base, base, None, "pre", "last", "one"])
        if other == "one":
            # long strings, equal but for one bit of one byte, or all but the end
            l = [r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNO") for _ in range(r.choice([1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 256, 300]))]
            m = l[:]
            k = r.choice([0, len(l) - 1, r.randrange(len(l))])
            if r.random() < 0.7:
                m[k] ^= r.choice([1, 2, 32])
            else:
                m = m[:k]
            m = [x if chr(x).isalnum() else 48 for x in m]
            base = Lit(STR, bytes(l), '"%s"' % bytes(l).decode())
            other = Lit(STR, bytes(m), '"%s"' % bytes(m).decode())
        elif other is None:
            other = g.str_lit()
        elif other == "pre":
            other = Lit(STR, base.value + b"a", base.text[:-1] + 'a"')
        elif other == "last":
            other = Lit(STR, b"a" + base.value, '"a' + base.text[1:])
        a, b = base, other
        if r.random() < 0.5:
            a, b = b, a
        if len(a.text) > 3 and a.text[-3:-1] in ("xA",):
            pass
    else:
        a = g.lit(t)
        b = r.choice([a, g.lit(t)])
        if t == RUNE and r.random() < 0.5:
            c = a.value ^ (1 << r.randint(0, 20))
            if 0 < c < 0xD800 or 0xE000 <= c <= 0x10FFFF:
                b = Lit(RUNE, c, "'\\x%X'" % c)
    f = {STR: "sk_qs", RUNE: "sk_qr", BOOL: "sk_qb"}[t]
    if r.random() < 0.7:
        a = Call(g.native(f), [a])
    if r.random() < 0.7:
        b = Call(g.native(f), [b])
    return Bin(op, a, b, BOOL)


def refs(g, r):
    """statements: references to equal and to different variables, up to three deep, compared and read"""
    t = r.choice([INT, FLOAT, BOOL, RUNE, STR])
    x = g.lit(t)
    out, levels = [], [[]]

    def new(t, mut, e):
        v = g.new_var(t, mut)
        g.declare(v)
        out.append(Def(v, e))
        return v
    for k in range(r.randint(2, 3)):
        levels[0].append(new(t, r.random() < 0.5, x if r.random() < 0.6 else g.lit(t)))
    for depth in range(r.randint(1, 3)):
        t = "&" + t
        vs = []
        for k in range(r.randint(2, 4)):
            to = r.choice(levels[-1])
            vs.append(new(t, r.random() < 0.4, Addr(Use(to)) if not vs or r.random() < 0.7 else Use(r.choice(vs))))
        levels.append(vs)
        for k in range(r.randint(1, 3)):
            e = Bin(r.choice(["is", "isnt"]), *[Use(r.choice(vs)) if r.random() < 0.7 else Addr(Use(r.choice(levels[-2]))) for _ in range(2)], BOOL)
            if r.random() < 0.3:
                e = Un("not", e, BOOL)
            out.append(Do(Call(g.native("sk_pb"), [e])))
    return out


def program(r):
    while True:
        g = gen.Gen(r, w=W_EXPR, stmts=(3, 7), expr=r.choice([2, 3, 4, 5]), funcs=False, loops=False)
        p = g.program()
        body = p.body
        tail = []
        if body and isinstance(body[-1], Return):
            tail = [body.pop()]
        for _ in range(r.randint(2, 6)):
            e = r.choice([chain, chain, special, special, special, compare])(g, r)
            if e.type in gen.SUF:
                if r.random() < 0.3:
                    v = g.new_var(e.type, r.random() < 0.5)
                    g.declare(v)
                    body.append(Def(v, e))
                    e = Use(v)
                body.append(Do(Call(g.native("sk_p" + gen.SUF[e.type]), [e])))
        if r.random() < 0.25:
            body += refs(g, r)
        p.body = body + tail
        p.externs = sorted(g.used.values(), key=lambda f: f.name)
        if r.random() < 0.4:
            # the same code inside a function: operands become locals instead of globals
            f = Func(g.fresh(), [], INT)
            retl = p.body and isinstance(p.body[-1], Return)
            f.body = p.body + ([] if retl else [Return(g.int_lit(0))])
            own(f.body, f)
            if not any(isinstance(s, Def) and s.var.export for s in f.body):
                p.body = [FnDef(f), Return(Call(f, []))]
                f.done = True
            else:
                own(f.body, None)
        try:
            ev, ret, it = gen.settle(p, g)
        except gen.GiveUp:
            continue
        return p, ev, ret, it, None, None


def own(body, f):
    for s in body:
        if isinstance(s, Def):
            s.var.owner = f


def count(e, rep):
    if isinstance(e, Bin):
        rep.cover["operators"].add("%s:%s" % (e.op, e.l.type))
        count(e.l, rep)
        count(e.r, rep)
    elif isinstance(e, Un):
        rep.cover["operators"].add("unary %s:%s" % (e.op, e.type))
        count(e.e, rep)
    elif isinstance(e, Call):
        for a in e.args:
            count(a, rep)


def unit(w, i, rng, rep):
    ps = [program(rng) for _ in range(PER)]
    for p in ps:
        body = p[0].body
        if body and isinstance(body[0], FnDef):
            body = body[0].fn.body
        for s in body:
            e = getattr(s, "e", None)
            if e is not None:
                count(e, rep)
    _sem.run_sem(w, rng, rep, ps)
