"""Functions: arguments, returns, recursion, exactly-once left-to-right evaluation."""
from .. import gen, lang
from ..lang import *
from . import _sem

PROP, LEVEL = "C07", "exploration"
RULE = ("random programs dominated by function definitions and calls (0-520 parameters of all types, nesting, recursion, "
        "namespaces, blocks), every argument and body logging; non-trivial: at least one logged event; distinct by "
        "text and log")
ASSUMPTIONS = ["the right operand of and/or is never given side effects (the documentation does not say whether it is "
               "evaluated when the left one decides)"]
UNITS = {"quick": 200, "thorough": 12000}
VARIANTS = ("plain",)
PER = 16

PROFILES = [
    dict(w=dict(d=3, a=2, p=9, f=7, i=2, w=1, n=1, al=1, c=1, no=0, u=0, r=2), depth=4, stmts=(4, 9), expr=3, lit=0.15),
    dict(w=dict(d=2, a=1, p=9, f=9, i=1, w=0, n=2, al=1, c=0, no=0, u=0, r=3), depth=3, stmts=(3, 8), expr=4, lit=0.1),
    dict(w=dict(d=4, a=4, p=6, f=6, i=5, w=3, n=1, al=0, c=0, no=0, u=0, r=2), depth=4, stmts=(3, 7), expr=2),
    dict(),
]
T5 = [INT, FLOAT, BOOL, RUNE, STR]


def wide(r):
    """functions of many parameters: each argument logs when evaluated, each parameter logs in the body"""
    b = _sem.B(r)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 32, 40]) if r.random() < 0.95 else r.choice([63, 64, 65, 127, 129, 255, 256, 257, 300, 520])
    mode = r.random()
    ts = [r.choice(T5) for _ in range(n)] if mode < 0.6 else [r.choice(T5)] * n
    ret = r.choice(T5 + [VOID])

    def body(f):
        out = []
        order = list(f.params)
        if r.random() < 0.5:
            r.shuffle(order)
        for p in order:
            if r.random() < 0.9:
                out.append(b.log(Use(p)))
        if ret != VOID:
            c = [p for p in f.params if p.type == ret]
            out.append(Return(Use(r.choice(c)) if c and r.random() < 0.8 else b.g.lit(ret)))
        return out or [Simple("noop")]
    fd = b.func(ts, ret, body, export=r.random() < 0.2)
    st = [fd]
    for _ in range(r.randint(1, 3)):
        args = []
        for t in ts:
            x = r.random()
            a = b.g.lit(t)
            args.append(a if x < 0.3 else b.gl(a) if x < 0.7 else b.q(a) if x < 0.8 else b.gl(b.gl(a)))
        c = Call(fd.fn, args)
        st.append(Do(c) if ret == VOID or r.random() < 0.3 else b.log(c))
    return b.finish(st)


def order(r):
    """nested calls and operators: evaluation order and multiplicity of every effect"""
    b = _sem.B(r)
    g = b.g
    fs = []
    for _ in range(r.randint(1, 3)):
        n = r.randint(0, 4)
        fs.append(b.func([INT] * n, INT, lambda f: [b.log(Use(p)) for p in f.params] + [b.log(), Return(
            Use(r.choice(f.params)) if f.params and r.random() < 0.7 else b.i(r.randint(0, 50)))]))

    def e(d):
        x = r.random()
        if d <= 0 or x < 0.15:
            return b.gl(b.i(r.randint(0, 30))) if r.random() < 0.7 else b.i(r.randint(0, 30))
        if x < 0.6:
            f = r.choice(fs).fn
            return Call(f, [e(d - 1) for _ in f.params])
        return Bin(r.choice(["+", "-", "*"]), e(d - 1), e(d - 1), INT)

    def be(d):
        return Bin(r.choice(["<", ">", "is", "isnt", "<=", ">="]), e(d - 1), e(d - 1), BOOL)
    st = list(fs)
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.3:
            f = r.choice(fs).fn
            st.append(Do(Call(f, [e(2) for _ in f.params])))
        elif x < 0.5:
            st.append(b.log(e(3)))
        elif x < 0.65:
            v = b.var(INT, r.random() < 0.5)
            st.append(Def(v, e(3)))
            if v.mut and r.random() < 0.5:
                st.append(Assign(v, Bin("+", Use(v), e(2), INT)))
            st.append(b.log(Use(v)))
        elif x < 0.8:
            st.append(If([(be(2), [b.log()]), (be(2), [b.log()])], [b.log(e(2))]))
        elif x < 0.9:
            i = b.var(INT, True)
            i.protected = True
            st += [Def(i, b.i(0)), While(Bin("<", Call(fs[0].fn, [Use(i)] * len(fs[0].fn.params)), b.i(3), BOOL),
                                         [Assign(i, Bin("+", Use(i), e(1), INT)),
                                          If([(Bin(">", Use(i), b.i(3), BOOL), [Simple("break")])], None), b.log()])]
        else:
            fd = b.func([], INT, lambda f: [b.log(), Return(e(2))])
            st += [fd, b.log(Call(fd.fn, []))]
    return b.finish(st)


def recur(r):
    """recursion: linear, tree, accumulating, with locals live across the call"""
    b = _sem.B(r)
    k = r.randint(0, 4)
    t = r.choice([INT, FLOAT]) if k != 3 else INT
    one = b.i(1)
    lit = (lambda v: b.i(v)) if t == INT else (lambda v: Lit(FLOAT, float(v), "%d.0" % v))

    def body(f):
        n = f.params[0]
        base = If([(Bin("<", Use(n), one, BOOL), ([b.log(Use(n))] if r.random() < 0.5 else []) +
                    [Return(lit(r.randint(0, 5)))])], None)
        rest = [Use(p) for p in f.params[1:]]
        dec = Bin("-", Use(n), one, INT)
        out = [base]
        if k == 0:
            out.append(Return(Bin("+", Call(f, [dec] + rest), lit(r.randint(1, 4)), t)))
        elif k == 1:
            v = b.var(t, r.random() < 0.5)
            out.append(Def(v, Bin("*", lit(2), b.q(lit(r.randint(1, 4))), t)))
            w = b.var(t)
            out.append(Def(w, Call(f, [dec] + rest)))
            if v.mut:
                out.append(Assign(v, Bin("+", Use(v), lit(1), t)))
            out += [b.log(Use(v)), b.log(Use(n)), Return(Bin("+", Use(w), Use(v), t))]
        elif k == 2:
            out.append(Return(Bin("+", Call(f, [dec] + rest), Call(f, [Bin("-", Use(n), b.i(2), INT)] + rest), t)))
        elif k == 3:
            out = [If([(Bin("<", Use(n), one, BOOL), [Return(Use(f.params[1]))])], None),
                   Return(Call(f, [dec, Bin("+", Use(f.params[1]), Use(n), INT)] + rest[1:]))]
        else:
            i = b.var(INT, True)
            i.protected = True
            acc = b.var(t, True)
            out += [Def(i, b.i(0)), Def(acc, lit(0)),
                    While(Bin("<", Use(i), b.i(2), BOOL), [Assign(i, Bin("+", Use(i), one, INT)),
                                                           Assign(acc, Bin("+", Use(acc), Call(f, [dec] + rest), t))]),
                    b.log(Use(n)), Return(Use(acc))]
        return out
    extra = [r.choice(T5) for _ in range(r.randint(0, 3))]
    ps = [INT] + ([INT] if k == 3 else []) + extra
    fd = b.func(ps, t, body)
    args = [b.i(r.randint(0, 4 if k in (2, 4) else 9))] + ([b.i(3)] if k == 3 else []) + [b.g.lit(x) for x in extra]
    return b.finish([fd, b.log(Call(fd.fn, args)), b.log()])


def program(r):
    x = r.random()
    try:
        if x < 0.5:
            return _sem.dress(r, gen.make(r, **r.choice(PROFILES)))
        return _sem.dress(r, (wide if x < 0.65 else order if x < 0.88 else recur)(r))
    except gen.GiveUp:
        return _sem.dress(r, gen.make(r, **PROFILES[0]))


def unit(w, i, rng, rep):
    ps = [program(rng) for _ in range(PER)]
    for p in ps:
        for s, d in _sem.walk(p[0].body):
            if isinstance(s, FnDef):
                rep.cover["parameter_counts"].add(len(s.fn.params))
                rep.cover["returned_types"].add(s.fn.ret)
                rep.cover["function_at_depth"].add(d)
    _sem.run_sem(w, rng, rep, ps)
