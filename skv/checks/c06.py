"""Control flow: exactly the statements the source selects run, in order."""
import random
from .. import gen, lang
from ..lang import *
from . import _sem

PROP, LEVEL = "C06", "exploration"
RULE = ("random nestings of if/elif/else, while, break, continue, return and unreachable, plus exhaustive-style loop "
        "and branch skeletons, every block logging; non-trivial: at least one logged event; distinct by text and log")
ASSUMPTIONS = ["loops that do not end within 5 s of CPU although the model needs fewer than 40000 steps count as hung"]
UNITS = {"quick": 220, "thorough": 12000}
VARIANTS = ("plain",)
PER = 16

PROFILES = [
    dict(w=dict(d=3, a=4, p=6, f=1, i=8, w=6, n=0, al=0, c=1, no=1, u=0, r=0), depth=4, stmts=(2, 6), expr=1, refs=False),
    dict(w=dict(d=2, a=3, p=5, f=0, i=9, w=8, n=0, al=0, c=0, no=1, u=0, r=0), depth=6, stmts=(1, 3), block=(1, 3), expr=1,
         refs=False, funcs=False),
    dict(w=dict(d=3, a=4, p=5, f=5, i=7, w=5, n=1, al=0, c=1, no=1, u=0, r=1), depth=5, stmts=(2, 5), expr=2),
    dict(),
]


def skeleton(r):
    """nested loops with an exit statement planted at one place, code after every construct"""
    b = _sem.B(r)
    g = b.g
    depth = r.randint(1, 4)
    plant = r.choice(["break", "continue", "return", "none", "break", "continue"])
    where = r.randint(0, depth)
    infunc = r.random() < 0.5
    use_if = r.choice([True, True, False])

    def loop(d):
        i = b.var(INT, True)
        i.protected = True
        n = r.choice([1, 2, 3])
        out = [Def(i, b.i(0))]
        g.push()
        g.loop += 1
        body = [Assign(i, Bin("+", Use(i), b.i(1), INT)), b.log(Use(i))]
        inner = []
        if d < depth:
            inner += loop(d + 1)
            inner.append(b.log())
        if d == where and plant != "none":
            ex = ret() if plant == "return" else Simple(plant)
            if use_if:
                k = r.randint(1, 3)
                cond = Bin(r.choice(["is", ">", "<", "isnt"]), Use(i), b.i(k), BOOL)
                arms = [(cond, [b.log(), ex])]
                while r.random() < 0.5:
                    arms.append((Bin("is", b.gl(Use(i)), b.i(r.randint(0, 3)), BOOL),
                                 [b.log()] + ([Simple(r.choice(["break", "continue"]))] if r.random() < 0.4 else [])))
                els = [b.log()] + ([Simple(r.choice(["break", "continue", "noop"]))] if r.random() < 0.5 else []) \
                    if r.random() < 0.5 else None
                st = If(arms, els)
                pos = r.choice(["before", "after"])
                inner = [st] + inner if pos == "before" else inner + [st]
                inner.append(b.log())
            elif r.random() < 0.5:
                inner.append(ex)
            else:
                inner = [ex]
        elif r.random() < 0.3:
            inner.append(If([(Bin("is", Use(i), b.i(r.randint(1, 2)), BOOL), [b.log()])],
                            [b.log()] if r.random() < 0.5 else None))
        body += inner
        g.loop -= 1
        g.pop()
        cond = Bin("<", b.gl(Use(i)) if r.random() < 0.4 else Use(i), b.i(n), BOOL)
        out.append(While(cond, body))
        if r.random() < 0.7:
            out.append(b.log())
        return out

    def ret():
        return Return(b.i(r.randint(0, 200)))
    if infunc:
        fd = b.func([], INT, lambda f: loop(0) + [b.log(), Return(b.i(r.randint(0, 99)))])
        body = [fd, b.log(Call(fd.fn, [])), b.log()]
        if r.random() < 0.3:
            body.append(b.log(Call(fd.fn, [])))
    else:
        body = loop(0) + [b.log()]
    return b.finish(body)


def branches(r):
    """if/elif chains: every arm may end with return/break, selector covers every arm"""
    b = _sem.B(r)
    g = b.g
    n = r.choice([1, 2, 3, 4, 5, 8, 13, 24, 40])
    has_else = r.random() < 0.5
    infunc = r.random() < 0.6

    def chain(sel, deep):
        arms = []
        for k in range(n if deep == 0 else r.randint(1, 3)):
            body = [b.log()]
            x = r.random()
            if deep < 2 and x < 0.25:
                body += chain(sel, deep + 1)
            if infunc and r.random() < 0.35:
                body.append(Return(b.i(k)))
            elif r.random() < 0.1:
                body.append(Simple("noop"))
            c = Bin("is", b.gl(Use(sel)) if r.random() < 0.3 else Use(sel), b.i(k), BOOL)
            if r.random() < 0.1:
                c = Un("not", Bin("isnt", Use(sel), b.i(k), BOOL), BOOL)
            arms.append((c, body))
        els = None
        if has_else:
            els = [b.log()]
            if infunc and r.random() < 0.3:
                els.append(Return(b.i(77)))
        st = [If(arms, els)]
        if r.random() < 0.6:
            st.append(b.log())
        return st
    if infunc:
        fd = b.func([INT], INT, lambda f: chain(f.params[0], 0) + [b.log(), Return(b.i(99))])
        body = [fd]
        ks = list(range(-1, n + 1)) if n <= 13 else [-1, 0, 1, n // 2, n - 2, n - 1, n]
        for k in ks:
            body.append(b.log(Call(fd.fn, [b.i(k)])))
        return b.finish(body)
    i = b.var(INT, True)
    body = [Def(i, b.i(-1))]
    g.push()
    inner = [Assign(i, Bin("+", Use(i), b.i(1), INT))] + chain(i, 0)
    g.pop()
    body.append(While(Bin("<", Use(i), b.i(n), BOOL), inner))
    body.append(b.log(Use(i)))
    return b.finish(body)


def allreturn(r):
    """every path returns; nothing after the statement runs"""
    b = _sem.B(r)

    def body(f):
        p = f.params[0]

        def blk(d):
            if d <= 0 or r.random() < 0.3:
                return [b.log(), Return(b.i(r.randint(0, 999)))]
            arms = []
            for k in range(r.randint(1, 3)):
                arms.append((Bin(r.choice(["<", ">", "is"]), Use(p), b.i(r.randint(0, 4)), BOOL), blk(d - 1)))
            st = [If(arms, blk(d - 1) if r.random() < 0.7 else None)]
            if r.random() < 0.5:
                return [b.log()] + st + [b.log(), Return(b.i(r.randint(0, 999)))]
            return st + [Return(b.i(-1))]
        return blk(r.randint(1, 4)) if r.random() < 0.5 else blk(2)
    fd = b.func([INT], INT, lambda f: body(f))
    if not isinstance(fd.fn.body[-1], Return):
        fd.fn.body.append(Return(b.i(5)))
    return b.finish([fd] + [b.log(Call(fd.fn, [b.i(k)])) for k in range(-1, 6)])


def longloop(r):
    """loops that run long: no stack growth, right iteration count"""
    b = _sem.B(r)
    n = r.choice([1000, 4000, 9000])
    i = b.var(INT, True)
    acc = b.var(INT, True)
    body = [Assign(i, Bin("+", Use(i), b.i(1), INT))]
    b.g.push()
    t = b.var(INT, r.random() < 0.5)
    body.append(Def(t, Bin("mod", Use(i), b.i(7), INT)))
    x = r.random()
    if x < 0.5:
        body.append(If([(Bin("is", Use(t), b.i(3), BOOL), [Simple("continue")]),
                        (Bin(">", Use(i), b.i(n), BOOL), [Simple("break")])], None))
    body.append(Assign(acc, Bin("+", Use(acc), Use(t), INT)))
    b.g.pop()
    st = [Def(i, b.i(0)), Def(acc, b.i(0)), While(Bin("<", Use(i), b.i(n), BOOL), body), b.log(Use(i)), b.log(Use(acc))]
    return b.finish(st, fuel=400000)


def program(r):
    x = r.random()
    if x < 0.45:
        return _sem.dress(r, gen.make(r, **r.choice(PROFILES)))
    try:
        f = skeleton if x < 0.7 else branches if x < 0.85 else allreturn if x < 0.98 else longloop
        return _sem.dress(r, f(r))
    except gen.GiveUp:
        return _sem.dress(r, gen.make(r, **PROFILES[0]))


def unit(w, i, rng, rep):
    ps = [program(rng) for _ in range(PER)]
    for p in ps:
        _sem.shapes(p[0], rep)
    _sem.run_sem(w, rng, rep, ps)
