"""Variables, references, scopes, namespaces and aliases at run time."""
from .. import gen, lang
from ..lang import *
from . import _sem

PROP, LEVEL = "C08", "exploration"
RULE = ("random programs dominated by definitions, assignments, references, namespaces, aliases and reuse of names in "
        "sibling scopes, logging values after changes; non-trivial: at least one logged event; distinct by text and log")
ASSUMPTIONS = ["references to variables of a scope that has ended are never followed"]
UNITS = {"quick": 200, "thorough": 12000}
VARIANTS = ("plain",)
PER = 16

PROFILES = [
    dict(w=dict(d=8, a=8, p=7, f=1, i=2, w=1, n=2, al=2, c=0, no=0, u=0, r=6), depth=3, stmts=(6, 16), expr=1),
    dict(w=dict(d=6, a=7, p=7, f=4, i=3, w=3, n=3, al=1, c=0, no=0, u=0, r=6), depth=4, stmts=(4, 10), expr=1, lit=0.15),
    dict(w=dict(d=6, a=6, p=5, f=3, i=4, w=4, n=1, al=2, c=0, no=0, u=0, r=3), depth=4, stmts=(4, 9), expr=2),
    dict(),
]
T5 = [INT, FLOAT, BOOL, RUNE, STR]


def dump(b, vs):
    return [b.log(Use(v, p)) for p, v in vs if v.type in gen.SUF]


def scopes(r):
    """the same name in sibling scopes, each with its own type and value; outer variables seen from inside"""
    b = _sem.B(r)
    g = b.g
    name = g.fresh()
    g.reserved.add(name)
    outer = []
    st = []
    for _ in range(r.randint(1, 4)):
        t = r.choice(T5)
        v = b.var(t, r.random() < 0.7)
        outer.append((v.name, v))
        st.append(Def(v, g.lit(t) if r.random() < 0.5 else b.q(g.lit(t))))

    def touch():
        out = []
        for p, v in outer:
            if v.mut and r.random() < 0.6:
                out.append(Assign(v, b.q(g.lit(v.type)) if r.random() < 0.6 else g.lit(v.type)))
            if r.random() < 0.5:
                out.append(b.log(Use(v)))
        return out

    def inner(d):
        g.push()
        t = r.choice(T5)
        v = b.var(t, r.random() < 0.6, name=name)
        out = [Def(v, g.lit(t) if r.random() < 0.5 else b.q(g.lit(t)))]
        out += touch()
        out.append(b.log(Use(v)))
        if v.mut:
            out += [Assign(v, b.q(g.lit(t))), b.log(Use(v))]
        if d and r.random() < 0.4:
            # a block inside: may assign this variable
            bl = []
            if v.mut:
                bl.append(Assign(v, g.lit(t)))
            bl.append(b.log(Use(v)))
            out.append(If([(b.q(b.b(r.random() < 0.7)), bl)], None))
            out.append(b.log(Use(v)))
        g.pop()
        return out
    in_func = r.random() < 0.4

    def rest(f=None):
        out = []
        for _ in range(r.randint(2, 5)):
            x = r.random()
            if x < 0.45:
                out.append(If([(b.q(b.b(r.random() < 0.7)), inner(1))], inner(1) if r.random() < 0.5 else None))
            elif x < 0.65:
                i = b.var(INT, True)
                i.protected = True
                body = inner(1)
                out += [Def(i, b.i(0)), While(Bin("<", Use(i), b.i(r.randint(1, 3)), BOOL),
                                              [Assign(i, Bin("+", Use(i), b.i(1), INT))] + body)]
            elif x < 0.85:
                nm = g.fresh()
                fd = b.func([], VOID, lambda f: inner(1), name=nm)
                out += [fd, Do(Call(fd.fn, []))] + ([Do(Call(fd.fn, []))] if r.random() < 0.5 else [])
            elif f is None:
                ns = NS(g.fresh())
                g.declare(ns)
                body = inner(0)
                out.append(Namespace(ns, body))
            out += touch()
        return out
    if in_func and r.random() < 0.5:
        # everything local to one function
        b2 = _sem.B(r)
        return scopes_local(r, b2)
    st += rest()
    st += dump(b, outer)
    return b.finish(st)


def scopes_local(r, b):
    g = b.g

    def body(f):
        out, vs = [], []
        for _ in range(r.randint(2, 6)):
            t = r.choice(T5)
            v = b.var(t, r.random() < 0.7)
            vs.append(v)
            out.append(Def(v, b.q(g.lit(t)) if r.random() < 0.5 else g.lit(t)))
        for _ in range(r.randint(2, 6)):
            m = [v for v in vs if v.mut]
            if m:
                v = r.choice(m)
                c = [u for u in vs if u.type == v.type and u is not v]
                out.append(Assign(v, Use(r.choice(c)) if c and r.random() < 0.5 else b.q(g.lit(v.type))))
            out.append(b.log(Use(r.choice(vs))))
        return out + [b.log(Use(v)) for v in vs]
    fd = b.func([], VOID, body)
    return b.finish([fd, Do(Call(fd.fn, [])), Do(Call(fd.fn, []))])


def refs(r):
    """aliasing: writes through the variable are seen through every reference to it"""
    b = _sem.B(r)
    g = b.g

    def body(f=None):
        t = r.choice(T5)
        n = r.randint(2, 4)
        vs, out = [], []
        for _ in range(n):
            v = b.var(t, r.random() < 0.8)
            vs.append(v)
            out.append(Def(v, b.q(g.lit(t)) if r.random() < 0.5 else g.lit(t)))
        rs = []
        for _ in range(r.randint(1, 3)):
            p = b.var("&" + t, r.random() < 0.6)
            rs.append(p)
            out.append(Def(p, Addr(Use(r.choice(vs)))))
        rr = []
        if r.random() < 0.5:
            q = b.var("&&" + t, r.random() < 0.5)
            rr.append(q)
            out.append(Def(q, Addr(Use(r.choice(rs)))))

        def step(d):
            o = []
            x = r.random()
            m = [v for v in vs if v.mut]
            mr = [p for p in rs if p.mut]
            if x < 0.4 and m:
                v = r.choice(m)
                y = r.random()
                if y < 0.4:
                    o.append(Assign(v, Deref(Use(r.choice(rs)))))
                elif y < 0.7:
                    o.append(Assign(v, b.q(g.lit(t))))
                else:
                    o.append(Assign(v, g.lit(t)))
            elif x < 0.6 and mr:
                p = r.choice(mr)
                c = [q for q in rs if q is not p]
                o.append(Assign(p, Use(r.choice(c)) if c and r.random() < 0.4 else Addr(Use(r.choice(vs)))))
            elif x < 0.7 and rr:
                v = b.var("&" + t)
                o.append(Def(v, Deref(Use(rr[0]))))
                o.append(b.log(Deref(Use(v))))
            elif x < 0.8 and d:
                g.push()
                bl = [s for _ in range(2) for s in step(0)]
                g.pop()
                o.append(If([(b.q(b.b(r.random() < 0.7)), bl or [Simple("noop")])], None))
            elif x < 0.88:
                o.append(b.log(Bin(r.choice(["is", "isnt"]), Use(r.choice(rs)), Addr(Use(r.choice(vs))), BOOL)))
            else:
                o.append(Do(Call(g.native("sk_d" + gen.SUF[t]), [r.choice([Use(r.choice(rs)), Addr(Use(r.choice(vs)))])])))
            return o
        for _ in range(r.randint(3, 9)):
            out += step(1)
            if r.random() < 0.6:
                out.append(b.log(Deref(Use(r.choice(rs)))))
        out += [b.log(Use(v)) for v in vs] + [b.log(Deref(Use(p))) for p in rs]
        return out
    if r.random() < 0.5:
        fd = b.func([], VOID, lambda f: body(f))
        return b.finish([fd, Do(Call(fd.fn, []))])
    return b.finish(body())


def namespaces(r):
    """members of the same name in different namespaces, nested namespaces, functions using them"""
    b = _sem.B(r)
    g = b.g
    names = [g.fresh() for _ in range(3)]
    fname = g.fresh()
    g.reserved |= set(names) | {fname}
    st, all_ = [], []

    def mk(d, pre):
        ns = NS(g.fresh())
        g.declare(ns)
        g.push()
        body = []
        mine = []
        for n in r.sample(names, r.randint(1, 3)):
            if g.visible(n):
                continue
            t = r.choice(T5)
            v = b.var(t, r.random() < 0.6, name=n)
            body.append(Def(v, g.lit(t) if r.random() < 0.5 else b.q(g.lit(t))))
            mine.append(v)
        if mine and r.random() < 0.7 and not g.visible(fname):
            def fb(f):
                o = []
                for v in mine:
                    if v.mut and r.random() < 0.6:
                        o.append(Assign(v, b.q(g.lit(v.type))))
                    o.append(b.log(Use(v)))
                if r.random() < 0.5:
                    p = f.params[0]
                    o.append(b.log(Use(p)))
                return o
            fd = b.func([r.choice(T5)], VOID, fb, name=fname)
            body.append(fd)
            if r.random() < 0.5:
                body.append(Do(Call(fd.fn, [g.lit(fd.fn.params[0].type)])))
        if d and r.random() < 0.4:
            body.append(mk(d - 1, pre + ns.name + "."))
        for v in mine:
            if r.random() < 0.5:
                body.append(b.log(Use(v)))
        ns.members = g.pop()
        return Namespace(ns, body or [Simple("noop")])
    for _ in range(r.randint(1, 4)):
        st.append(mk(2, ""))
        for _ in range(r.randint(1, 4)):
            os_ = [(p, o) for p, o in g.objects() if "." in p]
            if not os_:
                break
            p, o = r.choice(os_)
            if isinstance(o, Func):
                st.append(Do(Call(o, [g.lit(q.type) for q in o.params], p)))
            elif isinstance(o, Var):
                if o.mut and r.random() < 0.6:
                    st.append(Assign(o, b.q(g.lit(o.type)), p))
                st.append(b.log(Use(o, p)))
    for p, o in list(g.objects()):
        if "." in p and isinstance(o, Var) and o.type in gen.SUF:
            st.append(b.log(Use(o, p)))
    return b.finish(st)


def program(r):
    x = r.random()
    try:
        if x < 0.5:
            return _sem.dress(r, gen.make(r, **r.choice(PROFILES)))
        return _sem.dress(r, (scopes if x < 0.68 else refs if x < 0.86 else namespaces)(r))
    except gen.GiveUp:
        return _sem.dress(r, gen.make(r, **PROFILES[0]))


def unit(w, i, rng, rep):
    ps = [program(rng) for _ in range(PER)]
    for p in ps:
        for s, d in _sem.walk(p[0].body):
            if isinstance(s, Def):
                rep.cover["variables"].add("%s%s@%d" % ("mut " if s.var.mut else "", s.var.type, min(d, 5)))
    _sem.run_sem(w, rng, rep, ps)
