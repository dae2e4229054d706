"""Single faults planted in otherwise valid generated programs.

make(rng) -> Fault with the faulty text, the fault-free twin, the message the
fault must give and the position of the offending token.
"""
import random, re
from .. import gen, lang
from ..gen import SUF
from ..lang import *

T5 = [INT, FLOAT, BOOL, RUNE, STR]


class Fault:
    __slots__ = ("group", "kind", "text", "good", "pos", "msg", "where", "slot_line")


class Skip(Exception):
    pass


def leafpos(e):
    """position of the first operand of e, as the compiler reports expressions"""
    if isinstance(e, Bin):
        return leafpos(e.l)
    if isinstance(e, Un):
        return leafpos(e.e)
    if isinstance(e, (Addr, Deref)):
        return e.use.pos
    return e.pos


def log(g, e):
    return Do(Call(g.native("sk_p" + SUF[e.type]), [e]))


def newvar(g, t, mut=False):
    v = g.new_var(t, mut)
    return v


def local(g, t, mut=False):
    """(statements, variable): a variable of type t defined right here"""
    v = newvar(g, t, mut)
    return [Def(v, g.lit(t))], v


def other(r, t, ts=T5):
    return r.choice([x for x in ts if x != t])


def ex(g, t, d=1):
    return g.expr(t, g.r.randint(0, d), True)


def fnshell(g, params, ret, name=None):
    f = Func(name or g.fresh(), [], ret)
    f.done = True
    for t in params:
        f.params.append(Var(g.fresh(), t, False, f, 9))
    return f


def fndef(f, body):
    f.body = body
    return FnDef(f)


def embed(g, t):
    """a random context for an expression of type t: closure e -> statements"""
    r = g.r
    opts = ["def", "arg", "assign", "fn_arg"] + ([] if g.func else ["ret"])
    if t == BOOL:
        opts += ["if", "elif", "while", "not", "logic"]
    if t in (INT, FLOAT):
        opts += ["bin", "binr", "neg", "cmp"]
    if t[0] == "&":
        opts = ["def", "assign_ref", "is"]
    k = r.choice(opts)
    deep = r.random() < 0.25 and t[0] != "&"
    inner = embed(g, t) if False else None
    nm = newvar(g, t, False)
    if k == "def":
        tn = t if r.random() < 0.2 else None
        return k, lambda e: [Def(nm, e, tn)]
    if k == "arg":
        return k, lambda e: [log_raw(g, t, e)]
    if k == "assign":
        pre, v = local(g, t, True)
        return k, lambda e: pre + [Assign(v, e)]
    if k == "assign_ref":
        pre, v = local(g, t[1:], True)
        p = newvar(g, t, True)
        return k, lambda e: pre + [Def(p, Addr(Use(v))), Assign(p, e)]
    if k == "is":
        pre, v = local(g, t[1:], True)
        p = newvar(g, t, False)
        return k, lambda e: pre + [Def(p, Addr(Use(v))), log_raw(g, BOOL, Bin("is", Use(p), e, BOOL))]
    if k == "ret":
        f = fnshell(g, [], t)
        f2 = fnshell(g, [], t)
        nested = r.random() < 0.3

        def mk(e):
            fn = Func(f.name, [], t)
            fn.body = [If([(Lit(BOOL, True, "true"), [Return(e)])], None), Return(g.lit(t))] if nested else [Return(e)]
            return [FnDef(fn)]
        # the expression is checked in the scope of that function: only literals and globals are certain to work there
        return k, mk
    if k == "fn_arg":
        f = fnshell(g, [INT, t, INT], t)
        fd = fndef(f, [Return(Use(f.params[1]))])
        return k, lambda e: [fd, Do(Call(f, [g.int_lit(1), e, g.int_lit(2)]))]
    if k == "if":
        return k, lambda e: [If([(e, [Simple("noop")])], None)]
    if k == "elif":
        c = ex(g, BOOL)
        return k, lambda e: [If([(c, [Simple("noop")]), (e, [Simple("noop")])], [Simple("noop")])]
    if k == "while":
        return k, lambda e: [While(e, [Simple("break")])]
    if k == "not":
        return k, lambda e: [Def(nm, Un("not", e, BOOL))]
    if k == "logic":
        o, x = r.choice(["and", "or", "xor"]), ex(g, BOOL)
        return k, lambda e: [Def(nm, Bin(o, x, e, BOOL) if r.random() < 0 else Bin(o, x, e, BOOL))]
    if k == "bin":
        o, x = r.choice("+-*"), ex(g, t)
        return k, lambda e: [Def(nm, Bin(o, e, x, t))]
    if k == "binr":
        o, x = r.choice("+-*"), ex(g, t)
        return k, lambda e: [Def(nm, Bin(o, x, e, t))]
    if k == "neg":
        return k, lambda e: [Def(nm, Un("-", e, t))]
    o, x = r.choice(["<", ">", "is", "isnt"]), ex(g, t)
    b = newvar(g, BOOL)
    return k, lambda e: [Def(b, Bin(o, x, e, BOOL))]


def log_raw(g, t, e):
    return Do(Call(g.native("sk_p" + SUF[t]), [e]))


def T(t):
    return t


# ------------------------------------------------------------------ C12: types
def f_def_type(g):
    r = g.r
    t = r.choice(T5)
    u = other(r, t)
    v = newvar(g, t, r.random() < 0.4)
    e, ok = ex(g, u), ex(g, t)
    return [Def(v, e, t)], [Def(v, ok, t)], lambda: leafpos(e), 'expected type "%s", got "%s"' % (t, u)


def f_def_reftype(g):
    r = g.r
    t = r.choice(T5)
    pre, v = local(g, t)
    p = newvar(g, "&" + t)
    x = r.randint(0, 2)
    good = pre + [Def(p, Addr(Use(v)), "&" + t)]
    if x == 0:
        u = other(r, t)
        e = Addr(Use(v))
        return pre + [Def(newvar(g, "&" + u), e, "&" + u)], good, lambda: e.use.pos, 'expected type "&%s", got "&%s"' % (u, t)
    if x == 1:
        e = Addr(Use(v))
        return pre + [Def(newvar(g, t), e, t)], good, lambda: e.use.pos, 'expected type "%s", got "&%s"' % (t, t)
    e = Use(v)
    return pre + [Def(newvar(g, "&" + t), e, "&" + t)], good, lambda: e.pos, 'expected type "&%s", got "%s"' % (t, t)


def f_assign_type(g):
    r = g.r
    vs = [(p, v) for p, v in g.vars(None, lambda o: o.mut and o.type in T5 and not o.protected)]
    if vs and r.random() < 0.6:
        p, v = r.choice(vs)
        pre = []
    else:
        pre, v = local(g, r.choice(T5), True)
        p = v.name
    u = other(r, v.type)
    e = ex(g, u)
    return pre + [Assign(v, e, p)], pre + [Assign(v, g.lit(v.type), p)], lambda: leafpos(e), \
        'expected type "%s", got "%s"' % (v.type, u)


def f_arg_type(g):
    r = g.r
    fs = g.callables(lambda f: f.params and not f.external and all(q.type in T5 for q in f.params))
    if fs and r.random() < 0.5:
        p, f = r.choice(fs)
        pre = []
    else:
        n = r.choice([1, 2, 3, 5, 9])
        f = fnshell(g, [r.choice(T5) for _ in range(n)], VOID)
        pre, p = [fndef(f, [Simple("noop")])], f.name
    i = r.randrange(len(f.params))
    u = other(r, f.params[i].type)
    good = [ex(g, q.type) for q in f.params]
    bad = list(good)
    bad[i] = ex(g, u)
    c = Call(f, bad, p)
    return pre + [Do(c)], pre + [Do(Call(f, good, p))], lambda: c.argpos[i], \
        'expected param of type "%s", got "%s"' % (f.params[i].type, u)


def f_arg_ref(g):
    r = g.r
    t = r.choice(T5)
    pre, v = local(g, t)
    if r.random() < 0.5:
        f = g.native("sk_d" + SUF[t])
        e, ok, m = Use(v), Addr(Use(v)), 'expected param of type "&%s", got "%s"' % (t, t)
    else:
        f = g.native("sk_p" + SUF[t])
        e, ok, m = Addr(Use(v)), Use(v), 'expected param of type "%s", got "&%s"' % (t, t)
    c = Call(f, [e])
    return pre + [Do(c)], pre + [Do(Call(f, [ok]))], lambda: c.argpos[0], m


def f_arg_count(g):
    r = g.r
    fs = g.callables(lambda f: not f.external and all(q.type in T5 for q in f.params))
    if fs and r.random() < 0.5:
        p, f = r.choice(fs)
        pre = []
    else:
        f = fnshell(g, [r.choice(T5) for _ in range(r.choice([0, 0, 1, 2, 3, 7, 12]))], VOID)
        pre, p = [fndef(f, [Simple("noop")])], f.name
    good = [ex(g, q.type) for q in f.params]
    bad = list(good)
    if bad and r.random() < 0.5:
        del bad[r.randrange(len(bad)):]
    else:
        for _ in range(r.choice([1, 1, 2, 5])):
            bad.append(ex(g, r.choice(T5)))
    c = Call(f, bad, p)
    return pre + [Do(c)], pre + [Do(Call(f, good, p))], lambda: c.pos, "invalid number of parameters"


OPS = {"+": (INT, FLOAT), "-": (INT, FLOAT), "*": (INT, FLOAT), "/": (INT, FLOAT), "mod": (INT, FLOAT), "^": (INT, FLOAT),
       "<": (INT, FLOAT), ">": (INT, FLOAT), "<=": (INT, FLOAT), ">=": (INT, FLOAT), "<<": (INT,), ">>": (INT,),
       "and": (BOOL,), "or": (BOOL,), "xor": (BOOL,), "is": T5, "isnt": T5}


def opres(op, t):
    return BOOL if op in ("<", ">", "<=", ">=", "is", "isnt", "and", "or", "xor") else t


def nz(g, op, e):
    if op in ("/", "mod") and isinstance(e, Lit) and e.type == INT and e.value == 0:
        return g.int_lit(2)
    if op == "^" and isinstance(e, Lit) and e.type == INT:
        return g.int_lit(2)
    return e


def f_op_mixed(g):
    """operands of two different types"""
    r = g.r
    op = r.choice(list(OPS))
    t = r.choice(OPS[op])
    u = other(r, t)
    rt = opres(op, t)
    k, ctx = embed(g, rt)
    l, ok = ex(g, t), nz(g, op, ex(g, t))
    e = nz(g, op, ex(g, u))
    bad = Bin(op, l, e, rt)
    if r.random() < 0.5:
        bad = Bin(op, e, ok, rt)
        return ctx(bad), ctx(Bin(op, l, ok, rt)), lambda: leafpos(ok), 'expected type "%s", got "%s"' % (u, t)
    return ctx(bad), ctx(Bin(op, l, ok, rt)), lambda: leafpos(e), 'expected type "%s", got "%s"' % (t, u)


def f_op_type(g):
    """both operands of one type the operator does not take"""
    r = g.r
    op = r.choice([o for o in OPS if o not in ("is", "isnt")])
    u = r.choice([t for t in T5 if t not in OPS[op]])
    t = r.choice(OPS[op])
    rt = opres(op, t)
    k, ctx = embed(g, rt)
    bad = Bin(op, ex(g, u), ex(g, u), rt)
    good = Bin(op, ex(g, t), nz(g, op, ex(g, t)), rt)
    if op in ("and", "or", "xor"):
        return ctx(bad), ctx(good), lambda: leafpos(bad), 'expected type "Bool", got "%s"' % u
    if op in ("<<", ">>"):
        return ctx(bad), ctx(good), lambda: leafpos(bad), "expected an integer"
    if op == "^":
        return ctx(bad), ctx(good), None, 'cannot use type "%s" for power operator' % u
    return ctx(bad), ctx(good), lambda: leafpos(bad), "expected a numeric value"


def f_unary(g):
    r = g.r
    if r.random() < 0.5:
        u = other(r, BOOL)
        k, ctx = embed(g, BOOL)
        bad, good = Un("not", ex(g, u), BOOL), Un("not", ex(g, BOOL), BOOL)
        return ctx(bad), ctx(good), lambda: leafpos(bad), 'expected type "Bool", got "%s"' % u
    u = r.choice([BOOL, RUNE, STR])
    t = r.choice([INT, FLOAT])
    k, ctx = embed(g, t)
    bad, good = Un("-", ex(g, u), t), Un("-", ex(g, t), t)
    return ctx(bad), ctx(good), lambda: leafpos(bad), "expected a numeric value"


def f_cond(g):
    r = g.r
    u = r.choice([INT, FLOAT, RUNE, STR])
    bad, good = ex(g, u), ex(g, BOOL)
    k = r.randint(0, 3)
    c = ex(g, BOOL)
    if k == 0:
        mk = lambda e: [If([(e, [Simple("noop")])], None)]
    elif k == 1:
        mk = lambda e: [If([(c, [Simple("noop")]), (e, [Simple("noop")])], None)]
    elif k == 2:
        mk = lambda e: [If([(c, [Simple("noop")]), (c, [Simple("noop")]), (e, [Simple("noop")])], [Simple("noop")])]
    else:
        mk = lambda e: [While(e, [Simple("break")])]
    return mk(bad), mk(good), lambda: leafpos(bad), "expected boolean expression"


def f_return_type(g):
    r = g.r
    t = r.choice(T5)
    u = other(r, t)
    f = fnshell(g, [t, u], t)
    bad = r.choice([lambda: Use(f.params[1]), lambda: g.lit(u)])()
    ok = g.lit(t)
    k = r.randint(0, 3)

    def mk(e):
        if k == 0:
            return [Return(e)]
        if k == 1:
            return [If([(Bin("is", Use(f.params[0]), Use(f.params[0]), BOOL), [Return(e)])], None), Return(Use(f.params[0]))]
        if k == 2:
            return [While(Lit(BOOL, True, "true"), [If([(Lit(BOOL, True, "true"), [Return(e)])], None)]), Return(Use(f.params[0]))]
        return [If([(Lit(BOOL, False, "false"), [Simple("noop")])], [Return(e)]), Return(Use(f.params[0]))]
    return [fndef(clone(f), mk(bad))], [fndef(clone(f), mk(ok))], lambda: leafpos(bad), 'expected type "%s", got "%s"' % (t, u)


def clone(f):
    g = Func(f.name, f.params, f.ret)
    g.done = True
    return g


def f_main_return(g):
    r = g.r
    if g.func is not None:
        raise Skip
    u = other(r, INT)
    e = g.lit(u)
    c = g.expr(BOOL, 1, True)
    return [If([(c, [Return(e)])], None)], [If([(c, [Return(g.int_lit(3))])], None)], lambda: leafpos(e), \
        'returning non-int expression "%s" from main' % e.text


def f_void_value(g):
    r = g.r
    f = fnshell(g, [], VOID)
    fd = fndef(f, [Simple("noop")])
    k = r.randint(0, 5)
    c = Call(f, [])
    if k == 5:
        h = fnshell(g, [r.choice(T5) for _ in range(r.randint(1, 4))], r.choice([VOID, INT]))
        body = [Simple("noop")] if h.ret == VOID else [Return(g.int_lit(1))]
        i = r.randrange(len(h.params))
        d = FnDef(clone(h), {i: "Void"})
        d.fn.body = body
        return [d], [fndef(clone(h), body)], lambda: d.tpos[i], 'type "Void" cannot be used as a value'
    if k == 0:
        v = newvar(g, INT, r.random() < 0.5)
        return [fd, Def(v, c, r.choice([None, None, "Void", "Int"]))], [fd, Do(Call(f, []))], lambda: c.pos, \
            'function returning type void cannot be assigned to variable "%s"' % v.name
    if k == 1:
        pre, v = local(g, r.choice(T5), True)
        return pre + [fd, Assign(v, c)], pre + [fd, Assign(v, g.lit(v.type))], lambda: c.pos, 'expected type "%s", got "Void"' % v.type
    if k == 2:
        t = r.choice(T5)
        d = Call(g.native("sk_p" + SUF[t]), [c])
        return [fd, Do(d)], [fd, log(g, g.lit(t))], lambda: d.argpos[0], 'expected param of type "%s", got "Void"' % t
    if k == 3:
        return [fd, If([(c, [Simple("noop")])], None)], [fd, If([(ex(g, BOOL), [Simple("noop")])], None)], lambda: c.pos, \
            "expected boolean expression"
    h = fnshell(g, [], INT)
    return [fd, fndef(clone(h), [Return(c)])], [fd, fndef(clone(h), [Return(g.int_lit(1))])], lambda: c.pos, \
        'expected type "Int", got "Void"'


def f_deref(g):
    r = g.r
    t = r.choice(T5)
    pre, v = local(g, t)
    p = newvar(g, "&" + t)
    w = newvar(g, t)
    d = Deref(Use(v))
    pre = pre + [Def(p, Addr(Use(v)))]
    return pre + [Def(w, RawDeref(d))], pre + [Def(w, Deref(Use(p)))], lambda: d.use.pos, "cannot dereference expression"


def RawDeref(d):
    return d


def f_ref_nonident(g):
    r = g.r
    t = r.choice(T5)
    l = g.lit(t)
    pre, v = local(g, t)
    w = newvar(g, "&" + t)
    raw = RawExpr("&" + t, "&" + l.text)
    return pre + [Def(w, raw)], pre + [Def(w, Addr(Use(v)))], None, "cannot take reference of non-identifier"


def f_type_name(g):
    r = g.r
    bad = g.fresh(upper=True)
    k = r.randint(0, 3)
    t = r.choice(T5)
    pick = "&" + bad if r.random() < 0.25 else bad
    m = 'type "%s" could not be found' % pick if pick == bad else None
    if k == 0:
        d = Def(newvar(g, t), g.lit(t), pick)
        return [d], [Def(d.var, d.e, t)], lambda: d.tpos, m
    f = fnshell(g, [t, t], VOID)
    if k == 1:
        i = r.randint(0, 1)
        d = FnDef(clone(f), {i: pick})
        d.fn.body = [Simple("noop")]
        return [d], [fndef(clone(f), [Simple("noop")])], lambda: d.tpos[i], m
    f.ret = t
    d = FnDef(clone(f), {}, pick)
    d.fn.body = [Return(Use(f.params[0]))]
    return [d], [fndef(clone(f), [Return(Use(f.params[0]))])], lambda: d.rpos, m


def f_div_zero(g):
    r = g.r
    op = r.choice(["/", "mod"])
    z = Lit(INT, 0, r.choice(["0", "0", "0x0", "0b0", "0o0", "00"]))
    k, ctx = embed(g, INT)
    l = ex(g, INT)
    return ctx(Bin(op, l, z, INT)), ctx(Bin(op, l, g.int_lit(3), INT)), lambda: z.pos, "division by zero"


def f_redundant(g):
    pre, v = local(g, g.r.choice(T5), True)
    u = Use(v)
    return pre + [Assign(v, u)], pre + [Assign(v, g.lit(v.type))], lambda: u.pos, 'redundant assignment of variable "%s" to itself' % v.name


# ------------------------------------------------------------------ C13: constants
def f_const_local(g):
    r = g.r
    t = r.choice(T5)
    v = newvar(g, t)
    a = Assign(v, g.lit(t))
    tn = t if r.random() < 0.3 else None
    e = g.lit(t)
    wrap, w = wrapper(g, fn=False)
    m = Var(v.name, t, True)
    return [Def(v, e, tn)] + wrap([a]), [Def(m, e, tn)] + wrap([Assign(m, a.e)]), lambda: a.pos, \
        'cannot reassign const variable "%s"' % v.name


def wrapper(g, fn=True):
    """put statements inside a block"""
    r = g.r
    k = r.choice(["none", "none", "if", "else", "elif", "while", "while_if"] + (["fn"] if fn else []))
    t = Lit(BOOL, True, "true")
    if k == "none":
        return (lambda b: b), k
    if k == "if":
        return (lambda b: [If([(t, b)], None)]), k
    if k == "else":
        return (lambda b: [If([(t, [Simple("noop")])], b)]), k
    if k == "elif":
        return (lambda b: [If([(t, [Simple("noop")]), (t, b)], None)]), k
    if k == "while":
        return (lambda b: [While(t, b + [Simple("break")])]), k
    if k == "while_if":
        return (lambda b: [While(t, [If([(t, b)], None), Simple("break")])]), k
    f = fnshell(g, [], VOID)
    return (lambda b: [fndef(clone(f), b)]), k


def f_const_outer(g):
    """a constant visible here that the generator declared"""
    r = g.r
    vs = g.vars(None, lambda o: not o.mut and o.type in T5)
    if not vs:
        raise Skip
    p, v = r.choice(vs)
    a = Assign(v, g.lit(v.type), p)
    wrap, w = wrapper(g, fn=False)
    return wrap([a]), wrap([log(g, g.lit(v.type))]), lambda: a.pos, 'cannot reassign const variable "%s"' % p


def f_const_param(g):
    r = g.r
    t = r.choice(T5)
    f = fnshell(g, [r.choice(T5), t, r.choice(T5)], VOID)
    v = f.params[1]
    a = Assign(v, g.lit(t))
    wrap, w = wrapper(g, fn=False)
    return [fndef(clone(f), wrap([a]))], [fndef(clone(f), wrap([log(g, Use(v))]))], lambda: a.pos, \
        'cannot reassign const variable "%s"' % v.name


def f_const_export(g):
    if g.func is not None or len(g.scopes) > 1:
        raise Skip
    r = g.r
    t = r.choice(T5)
    v = newvar(g, t)
    v.export = True
    a = Assign(v, g.lit(t))
    wrap, w = wrapper(g)
    return [Def(v, g.lit(t))] + wrap([a]), [Def(v, g.lit(t))] + wrap([log(g, Use(v))]), lambda: a.pos, \
        'cannot reassign const variable "%s"' % v.name


def f_const_ns(g):
    if g.func is not None or len(g.scopes) > 1:
        raise Skip
    r = g.r
    t = r.choice(T5)
    ns = NS(g.fresh())
    v = Var(g.fresh(), t)
    m = Var(v.name, t, True)
    p = ns.name + "." + v.name
    a = Assign(v, g.lit(t), p)
    wrap, w = wrapper(g)
    return [Namespace(ns, [Def(v, g.lit(t))])] + wrap([a]), [Namespace(ns, [Def(m, g.lit(t))])] + wrap([Assign(m, a.e, p)]), \
        lambda: a.pos, 'cannot reassign const variable "%s"' % p


def f_const_ref(g):
    r = g.r
    t = r.choice(T5)
    pre, v = local(g, t, True)
    pre2, u = local(g, t, True)
    p, q = newvar(g, "&" + t), None
    a = Assign(p, Addr(Use(u)))
    m = Var(p.name, p.type, True)
    return pre + pre2 + [Def(p, Addr(Use(v))), a], pre + pre2 + [Def(m, Addr(Use(v))), Assign(m, Addr(Use(u)))], \
        lambda: a.pos, 'cannot reassign const variable "%s"' % p.name


def f_const_global_in_fn(g):
    """global constant assigned inside a function"""
    if g.func is not None or len(g.scopes) > 1:
        raise Skip
    r = g.r
    t = r.choice(T5)
    v = newvar(g, t)
    m = Var(v.name, t, True)
    f = fnshell(g, [], VOID)
    wrap, w = wrapper(g, fn=False)
    a = Assign(v, g.lit(t))
    return [Def(v, g.lit(t)), fndef(clone(f), wrap([a]))], [Def(m, g.lit(t)), fndef(clone(f), wrap([Assign(m, g.lit(t))]))], \
        lambda: a.pos, 'cannot reassign const variable "%s"' % v.name


def f_assign_nonvar(g):
    """assigning to a function, an alias"""
    r = g.r
    if r.random() < 0.5:
        f = fnshell(g, [], VOID)
        fd = fndef(f, [Simple("noop")])
        a = Assign(Var(f.name, INT), g.int_lit(1))
        return [fd, a], [fd, Do(Call(f, []))], lambda: a.pos, 'variable "%s" not found' % f.name
    al = Alias(g.fresh(upper=True), r.choice(T5))
    a = Assign(Var(al.name, INT), g.lit(al.type))
    return [AliasDef(al), a], [AliasDef(al)], lambda: a.pos, 'variable "%s" not found' % al.name


# ------------------------------------------------------------------ C14: names
def f_undef_use(g):
    r = g.r
    t = r.choice(T5)
    v = newvar(g, t)
    k, ctx = embed(g, t)
    u = Use(v)
    pre = Def(v, g.lit(t))
    if k in ("ret",):
        raise Skip
    return ctx(u), [pre] + ctx(Use(v)), lambda: u.pos, 'variable "%s" not found' % v.name


def f_undef_assign(g):
    t = g.r.choice(T5)
    v = newvar(g, t, True)
    a = Assign(v, g.lit(t))
    return [a], [Def(v, g.lit(t)), Assign(v, a.e)], lambda: a.pos, 'variable "%s" not found' % v.name


def f_undef_call(g):
    r = g.r
    t = r.choice(T5)
    f = fnshell(g, [], t)
    k, ctx = embed(g, t)
    if k == "ret":
        raise Skip
    c = Call(f, [])
    return ctx(c), [fndef(f, [Return(g.lit(t))])] + ctx(Call(f, [])), lambda: c.pos, 'function "%s" missing declaration' % f.name


def f_out_of_scope(g):
    """used after its block, function or loop ended"""
    r = g.r
    t = r.choice(T5)
    v = newvar(g, t, r.random() < 0.5)
    d = Def(v, g.lit(t))
    if r.random() < 0.25:
        f = fnshell(g, [t], VOID)
        v = f.params[0]
        blk = [fndef(f, [Simple("noop")])]
        u = Use(v)
        return blk + [log(g, u)], blk + [log(g, g.lit(t))], lambda: u.pos, 'variable "%s" not found' % v.name
    wrap, w = wrapper(g)
    while w == "none":
        wrap, w = wrapper(g)
    u = Use(v)
    return wrap([d]) + [log(g, u)], [d] + [log(g, Use(v))], lambda: u.pos, 'variable "%s" not found' % v.name


def f_sibling_arm(g):
    """declared in one arm, used in another"""
    t = g.r.choice(T5)
    v = newvar(g, t)
    u = Use(v)
    c = ex(g, BOOL)
    a = [(c, [Def(v, g.lit(t)), log(g, Use(v))])]
    if g.r.random() < 0.5:
        return [If(a, [log(g, u)])], [If(a, [log(g, g.lit(t))])], lambda: u.pos, 'variable "%s" not found' % v.name
    return [If(a + [(c, [log(g, u)])], None)], [If(a + [(c, [log(g, g.lit(t))])], None)], lambda: u.pos, \
        'variable "%s" not found' % v.name


def f_before_decl(g):
    t = g.r.choice(T5)
    v = newvar(g, t)
    u = Use(v)
    return [log(g, u), Def(v, g.lit(t))], [Def(v, g.lit(t)), log(g, Use(v))], lambda: u.pos, 'variable "%s" not found' % v.name


def f_self_init(g):
    t = g.r.choice([INT, FLOAT])
    v = newvar(g, t, g.r.random() < 0.5)
    u = Use(v)
    return [Def(v, Bin("+", u, g.lit(t), t))], [Def(v, Bin("+", g.lit(t), g.lit(t), t))], lambda: u.pos, \
        'variable "%s" not found' % v.name


def f_forward_call(g):
    f = fnshell(g, [], VOID)
    c = Call(f, [])
    fd = fndef(f, [Simple("noop")])
    return [Do(c), fd], [fd, Do(Call(f, []))], lambda: c.pos, 'function "%s" missing declaration' % f.name


def f_inner_fn(g):
    """a function declared inside a function or block, called outside"""
    f = fnshell(g, [], VOID)
    wrap, w = wrapper(g)
    while w == "none":
        wrap, w = wrapper(g)
    fd = fndef(f, [Simple("noop")])
    c = Call(f, [])
    return wrap([fd, Do(Call(f, []))]) + [Do(c)], wrap([fd, Do(Call(f, []))]), lambda: c.pos, \
        'function "%s" missing declaration' % f.name


def f_dup_var(g):
    """second declaration of a visible variable, in the same or an inner scope"""
    r = g.r
    t, u = r.choice(T5), r.choice(T5)
    v = newvar(g, t, r.random() < 0.5)
    w2 = Var(v.name, u, r.random() < 0.5)
    n = newvar(g, u)
    wrap, w = wrapper(g, fn=True)
    d = Def(w2, g.lit(u), u if r.random() < 0.2 else None)
    return [Def(v, g.lit(t))] + wrap([d]), [Def(v, g.lit(t))] + wrap([Def(n, d.e)]), lambda: w2.shown, \
        'variable "%s" already defined' % v.name


def f_dup_outer(g):
    """redeclares a variable the generator made visible"""
    r = g.r
    vs = [v for s in g.scopes for v in s.values() if isinstance(v, Var)]
    if not vs:
        raise Skip
    v = r.choice(vs)
    u = r.choice(T5)
    w2, n = Var(v.name, u, r.random() < 0.5), newvar(g, u)
    wrap, w = wrapper(g)
    d = Def(w2, g.lit(u))
    return wrap([d]), wrap([Def(n, d.e)]), lambda: w2.shown, 'variable "%s" already defined' % v.name


def f_dup_param_outer(g):
    """a parameter named like a visible variable"""
    r = g.r
    pre, v = local(g, r.choice(T5))
    f = fnshell(g, [r.choice(T5), r.choice(T5)], VOID)
    i = r.randint(0, 1)
    h = clone(f)
    h.params = list(f.params)
    h.params[i] = Var(v.name, f.params[i].type, False, h)
    h.body = [Simple("noop")]
    return pre + [FnDef(h)], pre + [fndef(clone(f), [Simple("noop")])], lambda: h.params[i].shown, \
        'variable "%s" shadows existing variable' % v.name


def f_dup_params(g):
    r = g.r
    n = r.choice([2, 3, 6])
    f = fnshell(g, [r.choice(T5) for _ in range(n)], VOID)
    i, j = sorted(r.sample(range(n), 2))
    h = clone(f)
    h.params = list(f.params)
    h.params[j] = Var(h.params[i].name, f.params[j].type, False, h)
    h.body = [Simple("noop")]
    return [FnDef(h)], [fndef(clone(f), [Simple("noop")])], lambda: h.params[j].shown, \
        'variable "%s" shadows existing variable' % h.params[i].name


def f_dup_local_param(g):
    """a local named like a parameter"""
    r = g.r
    f = fnshell(g, [r.choice(T5)], VOID)
    u = r.choice(T5)
    w2, n = Var(f.params[0].name, u, r.random() < 0.5), newvar(g, u)
    wrap, w = wrapper(g, fn=False)
    return [fndef(clone(f), wrap([Def(w2, g.lit(u))]))], [fndef(clone(f), wrap([Def(n, g.lit(u))]))], lambda: w2.shown, \
        'variable "%s" already defined' % w2.name


def f_dup_func(g):
    r = g.r
    f = fnshell(g, [], VOID)
    h = fnshell(g, [r.choice(T5)] if r.random() < 0.4 else [], VOID, name=f.name)
    k = fnshell(g, [], VOID)
    wrap, w = wrapper(g)
    d = fndef(h, [Simple("noop")])
    return [fndef(f, [Simple("noop")])] + wrap([d]), [fndef(f, [Simple("noop")])] + wrap([fndef(k, [Simple("noop")])]), \
        lambda: d.npos, 'cannot redeclare function "%s"' % f.name


def f_kind_clash(g):
    """variable, function, alias, namespace with the name of something of another kind"""
    r = g.r
    kinds = ["variable", "function", "alias"]
    if g.func is None and len(g.scopes) == 1:
        kinds.append("namespace")
    a, b = r.sample(kinds, 2)
    name, free = g.fresh(upper=True), g.fresh(upper=True)
    w2 = Var(name, INT)

    def mk(k, n):
        if k == "variable":
            d = Def(Var(n, INT), g.int_lit(1))
            return d, lambda: d.var.shown
        if k == "function":
            d = fndef(fnshell(g, [], VOID, name=n), [Simple("noop")])
            return d, lambda: d.npos
        if k == "alias":
            d = AliasDef(Alias(n, r.choice(T5)))
            return d, lambda: d.pos
        d = Namespace(NS(n), [Simple("noop")])
        return d, lambda: (d.pos[0], d.pos[1] + len("namespace") + 1)
    one, _ = mk(a, name)
    two, pos = mk(b, name)
    two_ok, _ = mk(b, free)
    an = {"alias": "type alias"}
    if b == "namespace" or a == "namespace":
        pos = None
    return [one, two], [one, two_ok], pos, 'cannot redeclare %s "%s" as %s' % (an.get(a, a), name, an.get(b, b))


def f_dup_alias(g):
    r = g.r
    al = Alias(g.fresh(upper=True), r.choice(T5))
    al2, ok = Alias(al.name, r.choice(T5)), Alias(g.fresh(upper=True), INT)
    d = AliasDef(al2)
    wrap, w = wrapper(g)
    return [AliasDef(al)] + wrap([d]), [AliasDef(al)] + wrap([AliasDef(ok)]), lambda: d.pos, 'alias "%s" is already defined' % al.name


def f_ns_member(g):
    """unknown member, or a member used without its namespace"""
    if g.func is not None or len(g.scopes) > 1:
        raise Skip
    r = g.r
    ns, ns2 = NS(g.fresh()), NS(g.fresh())
    t = r.choice(T5)
    v = Var(g.fresh(), t, r.random() < 0.5)
    f = fnshell(g, [], VOID)
    pre = [Namespace(ns, [Def(v, g.lit(t)), fndef(f, [Simple("noop")])]), Namespace(ns2, [Simple("noop")])]
    k = r.randint(0, 4)
    good = pre + [log(g, Use(v, ns.name + "." + v.name)), Do(Call(f, [], ns.name + "." + f.name))]
    if k == 0:
        p = ns.name + "." + g.fresh()
        u = Use(v, p)
        return pre + [log(g, u)], good, lambda: u.pos, 'variable "%s" not found' % p
    if k == 1:
        u = Use(v)
        return pre + [log(g, u)], good, lambda: u.pos, 'variable "%s" not found' % v.name
    if k == 2:
        p = ns2.name + "." + v.name
        u = Use(v, p)
        return pre + [log(g, u)], good, lambda: u.pos, 'variable "%s" not found' % p
    if k == 3:
        c = Call(f, [])
        return pre + [Do(c)], good, lambda: c.pos, 'function "%s" missing declaration' % f.name
    p = ns2.name + "." + f.name
    c = Call(f, [], p)
    return pre + [Do(c)], good, lambda: c.pos, 'function "%s" missing declaration' % p


def f_fn_as_var(g):
    f = fnshell(g, [], g.r.choice(T5))
    fd = fndef(f, [Return(g.lit(f.ret))])
    u = Use(Var(f.name, f.ret))
    return [fd, log(g, u)], [fd, log(g, Call(f, []))], lambda: u.pos, 'variable "%s" not found' % f.name


def f_var_as_fn(g):
    pre, v = local(g, INT)
    c = Call(Func(v.name, [], VOID), [])
    return pre + [Do(c)], pre + [log(g, Use(v))], lambda: c.pos, 'function "%s" missing declaration' % v.name


# ------------------------------------------------------------------ C15: placement of statements
def f_loop_kw(g):
    r = g.r
    kw = r.choice(["break", "continue"])
    s = Simple(kw)
    t = Lit(BOOL, True, "true")
    k = r.randint(0, 3)
    if g.in_while and k in (0, 1):
        k = 2
    if k == 0:
        return [If([(t, [s])], None)], [While(t, [If([(t, [Simple(kw)])], None), Simple("break")])], lambda: s.pos, kw + " must be inside while loop"
    if k == 1:
        w = While(t, [Simple("break")])
        return [w, If([(t, [Simple("noop")])], [s])], [w, If([(t, [Simple("noop")])], [Simple("noop")])], lambda: s.pos, \
            kw + " must be inside while loop"
    f = fnshell(g, [], VOID)
    # a function inside a loop: the loop around it does not count
    in_loop = r.random() < 0.6 and not g.func
    body = [If([(t, [s])], None)] if r.random() < 0.5 else [s]
    bad = [fndef(clone(f), body)]
    good = [fndef(clone(f), [While(t, [Simple("break")])])]
    if in_loop:
        return [While(t, bad + [Simple("break")])], [While(t, good + [Simple("break")])], lambda: s.pos, kw + " must be inside while loop"
    return bad, good, lambda: s.pos, kw + " must be inside while loop"


def f_else_no_if(g):
    r = g.r
    t = Lit(BOOL, True, "true")
    kw = r.choice(["else", "elif true"])
    raw = Raw("%s {\n\tnoop\n}" % kw)
    good_if = If([(t, [Simple("noop")])], None)
    pre = r.choice([[Simple("noop")], [While(t, [Simple("break")])], [good_if, Simple("noop")], local(g, INT)[0],
                    [If([(t, [Simple("noop")])], [Simple("noop")])]])
    return pre + [raw], pre + [good_if], lambda: raw.pos, "else/elif statement missing preceding if statement"


def f_dead_code(g):
    r = g.r
    t = Lit(BOOL, True, "true")
    k = r.choice(["return", "break", "continue", "unreachable"])
    d = r.choice([lambda: Def(newvar(g, INT), g.int_lit(1)), lambda: log(g, g.int_lit(2)), lambda: If([(t, [Simple("noop")])], None),
                  lambda: While(t, [Simple("break")]), lambda: Return(g.int_lit(1))])()
    mid = r.choice([[], [], [Simple("noop")], [Comment("# x")], [Simple("unreachable")]])
    if k in ("break", "continue"):
        if isinstance(d, Return):
            d = log(g, g.int_lit(2))
        return [While(t, [Simple(k)] + mid + [d])], [While(t, [d, Simple("break")])], lambda: d.pos, "unreachable code"
    f = fnshell(g, [], INT)
    first = Return(g.int_lit(5)) if k == "return" else Simple(k)
    if r.random() < 0.5:
        body = [If([(t, [first] + mid + [d])], None), Return(g.int_lit(3))]
        good = [If([(t, ([] if isinstance(d, Return) else [d]) + [Return(g.int_lit(5))])], None), Return(g.int_lit(3))]
    else:
        body = [first] + mid + [d]
        if k != "return":
            body = [first] + mid + [d, Return(g.int_lit(1))] if not isinstance(d, Return) else [first] + mid + [d]
        good = ([] if isinstance(d, Return) else [d]) + [Return(g.int_lit(5))]
    return [fndef(clone(f), body)], [fndef(clone(f), good)], lambda: d.pos, "unreachable code"


def f_no_return(g):
    r = g.r
    ret = r.choice(T5)
    f = fnshell(g, [BOOL], ret)
    c = Use(f.params[0])
    rt = Return(g.lit(ret))
    k = r.randint(0, 4)
    if k == 0:
        b = [Simple("noop")]
    elif k == 1:
        b = [If([(c, [rt])], None)]
    elif k == 2:
        b = [If([(c, [rt])], [rt])]
    elif k == 3:
        b = [While(c, [rt])]
    else:
        b = [log(g, g.lit(ret)), Simple("unreachable")] if r.random() < 0 else [log(g, g.lit(ret))]
    return [fndef(clone(f), b)], [fndef(clone(f), b + [Return(g.lit(ret))])], None, 'expected return value in function "%s"' % f.name


def f_void_return(g):
    r = g.r
    f = fnshell(g, [], VOID)
    e = g.lit(r.choice(T5))
    wrap, w = wrapper(g, fn=False)
    if w == "while":
        wrap = lambda b: [While(Lit(BOOL, True, "true"), b)]
    return [fndef(clone(f), wrap([Return(e)]))], [fndef(clone(f), wrap([Return()]))], None, \
        'unexpected return from void function "%s"' % f.name


def f_bare_return(g):
    r = g.r
    f = fnshell(g, [], r.choice(T5))
    s = Return()
    t = Lit(BOOL, True, "true")
    if r.random() < 0.5:
        return [fndef(clone(f), [If([(t, [s])], None), Return(g.lit(f.ret))])], \
            [fndef(clone(f), [If([(t, [Return(g.lit(f.ret))])], None), Return(g.lit(f.ret))])], lambda: s.pos, "expected expression in return"
    return [fndef(clone(f), [s])], [fndef(clone(f), [Return(g.lit(f.ret))])], lambda: s.pos, "expected expression in return"


def f_nested_export(g):
    r = g.r
    f = fnshell(g, [], VOID)
    x = clone(f)
    ext = r.random() < 0.5
    x.external, x.export = ext, not ext
    x.body = [Simple("noop")]
    d = FnDef(x)
    wrap, w = wrapper(g)
    while w == "none" and g.func is None and len(g.scopes) == 1:
        wrap, w = wrapper(g)
    return wrap([d]), wrap([fndef(clone(f), [Simple("noop")])]), lambda: d.npos, \
        'cannot declare nested function "%s" as external or exported' % f.name


def f_dangling(g):
    r = g.r
    k = r.randint(0, 3)
    pre, v = local(g, r.choice(T5))
    if k == 0:
        raw = Raw(g.lit(r.choice(T5)).text)
    elif k == 1:
        raw = Raw(v.name)
    elif k == 2:
        raw = Raw("%d + %d" % (r.randint(0, 9), r.randint(0, 9)))
    else:
        raw = Raw("not true")
    return pre + [raw], pre + [log(g, Use(v))], lambda: raw.pos, "expression cannot be used on its own"


SYNTAX = [  # (bad with the offending token marked by §, good, message or None for any)
    ('x_ :=§', 'x_ := 1', 'expected expression in assignment variable'),
    ('x_ := §+', 'x_ := 1', 'expected expression in assignment variable'),
    ('mut x_ := §', 'mut x_ := 1', 'expected expression in assignment variable'),
    ('x_: Int', 'x_: Int = 1', None),
    ('x_ = §', 'x_ := 1', 'expected expression in assignment variable'),
    ('if §{\n\tnoop\n}', 'if true {\n\tnoop\n}', 'invalid expression near "{"'),
    ('while §{\n\tbreak\n}', 'while true {\n\tbreak\n}', 'invalid expression near "{"'),
    ('if true {\n§}', 'if true {\n\tnoop\n}', 'code block cannot be empty'),
    ('while true {\n§}', 'while true {\n\tbreak\n}', 'code block cannot be empty'),
    ('f_() {\n§}', 'f_() {\n\tnoop\n}', 'code block cannot be empty'),
    ('if true {\n\tnoop\n} else {\n§}', 'if true {\n\tnoop\n} else {\n\tnoop\n}', 'code block cannot be empty'),
    ('x_ := §(1 + 2', 'x_ := (1 + 2)', 'missing closing parenthesis'),
    ('x_ := 1 + 2§)', 'x_ := (1 + 2)', 'expected a newline'),
    ('x_ := 1 §+', 'x_ := 1 + 1', 'expected expression after "+"'),
    ('x_ := * §2', 'x_ := 3 * 2', 'cannot dereference expression'),
    ('x_ := not §not true', 'x_ := not true', 'cannot use unary operator twice'),
    ('x_ := - §- 1', 'x_ := - 1', 'cannot use unary operator twice'),
    ('x_ := 1 §2', 'x_ := 1', 'expected a newline'),
    ('x_ := 1 §y_ := 2', 'x_ := 1\ny_ := 2', 'expected a newline'),
    ('f_(a_ §Int) {\n\tnoop\n}', 'f_(a_: Int) {\n\tnoop\n}', 'expected comma'),
    ('f_(a_: Int §b_: Int) {\n\tnoop\n}', 'f_(a_: Int, b_: Int) {\n\tnoop\n}', 'expected comma'),
    ('f_(a_: Int §{\n\tnoop\n}', 'f_(a_: Int) {\n\tnoop\n}', 'expected comma'),
    ('f_(a_: Int§)', 'f_(a_: Int) {\n\tnoop\n}', 'expected comma'),
    ('else', 'noop', None),
    ('x_ := "abc', 'x_ := "abc"', None),
    ("x_ := 'a", "x_ := 'a'", None),
    ("x_ := §''", "x_ := 'b'", 'expected expression in assignment variable'),
    ('{\n\t§noop\n}', 'noop', 'unexpected code block'),
    ('noop {\n\t§noop\n}', 'noop\nnoop', 'unexpected code block'),
    ('break_ {\n\t§noop\n}', 'break_ := 1', 'unexpected code block'),
    ('return return', 'noop', None),
    ('§mut f_() {\n\tnoop\n}', 'f_() {\n\tnoop\n}', 'unexpected token: "mut"'),
    ('§mut mut x_ := 1', 'mut x_ := 1', 'unexpected token: "mut"'),
    ('sk_nope(1,§, 2)', 'noop', 'unexpected comma'),
    ('sk_nope(§,1)', 'noop', 'unexpected comma'),
    ('sk_nope(1§', 'noop', 'missing closing parenthesis'),
    ('§#bad comment', '# good comment', 'invalid start of comment'),
    ('x_ := 1 §#bad', 'x_ := 1 # good', 'invalid start of comment'),
    ('x_ := §@', 'x_ := 1', 'expected expression in assignment variable'),
    ('§$', 'noop', 'unexpected token: "$"'),
    ('x_ := §1;', 'x_ := 1', 'expected expression in assignment variable'),
    ('§1x_ := 2', 'x_ := 2', 'unexpected token: "1x_"'),
    ('x_ = §= 1', 'x_ := 1', 'expected expression in assignment variable'),
    ('x_ §:== 1', 'x_ := 1', 'unexpected token: ":=="'),
    ('x_ §: = 1', 'x_ := 1', 'unexpected token: ":"'),
    ('mut §T_ := Int', 'T_ := Int', 'type alias cannot be mutable'),
    ('x_ := true §and', 'x_ := true and false', 'expected expression after "and"'),
    ('x_ := 1 §^', 'x_ := 1 ^ 2', 'expected expression after "^"'),
    ('x_ := §0b12', 'x_ := 0b11', 'expected expression in assignment variable'),
    ('x_ := §0o8', 'x_ := 0o7', 'expected expression in assignment variable'),
    ('x_ := §0xG', 'x_ := 0xF', 'expected expression in assignment variable'),
    ('x_ := §1__0', 'x_ := 1_0', 'expected expression in assignment variable'),
    ('x_ := §1.', 'x_ := 1.0', 'expected expression in assignment variable'),
    ('x_ := §.5', 'x_ := 0.5', 'expected expression in assignment variable'),
    ('§export return 1', 'noop', 'unexpected token: "export"'),
    ('§external x_ := 1', 'x_ := 1', 'unexpected token: "external"'),
    ('import §1', 'noop', 'expected identifier after "import"'),
    ('§if true noop', 'if true {\n\tnoop\n}', 'if statement must be followed by code block'),
    ('§while true break', 'while true {\n\tbreak\n}', 'while statement must be followed by code block'),
    ('x_ := §is 1', 'x_ := 1 is 1', 'expected expression in assignment variable'),
    ('x_ := §Int + 1', 'x_ := 1 + 1', 'type aliases cannot be used in expressions'),
    ('x_ := §if', 'x_ := 1', 'expected expression in assignment variable'),
    ('if §:= 1', 'iff := 1', 'invalid expression near ":="'),
    ('return_ := §return', 'return_ := 1', 'expected expression in assignment variable'),
    ('true §:= false', 'truee := false', 'unexpected token: ":="'),
]


def f_syntax(g):
    r = g.r
    bad, good, msg = r.choice(SYNTAX)
    ren = {k: g.fresh() for k in ("x_", "y_", "f_", "a_", "b_")}
    ren["T_"] = g.fresh(upper=True)
    import re

    def sub(s):
        return re.sub(r"\b(x_|y_|f_|a_|b_|T_)(?!\w)", lambda m: ren[m.group(1)], s) if s else s
    if "export" in bad or "external" in bad or bad.startswith("import"):
        if g.func is not None or len(g.scopes) > 1:
            raise Skip
    bad, good, msg = sub(bad), sub(good), sub(msg)
    k = bad.find("§")
    braw, graw = Raw(bad.replace("§", "")), Raw(good)
    pos = None
    if bad[:1] == "{" or bad[k + 1:k + 2] in ("", "\n"):
        k, msg = -1, None if bad[:1] == "{" else msg      # reported at the next token or the previous statement
    if k >= 0 and msg:
        dl, dc = bad[:k].count("\n"), k - (bad[:k].rfind("\n") + 1)
        pos = lambda: (braw.pos[0] + dl, braw.pos[1] + dc)
    if "iff" in good or "truee" in good or "return_" in good or "break_" in good:
        for n in ("iff", "truee", "return_", "break_"):
            if g.visible(n):
                raise Skip
            g.reserved.add(n)
    return [braw], [graw], pos, msg


def f_unbalanced(g):
    """a closing brace missing or one too many (whole program)"""
    if g.func is not None or len(g.scopes) > 1:
        raise Skip
    r = g.r
    if r.random() < 0.5:
        raw = Raw("if true {\n\tnoop")
        return [raw], [Raw("if true {\n\tnoop\n}")], None, "Reached EOF, expected closing bracket"
    raw = Raw("}")
    return [raw], [Simple("noop")], None, None


GROUPS = {
    "C12": [f_def_type, f_def_reftype, f_assign_type, f_arg_type, f_arg_type, f_arg_ref, f_arg_count, f_arg_count, f_op_mixed, f_op_mixed,
            f_op_mixed, f_op_type, f_op_type, f_op_type, f_unary, f_cond, f_cond, f_return_type, f_return_type, f_main_return, f_void_value, f_void_value,
            f_deref, f_ref_nonident, f_type_name, f_div_zero],
    "C13": [f_const_local, f_const_local, f_const_outer, f_const_outer, f_const_param, f_const_export, f_const_ns, f_const_ref,
            f_const_global_in_fn, f_assign_nonvar],
    "C14": [f_undef_use, f_undef_use, f_undef_assign, f_undef_call, f_out_of_scope, f_out_of_scope, f_sibling_arm, f_before_decl, f_self_init,
            f_forward_call, f_inner_fn, f_dup_var, f_dup_var, f_dup_outer, f_dup_param_outer, f_dup_params, f_dup_local_param, f_dup_func,
            f_kind_clash, f_kind_clash, f_dup_alias, f_ns_member, f_ns_member, f_fn_as_var, f_var_as_fn],
    "C15": [f_loop_kw, f_loop_kw, f_loop_kw, f_else_no_if, f_else_no_if, f_dead_code, f_dead_code, f_no_return, f_no_return, f_void_return,
            f_void_return, f_bare_return, f_nested_export, f_dangling, f_dangling, f_syntax, f_syntax, f_syntax, f_syntax, f_redundant,
            f_unbalanced],
}
ALL = [(k, f) for k in GROUPS for f in GROUPS[k]]


def make(r, group=None, layout=None, prof=None, kind=None):
    """-> Fault or None"""
    for _ in range(20):
        if kind is not None:
            gname, fn = kind
        elif group:
            gname, fn = group, r.choice(GROUPS[group])
        else:
            gname, fn = r.choice(ALL)
        p = dict(stmts=(1, 7), block=(1, 3), expr=2)
        p.update(prof or {})
        g = gen.Gen(r, **p)
        got = {}

        def inject(gg):
            try:
                bad, good, pos, msg = fn(gg)
            except Skip:
                return None
            s = Slot(bad)
            got.update(slot=s, bad=bad, good=good, pos=pos, msg=msg, where="%s%s@%d" % (
                "function " if gg.func else "", "loop" if gg.loop else "", len(gg.scopes) - 1))
            return [s]
        g.inject, g.inject_at = inject, r.choice([0, 0, 1, 2, 3, 5, 8, 13])
        prog = g.program()
        if not got:
            continue
        prog.externs = sorted(g.used.values(), key=lambda f: f.name)
        f = Fault()
        f.group, f.kind, f.msg, f.where = gname, fn.__name__[2:], got["msg"], got["where"]
        seed = r.getrandbits(64)
        mk = (lambda: layout(random.Random(seed))) if layout else (lambda: None)
        got["slot"].stmts = got["good"]
        f.good = lang.show(prog, mk())
        if got["slot"].pos is None:
            continue                   # the generator dropped the block the slot was in
        got["slot"].stmts = got["bad"]
        f.text = lang.show(prog, mk())
        f.pos = got["pos"]() if got["pos"] else None
        f.slot_line = got["slot"].pos[0]
        q = re.search(r':= "abc\s*\n', f.text)
        if q and '"' in f.text[q.end():]:
            return None                # strings may span lines: another quote further down would close it
        return f
    return None
