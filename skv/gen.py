"""Random well-defined Skull programs (and single-fault ill-formed ones)."""
import math, random
from .lang import *

WORDS = ("x y z a b c i j k n m q u v w val acc tmp cnt total left right node item idx len sum "
         "alpha beta gamma delta foo bar baz name_with_underscores camelCase UPPER Mixed9 a1 a2 a_1 "
         "x_ z__z main init exit printf malloc free abort strcmp pow shim entry start end "
         "iff elsee whiles returns muts isntt ands orr nots mods trueish falsey Inty Floats").split()


def make_natives():
    """The external functions every generated program may declare (native/rt.c)."""
    out = {}

    def add(name, types, ret, native=None, pure=False):
        f = Func(name, [Var("p%d" % i, t) for i, t in enumerate(types)], ret, external=True)
        f.native, f.pure, f.done = native, pure, True
        out[name] = f
    for c, t in (("i", INT), ("f", FLOAT), ("b", BOOL), ("r", RUNE), ("s", STR)):
        add("sk_p" + c, [t], VOID)
        add("sk_g" + c, [t], t, lambda a: a[0])
        add("sk_q" + c, [t], t, lambda a: a[0], pure=True)     # opaque but silent identity
        add("sk_d" + c, ["&" + t], VOID)
    return out


SUF = {INT: "i", FLOAT: "f", BOOL: "b", RUNE: "r", STR: "s"}

DEFAULT = dict(
    stmts=(4, 12), block=(1, 4), depth=3, expr=3,
    types=[INT, FLOAT, BOOL, RUNE, STR],
    funcs=True, nested_funcs=True, refs=True, namespaces=True, aliases=True, globals_in_funcs=True,
    calls=True, loops=True, unreachable=True, comments=True, rec=True,
    w=dict(d=6, a=5, p=6, f=2, i=4, w=3, n=1, al=1, c=1, no=1, u=1, r=3),
    lit=0.3, c_safe=False, big=False, trace=0.25,
)


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.nat = make_natives()
        self.used = {}
        self.scopes = [{}]
        self.func = None
        self.loop = 0
        self.in_while = 0              # loops around this statement, in this function
        self.nofuncs = 0
        self.slot = 0
        self.inject = None             # callable(gen) -> list of stmts or None
        self.inject_at = -1
        self.injected = None
        self.names = []
        self.reserved = set()
        self.sid = 0

    # ------------------------------------------------------------ names, scopes
    def visible(self, name):
        return any(name in s for s in self.scopes)

    def fresh(self, upper=False):
        n = self.fresh_(upper)
        if self.in_slot:
            self.reserved.add(n)
        return n

    in_slot = False

    def fresh_(self, upper=False):
        r = self.r
        for _ in range(100):
            x = r.random()
            if x < 0.55:
                n = r.choice(WORDS)
            elif x < 0.7 and self.names:
                n = r.choice(self.names)           # reuse a name from a closed scope
            elif x < 0.95:
                n = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ") for _ in range(r.randint(1, 3))) \
                    + "".join(r.choice("abcxyz_0123456789") for _ in range(r.randint(0, 5)))
            else:
                n = r.choice("abQ") + "".join(r.choice("ab01_") for _ in range(r.randint(20, 90)))
            if upper:
                n = "T" + n
            if n in KEYWORDS or n in self.nat or n in self.reserved or self.visible(n) or n.startswith("sk_"):
                continue
            if self.p["c_safe"]:
                n = n + "_v"
                if self.visible(n):
                    continue
            self.names.append(n)
            return n
        self.sid += 1
        return "n%d_%d" % (self.sid, r.randrange(10**6))

    def push(self):
        self.scopes.append({})

    def pop(self):
        return self.scopes.pop()

    def declare(self, obj):
        self.scopes[-1][obj.name] = obj

    def objects(self):
        """(path, object) of everything visible, namespace members included."""
        def walk(d, pre):
            for n, o in d.items():
                if isinstance(o, NS):
                    if o.members:
                        yield from walk(o.members, pre + n + ".")
                else:
                    yield pre + n, o
        for s in self.scopes:
            yield from walk(s, "")

    def vars(self, t=None, pred=None):
        out = []
        for path, o in self.objects():
            if isinstance(o, Var) and (t is None or o.type == t) and \
                    (o.owner is None or o.owner is self.func) and \
                    (o.owner is not None or self.func is None or self.p["globals_in_funcs"]) and \
                    (pred is None or pred(o)):
                out.append((path, o))
        return out

    def callables(self, pred):
        return [(p, o) for p, o in self.objects() if isinstance(o, Func) and o.done and pred(o)]

    def native(self, name):
        f = self.nat[name]
        self.used[name] = f
        return f

    # ------------------------------------------------------------ literals
    def int_lit(self, v=None):
        r = self.r
        if v is None:
            x = r.random()
            if x < 0.6:
                v = r.randint(-9, 20)
            elif x < 0.8:
                v = r.randint(-1000, 100000)
            elif x < 0.9:
                v = r.choice([IMAX, IMIN, IMAX - 1, IMIN + 1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32,
                              (1 << 32) - 1, 1 << 53, 255, 256, 127, 128, 65535, 65536])
            else:
                v = r.getrandbits(r.randint(1, 63)) * r.choice([1, 1, -1])
        if self.p["c_safe"] and not -(1 << 31) < v < (1 << 31):
            v = v % 1000
        x = r.random()
        if v < 0 or x < 0.7 or self.p["c_safe"]:
            t = str(v)
        elif x < 0.8:
            t = "0x" + r.choice(["%x", "%X"]) % v
        elif x < 0.9:
            t = "0o%o" % v
        else:
            t = "0b" + bin(v)[2:]
        if r.random() < 0.15 and not self.p["c_safe"]:
            pre = 2 if t[:2] in ("0x", "0o", "0b") else (1 if t[0] == "-" else 0)
            body = t[pre:]
            s = body[0]
            for ch in body[1:]:
                if r.random() < 0.3:
                    s += "_"
                s += ch
            t = t[:pre] + s
        return Lit(INT, v, t)

    def float_lit(self):
        r = self.r
        x = r.random()
        if x < 0.05:
            v, t = r.choice([(math.nan, "NaN"), (math.inf, "Infinity"), (-math.inf, "-Infinity")])
            return Lit(FLOAT, v, t)
        if x < 0.6:
            t = "%d.%s" % (r.randint(-20, 50), r.choice(["0", "5", "25", "75", "125", "0", "50"]))
        elif x < 0.9:
            t = "%d.%d" % (r.randint(-1000, 100000), r.randint(0, 10**r.randint(1, 9)))
        else:
            t = "%d.%d" % (r.getrandbits(r.randint(1, 200)), r.randint(0, 10**18))
        return Lit(FLOAT, float(t), t)

    def rune_lit(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            c = r.choice("abcxyzABC0189 !#$%&()*+,-./:;<=>?@[]^_`{|}~\"")
            return Lit(RUNE, ord(c), "'%s'" % c)
        if x < 0.8:
            t, v = r.choice([("\\n", 10), ("\\t", 9), ("\\r", 13), ("\\0", 0), ("\\e", 27), ("\\\\", 92), ("\\'", 39)])
            return Lit(RUNE, v, "'%s'" % t)
        c = r.choice([0xe9, 0x3b1, 0x4e2d, 0x1f600, 0x10ffff, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0xa0, 0xff])
        if c < 0xa0 or c == 0xffff or c == 0x10ffff or r.random() < 0.5:
            return Lit(RUNE, c, "'\\x%0*X'" % (r.randint(1, 8), c))
        return Lit(RUNE, c, "'%s'" % chr(c))

    def str_lit(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 3, 5, 8, 20]) if n is None else n
        v, t = "", ""
        for _ in range(n):
            x = r.random()
            if x < 0.75:
                c = r.choice("abcxyzABC0189 !#$%&()*+,-./:;<=>?@[]^_`{|}~'")
                v += c
                t += c
            elif x < 0.87:
                e, c = r.choice([("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\e", "\x1b"), ("\\\\", "\\"),
                                 ("\\\"", "\"")])
                v += c
                t += e
            else:
                c = r.choice([0xe9, 0x3b1, 0x4e2d, 0x1f600, 0xa0, 0x7ff, 0x800])
                v += chr(c)
                if r.random() < 0.5:
                    t += chr(c)
                else:
                    t += "\\x%X" % c
                    v += "~"                      # a following hex digit would be swallowed
                    t += "~"
        return Lit(STR, v.encode(), '"%s"' % t)

    def lit(self, t):
        if t == INT:
            return self.int_lit()
        if t == FLOAT:
            return self.float_lit()
        if t == BOOL:
            v = self.r.random() < 0.5
            return Lit(BOOL, v, "true" if v else "false")
        if t == RUNE:
            return self.rune_lit()
        return self.str_lit()

    def safe_lit(self, t):
        if t == INT:
            return self.int_lit(self.r.randint(1, 9))
        if t == FLOAT:
            k = self.r.randint(1, 9)
            return Lit(FLOAT, float(k), "%d.0" % k)
        return self.lit(t)

    # ------------------------------------------------------------ expressions
    def leaf(self, t, pure):
        r = self.r
        cand = []
        vs = self.vars(t)
        if vs:
            cand += [lambda: self._use(vs)] * 4
        ps = self.vars("&" + t)
        if ps:
            def d():
                p, o = r.choice(ps)
                return Deref(Use(o, p))
            cand += [d] * 2
        if self.p["calls"]:
            if not pure:
                cand.append(lambda: Call(self.native("sk_g" + SUF[t]), [self.lit(t)]))
            cand.append(lambda: Call(self.native("sk_q" + SUF[t]), [self.lit(t)]))
        if not cand or r.random() < self.p["lit"]:
            return self.lit(t)
        return r.choice(cand)()

    def _use(self, vs):
        p, o = self.r.choice(vs)
        return Use(o, p)

    def ref_expr(self, t, calls=True):
        """expression of type t = '&T'"""
        r = self.r
        vs = self.vars(t)
        tgt = self.vars(t[1:])
        fs = self.callables(lambda f: f.ret == t and not f.fuel) if calls and self.p["calls"] else []
        opts = []
        if vs:
            opts.append(lambda: self._use(vs))
        if tgt:
            opts += [lambda: Addr(self._use(tgt))] * 2
        if fs:
            opts.append(lambda: self.call(fs, 1))
        return r.choice(opts)() if opts else None

    def call(self, fs, d):
        p, f = self.r.choice(fs)
        args = []
        for i, q in enumerate(f.params):
            if f.fuel and i == 0:
                args.append(self.int_lit(self.r.randint(0, 5)))
            elif q.type[0] == "&":
                a = self.ref_expr(q.type, calls=False)
                if a is None:
                    return None
                args.append(a)
            else:
                args.append(self.expr(q.type, d - 1, False))
        return Call(f, args, p)

    def expr(self, t, d=None, pure=False):
        r = self.r
        if t[0] == "&":
            return self.ref_expr(t)
        if d is None:
            d = r.randint(0, self.p["expr"])
        if d <= 0:
            return self.leaf(t, pure)
        x = r.random()
        if self.p["calls"] and not pure and x < 0.22:
            fs = self.callables(lambda f: f.ret == t)
            if fs and r.random() < 0.6:
                c = self.call(fs, d)
                if c is not None:
                    return c
            return Call(self.native("sk_g" + SUF[t]), [self.expr(t, d - 1, pure)])
        if x < 0.32:
            return self.leaf(t, pure)
        if t == INT:
            if r.random() < 0.12:
                return self.neg(self.expr(INT, d - 1, pure))
            op = r.choice(["+", "-", "*", "+", "-", "*", "/", "mod", "^", "<<", ">>"])
            return self.bin(op, INT, INT, d, pure)
        if t == FLOAT:
            if r.random() < 0.12:
                return self.neg(self.expr(FLOAT, d - 1, pure))
            op = r.choice(["+", "-", "*", "/", "+", "-", "*", "/", "mod", "^"])
            return self.bin(op, FLOAT, FLOAT, d, pure)
        if t == BOOL:
            x = r.random()
            if x < 0.15:
                return Un("not", self.expr(BOOL, d - 1, pure), BOOL)
            if x < 0.4:
                op = r.choice(["and", "or", "xor"])
                return Bin(op, self.expr(BOOL, d - 1, pure), self.expr(BOOL, d - 1, True), BOOL)
            if x < 0.7:
                return self.bin(r.choice(["<", ">", "<=", ">="]), r.choice([INT, INT, FLOAT]), BOOL, d, pure)
            op = r.choice(["is", "isnt"])
            ts = list(self.p["types"])
            if self.p["refs"] and r.random() < 0.15:
                for rt in r.sample(ts, len(ts)):
                    a, b = self.ref_expr("&" + rt, False), self.ref_expr("&" + rt, False)
                    if a is not None and b is not None:
                        return Bin(op, a, b, BOOL)
            return self.bin(op, r.choice(ts), BOOL, d, pure)
        return self.leaf(t, pure)

    def neg(self, e):
        # "- 5" with a literal is fine, but keep "-" applied to a literal readable
        return Un("-", e, e.type)

    def bin(self, op, t, rt, d, pure):
        r = self.r
        if self.p["c_safe"]:
            l = self.expr(t, d - 1, pure)
            rr = self.expr(t, d - 1, True)
        else:
            l, rr = self.expr(t, d - 1, pure), self.expr(t, r.randint(0, d - 1), pure)
        if op == "^" and r.random() < 0.9:
            l = self.leaf(t, pure) if t == INT else l
            rr = self.int_lit(r.randint(0, 5)) if t == INT else Lit(FLOAT, 0.0 + r.randint(0, 4), "")
            if t == FLOAT:
                rr.text = "%d.0" % int(rr.value)
        if op in ("<<", ">>") and r.random() < 0.9:
            rr = self.int_lit(r.randint(0, 63 if not self.p["c_safe"] else 20))
        if op in ("/", "mod") and isinstance(rr, Lit) and t == INT and rr.value == 0:
            rr = self.int_lit(r.randint(1, 9))
        return Bin(op, l, rr, rt)

    # ------------------------------------------------------------ statements
    def tname(self, t, e=None):
        """name for type t: possibly an alias"""
        pre = ""
        while t[0] == "&":
            pre, t = pre + "&", t[1:]
        al = [o.name for s in self.scopes for o in s.values() if isinstance(o, Alias) and o.type == t]
        if al and self.r.random() < 0.5:
            return pre + self.r.choice(al)
        return pre + t

    def block(self, depth, n=None, end=None):
        """statements of one block (scope already pushed)"""
        r = self.r
        lo, hi = self.p["block"]
        n = r.randint(lo, hi) if n is None else n
        out = []
        for _ in range(n):
            out += self.stmt(depth)
        if end is not None:
            e = end()
            if e is not None:
                out.append(e)
        if not out:
            out.append(Simple("noop"))
        return out

    def maybe_exit(self, always=False):
        """an optional break/continue/return that ends a block"""
        r = self.r
        opts = []
        if self.loop:
            opts += ["break", "continue"] * 2
        opts.append("return")
        if self.p["unreachable"]:
            opts.append("unreachable")
        if not always and r.random() < 0.7:
            return None
        k = r.choice(opts)
        if k == "return":
            return self.ret()
        return Simple(k)

    def ret(self):
        t = INT if self.func is None else self.func.ret
        if self.func is None and self.p["c_safe"]:
            return Return(self.expr(INT))
        if t == VOID:
            return Return()
        e = self.ret_expr(t)
        return Return(e) if e is not None else None

    def ret_expr(self, t):
        if t[0] == "&":
            vs = [(p, v) for p, v in self.vars(t) if v.owner is not None and v in self.func.params]
            gl = [(p, v) for p, v in self.vars(t[1:]) if v.owner is None]
            if vs and (not gl or self.r.random() < 0.6):
                return self._use(vs)
            return Addr(self._use(gl)) if gl else None
        return self.expr(t)

    def stmt(self, depth):
        r = self.r
        if self.inject is not None and self.slot == self.inject_at and self.injected is None:
            self.in_slot = True
            got = self.inject(self)
            self.in_slot = False
            if got:
                self.injected = got
                return list(got)
            self.inject_at += 1
        self.slot += 1
        w = self.p["w"]
        kinds = [k for k in w if w[k]]
        for _ in range(10):
            k = r.choices(kinds, [w[k] for k in kinds])[0]
            s = getattr(self, "s_" + k)(depth)
            if s:
                return s
        return [Simple("noop")]

    def new_var(self, t, mut=False):
        return Var(self.fresh(), t, mut, self.func, len(self.scopes))

    def s_d(self, depth):
        r = self.r
        t = r.choice(self.p["types"])
        e = self.expr(t)
        v = self.new_var(t, r.random() < 0.5)
        if self.func is None and len(self.scopes) == 1 and not v.mut and r.random() < 0.1 and not self.p["c_safe"]:
            v.export = True
        tn = self.tname(t) if r.random() < 0.3 else None
        self.declare(v)
        return [Def(v, e, tn)]

    def s_r(self, depth):
        """references"""
        if not self.p["refs"]:
            return None
        r = self.r
        x = r.random()
        if x < 0.6:
            src = self.vars(None, lambda o: o.type.count("&") < 2)
            if not src:
                return None
            p, o = r.choice(src)
            e = Addr(Use(o, p))
            v = self.new_var("&" + o.type, r.random() < 0.5)
            tn = self.tname(v.type) if r.random() < 0.3 else None
            self.declare(v)
            return [Def(v, e, tn)]
        if x < 0.75:
            ps = self.vars(None, lambda o: o.type.startswith("&&"))
            if not ps:
                return None
            p, o = r.choice(ps)
            v = self.new_var(o.type[1:], False)
            self.declare(v)
            return [Def(v, Deref(Use(o, p)))]
        ps = self.vars(None, lambda o: o.type[0] == "&" and o.mut and not o.protected)
        if not ps:
            return None
        p, o = r.choice(ps)
        tg = [(q, v) for q, v in self.vars(o.type[1:]) if v.depth <= o.depth and (v.owner is None or v.owner is o.owner)]
        if not tg:
            return None
        q, v = r.choice(tg)
        return [Assign(o, Addr(Use(v, q)), p)]

    def s_a(self, depth):
        vs = self.vars(None, lambda o: o.mut and not o.protected and o.type[0] != "&")
        if not vs:
            return None
        p, o = self.r.choice(vs)
        e = self.expr(o.type)
        if isinstance(e, Use) and e.var is o:
            return None
        return [Assign(o, e, p)]

    def s_p(self, depth):
        r = self.r
        x = r.random()
        if x < 0.3 and self.p["calls"]:
            fs = self.callables(lambda f: not f.external)
            if fs:
                c = self.call(fs, r.randint(0, self.p["expr"]))
                if c is not None:
                    return [Do(c)]
        if x < 0.4 and self.p["refs"]:
            t = r.choice(self.p["types"])
            e = self.ref_expr("&" + t)
            if e is not None:
                return [Do(Call(self.native("sk_d" + SUF[t]), [e]))]
        t = r.choice(self.p["types"])
        return [Do(Call(self.native("sk_p" + SUF[t]), [self.expr(t)]))]

    def s_i(self, depth):
        if depth >= self.p["depth"]:
            return None
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 5]) if r.random() < 0.97 else r.randint(6, 14)
        arms = []
        for _ in range(n):
            c = self.expr(BOOL)
            self.push()
            b = self.block(depth + 1, end=self.maybe_exit, n=None if n < 5 else 1)
            self.pop()
            arms.append((c, b))
        els = None
        if r.random() < 0.5:
            self.push()
            els = self.block(depth + 1, end=self.maybe_exit)
            self.pop()
        return [If(arms, els)]

    def s_w(self, depth):
        if depth >= self.p["depth"] or not self.p["loops"]:
            return None
        r = self.r
        out = []
        i = self.new_var(INT, True)
        i.protected = True
        lo = r.randint(-3, 3)
        hi = lo + r.choice([0, 1, 2, 3, 4, 7])
        out.append(Def(i, self.int_lit(lo)))
        self.declare(i)
        inc = Assign(i, Bin("+", Use(i), self.int_lit(1), INT))
        form = r.randint(0, 3)
        u = Use(i)
        lim = self.int_lit(hi)
        if form == 0:
            cond = Bin("<", u, lim, BOOL)
        elif form == 1:
            cond = Bin("<", Call(self.native("sk_gi"), [u]), lim, BOOL)
        elif form == 2:
            cond = Bin(r.choice(["isnt", "<"]), u, lim, BOOL)
        else:
            cond = Lit(BOOL, True, "true")
        self.loop, old = self.loop + 1, self.loop
        self.in_while += 1
        self.push()
        body = []
        if form == 3:
            body += [inc, If([(Bin(">", Use(i), lim, BOOL), [Simple("break")])], None)]
            body += self.block(depth + 1, end=self.maybe_exit)
        elif r.random() < 0.6:
            body += [inc] + self.block(depth + 1, end=self.maybe_exit)
        else:
            # increment last: nothing in the body may `continue` this loop
            self.loop = 0
            body += self.block(depth + 1) + [inc]
            if r.random() < 0.3:
                body.append(Simple("continue"))
        self.pop()
        self.loop = old
        self.in_while -= 1
        out.append(While(cond, body))
        return out

    def s_f(self, depth):
        r = self.r
        if not self.p["funcs"] or len(self.scopes) > 4:
            return None
        nested = self.func is not None or len(self.scopes) > 1
        if nested and not self.p["nested_funcs"]:
            return None
        return self.mkfunc(depth)

    def mkfunc(self, depth, nparams=None, ret=None, body=None, fuel=None):
        r = self.r
        ts = list(self.p["types"])
        if nparams is None:
            nparams = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.96 else r.randint(7, 20)
        fuel = self.p["rec"] and r.random() < 0.2 if fuel is None else fuel
        if ret is None:
            x = r.random()
            ret = VOID if x < 0.25 else r.choice(ts)
            if x > 0.93 and self.p["refs"]:
                ret = "&" + r.choice(ts)
        f = Func(self.fresh(), [], ret)
        f.fuel = fuel
        top = self.func is None and len(self.scopes) == 1
        f.export = top and r.random() < 0.2 and not self.p["c_safe"]
        old = (self.func, self.loop, self.in_while)
        self.declare(f)
        self.push()
        self.func, self.loop, self.in_while = f, 0, 0
        f.owner = old[0]
        tn = {}
        for k in range(nparams + (1 if fuel else 0)):
            t = INT if fuel and k == 0 else r.choice(ts)
            if not (fuel and k == 0) and self.p["refs"] and r.random() < 0.2:
                t = "&" + t
            v = Var(self.fresh(), t, False, f, len(self.scopes))
            f.params.append(v)
            self.declare(v)
            if r.random() < 0.3:
                tn[k] = self.tname(t)
        rname = self.tname(ret) if ret != VOID and r.random() < 0.3 else None
        f.body = []
        if fuel:
            self.push()
            base = self.ret()
            self.pop()
            if base is None:
                base = Return(self.lit(ret)) if ret != VOID else Return()
                if ret[0] == "&":
                    self.pop()
                    self.func, self.loop, self.in_while = old
                    del self.scopes[-1][f.name]
                    return None
            f.body.append(If([(Bin("<", Use(f.params[0]), self.int_lit(1), BOOL), [base])], None))
        f.body += self.block(depth + 1)
        ok = True
        if fuel and r.random() < 0.9:
            args, good = [Bin("-", Use(f.params[0]), self.int_lit(1), INT)], True
            for q in f.params[1:]:
                if q.type[0] == "&":
                    a = self.ref_expr(q.type, calls=False)
                    good = good and a is not None
                else:
                    a = self.expr(q.type, 1, False)
                args.append(a)
            if good:
                c = Call(f, args)
                if ret == VOID or r.random() < 0.3 or ret[0] == "&":
                    f.body.append(Do(c))
                elif ret in (INT, FLOAT) and r.random() < 0.7:
                    f.body.append(Return(Bin(r.choice("+-*"), c, self.expr(ret, 1, False), ret)))
                    ok = None
                else:
                    f.body.append(Return(c))
                    ok = None
        if ok:
            if ret == VOID:
                if r.random() < 0.2:
                    f.body.append(Return())
            else:
                e = self.ret_expr(ret)
                if e is None:
                    ok = False
                else:
                    f.body.append(Return(e))
            if not f.body:
                f.body.append(Simple("noop"))
        self.pop()
        self.func, self.loop, self.in_while = old
        if ok is False:
            del self.scopes[-1][f.name]
            return None
        f.done = True
        return [FnDef(f, tn, rname)]

    def s_n(self, depth):
        if not self.p["namespaces"] or self.func is not None or len(self.scopes) > 3:
            return None
        if len(self.scopes) > 1 and not all(isinstance(x, NS) for x in self.nsstack() if x) and self.r.random() < 0.5:
            return None
        ns = NS(self.fresh())
        self.declare(ns)
        self.push()
        body = []
        for _ in range(self.r.randint(1, 4)):
            k = self.r.choice(["d", "d", "f", "n", "p", "a"])
            s = getattr(self, "s_" + k)(depth)
            if s:
                body += s
        if not body:
            body = [Simple("noop")]
        ns.members = self.pop()
        return [Namespace(ns, body)]

    def nsstack(self):
        return [None]

    def s_al(self, depth):
        if not self.p["aliases"]:
            return None
        a = Alias(self.fresh(upper=True), self.r.choice(self.p["types"]))
        self.declare(a)
        return [AliasDef(a)]

    def s_c(self, depth):
        return [Comment(self.r.choice(["# note", "# x := 1", "#{ block #}", "#{ two\nlines #}", "# }", "# \"", "# é"]))] \
            if self.p["comments"] else None

    def s_no(self, depth):
        return [Simple("noop")]

    def s_u(self, depth):
        return None

    # ------------------------------------------------------------ programs
    def program(self):
        r = self.r
        lo, hi = self.p["stmts"]
        body = []
        for _ in range(r.randint(lo, hi)):
            body += self.stmt(0)
        if self.inject is not None and self.injected is None:
            self.in_slot = True
            got = self.inject(self)
            self.in_slot = False
            if got:
                self.injected = got
                body += list(got)
        if r.random() < 0.5 and self.injected is None:
            body.append(Return(self.expr(INT)))
        p = Program(body, [])
        p.externs = sorted(self.used.values(), key=lambda f: f.name)
        return p


class GiveUp(Exception):
    pass


def settle(p, gen, tries=60, fuel=40000, interp=Interp):
    """Interpret p, repairing undefined operations; returns (events, ret, interp)."""
    for _ in range(tries):
        it = interp(p, fuel)
        try:
            ev, ret = it.run()
            return ev, ret, it
        except Undef as u:
            n = u.node
            if isinstance(n, Simple):
                n.kw = "noop"
            else:
                n.repl = gen.safe_lit(n.type)
        except Fuel:
            raise GiveUp()
        except RecursionError:
            raise GiveUp()
    raise GiveUp()


def make(rng, **prof):
    """One well-defined program: (program, events, return value, interp)."""
    while True:
        g = Gen(rng, **prof)
        p = g.program()
        try:
            ev, ret, it = settle(p, g)
        except GiveUp:
            continue
        return p, ev, ret, it
