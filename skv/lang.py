"""Reference model of the Skull language: AST, printer, interpreter.

Written from the language documentation (docs/*.md) and the observable
behaviour it describes; it shares no code with the compiler.

Programs made from this AST are *well defined*: the interpreter raises Undef
for anything the documentation leaves open (overflow, shifting out of range,
division by zero, ...), and the generator replaces the offending node.
"""
import math, struct

INT, FLOAT, BOOL, RUNE, STR, VOID = "Int", "Float", "Bool", "Rune", "Str", "Void"
BASE = (INT, FLOAT, BOOL, RUNE, STR)
IMIN, IMAX = -(1 << 63), (1 << 63) - 1
KEYWORDS = set("mut return unreachable if elif else while external export noop break continue "
               "import namespace mod not is isnt and or xor Infinity NaN true false "
               "Int Float Bool Rune Str Void".split())

PREC = {"^": 2, "*": 4, "/": 4, "mod": 4, "+": 5, "-": 5, "and": 6, "or": 6, "xor": 6,
        "<<": 6, ">>": 6, "is": 7, "isnt": 7, "<": 7, ">": 7, "<=": 7, ">=": 7}


class Undef(Exception):
    def __init__(self, node, why):
        Exception.__init__(self, why)
        self.node = node


class Fuel(Exception):
    pass


class Node:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


# ---------------------------------------------------------------- expressions
class Lit(Node):
    __slots__ = ("type", "value", "text")

    def __init__(self, type, value, text):
        self.type, self.value, self.text, self.pos = type, value, text, None


class Use(Node):                       # read a variable
    __slots__ = ("var", "path")

    def __init__(self, var, path=None):
        self.var, self.path, self.pos = var, path or var.name, None

    @property
    def type(self):
        return self.var.type


class Bin(Node):
    __slots__ = ("op", "l", "r", "type", "repl")

    def __init__(self, op, l, r, type):
        self.op, self.l, self.r, self.type, self.repl, self.pos = op, l, r, type, None, None


class Un(Node):                        # - not
    __slots__ = ("op", "e", "type", "repl")

    def __init__(self, op, e, type):
        self.op, self.e, self.type, self.repl, self.pos = op, e, type, None, None


class Addr(Node):
    __slots__ = ("use",)

    def __init__(self, use):
        self.use, self.pos = use, None

    @property
    def type(self):
        return "&" + self.use.var.type


class Deref(Node):
    __slots__ = ("use",)

    def __init__(self, use):
        self.use, self.pos = use, None

    @property
    def type(self):
        return self.use.var.type[1:]


class Call(Node):
    __slots__ = ("fn", "args", "path", "argpos")

    def __init__(self, fn, args, path=None):
        self.fn, self.args, self.path, self.pos, self.argpos = fn, args, path or fn.name, None, None

    @property
    def type(self):
        return self.fn.ret


class RawExpr(Node):                   # verbatim text, for ill-formed programs
    __slots__ = ("type", "text")

    def __init__(self, type, text):
        self.type, self.text, self.pos = type, text, None


# ---------------------------------------------------------------- declarations
class Var:
    __slots__ = ("name", "type", "mut", "owner", "depth", "protected", "export", "kind", "shown")

    def __init__(self, name, type, mut=False, owner=None, depth=0, export=False):
        self.name, self.type, self.mut, self.owner, self.depth = name, type, mut, owner, depth
        self.protected, self.export, self.kind, self.shown = False, export, "variable", None


class Func:
    __slots__ = ("name", "params", "ret", "body", "external", "export", "fuel", "done", "kind",
                 "native", "pure", "owner")

    def __init__(self, name, params, ret, external=False, export=False):
        self.name, self.params, self.ret, self.external, self.export = name, params, ret, external, export
        self.body, self.fuel, self.done, self.kind = None, False, False, "function"
        self.native, self.pure, self.owner = None, False, None


class Alias:
    kind = "alias"

    def __init__(self, name, type):
        self.name, self.type = name, type


class NS:
    kind = "namespace"

    def __init__(self, name):
        self.name, self.members = name, {}


# ---------------------------------------------------------------- statements
class Def(Node):
    __slots__ = ("var", "e", "tname", "tpos")

    def __init__(self, var, e, tname=None):
        self.var, self.e, self.tname, self.pos, self.tpos = var, e, tname, None, None


class Assign(Node):
    __slots__ = ("var", "e", "path")

    def __init__(self, var, e, path=None):
        self.var, self.e, self.path, self.pos = var, e, path or var.name, None


class Do(Node):                        # call statement
    __slots__ = ("e",)

    def __init__(self, e):
        self.e, self.pos = e, None


class If(Node):
    __slots__ = ("arms", "els")

    def __init__(self, arms, els):
        self.arms, self.els, self.pos = arms, els, None


class While(Node):
    __slots__ = ("cond", "body")

    def __init__(self, cond, body):
        self.cond, self.body, self.pos = cond, body, None


class Return(Node):
    __slots__ = ("e",)

    def __init__(self, e=None):
        self.e, self.pos = e, None


class Simple(Node):                    # break continue noop unreachable
    __slots__ = ("kw",)

    def __init__(self, kw):
        self.kw, self.pos = kw, None


class Comment(Node):
    __slots__ = ("text",)

    def __init__(self, text):
        self.text, self.pos = text, None


class FnDef(Node):
    __slots__ = ("fn", "tnames", "rname", "npos", "tpos", "rpos")

    def __init__(self, fn, tnames=None, rname=None):
        self.fn, self.tnames, self.rname, self.pos = fn, tnames, rname, None
        self.npos = self.tpos = self.rpos = None


class AliasDef(Node):
    __slots__ = ("alias",)

    def __init__(self, alias):
        self.alias, self.pos = alias, None


class Namespace(Node):
    __slots__ = ("ns", "body")

    def __init__(self, ns, body):
        self.ns, self.body, self.pos = ns, body, None


class Slot(Node):                      # a replaceable group of statements
    __slots__ = ("stmts",)

    def __init__(self, stmts):
        self.stmts, self.pos = stmts, None


class Raw(Node):                       # verbatim line(s)
    __slots__ = ("text",)

    def __init__(self, text):
        self.text, self.pos = text, None


class Program:
    __slots__ = ("body", "externs", "bad", "expect", "stats", "extdefs")

    def __init__(self, body, externs):
        self.body, self.externs, self.bad, self.expect, self.stats, self.extdefs = body, externs, None, None, {}, []


# ---------------------------------------------------------------- printer
class Layout:
    """Canonical layout; subclasses vary whitespace, parens, comments."""
    indent = "\t"

    def sp(self):                      # between two tokens that need separating
        return " "

    def osp(self, where):              # optional space ('(' after, ')' before, ',' before/after, call)
        return " " if where == ",after" else ""

    def parens(self):                  # number of redundant parens around a sub-expression
        return 0

    def ind(self, depth):
        return self.indent * depth

    def lead(self):                    # block comments before the first token of a line
        return ""

    def eol(self):                     # before the newline: trailing space or comment
        return ""

    def between(self, depth):          # extra lines between statements
        return []

    def nl(self):
        return "\n"

    def name(self, path):
        return path

    def inline_block(self):
        return False

    def else_join(self):               # "} else {" on one line
        return False

    def final_newline(self):
        return True


class RandomLayout(Layout):
    def __init__(self, rng, comments=True, ren=None, crlf=False):
        self.r, self.comments, self.ren = rng, comments, ren
        self.indent = rng.choice(["\t", "  ", "    ", "", " \t"])
        self.heavy = rng.random() < 0.5
        self.crlf = crlf

    def sp(self):
        return " " if not self.heavy or self.r.random() < 0.6 else self.r.choice(["  ", "\t", "   ", " \t "])

    def osp(self, where):
        if not self.heavy:
            return Layout.osp(self, where)
        return self.r.choice(["", "", " ", "  ", "\t"])

    def parens(self):
        return 0 if self.r.random() < 0.85 else self.r.choice([1, 1, 2])

    def ind(self, depth):
        if self.r.random() < 0.1:
            return " " * self.r.randint(0, 7)
        return self.indent * depth

    def _ctext(self):
        return self.r.choice(["x := 1", "}", "{", "\"", "'", "#", "# #", "return 7", "é ∀ 漢", "a", "*/ //",
                              "if true {", "pi(3)", "\\", "(", ")", ",",
                              "", "## #", "a ##", "\t", "\u00a0\U0001f480", "x" * 300])

    def lead(self):
        if not self.comments or not self.heavy or self.r.random() < 0.95:
            return ""
        return "".join(self._block() + self.r.choice(["", " ", "\t", " \t "]) for _ in range(self.r.choice([1, 1, 2])))

    def eol(self):
        x = self.r.random()
        if x < 0.75 or not self.heavy:
            return "\r" if self.crlf else ""
        if x < 0.85 or not self.comments:
            return self.r.choice([" ", "\t", "   ", "\r"])
        return self._tail()

    def _tail(self):
        if self.r.random() < 0.7:
            return self.r.choice([" # ", " # ", "# ", "\t#\t"]) + self._ctext()
        return self.r.choice([" ", "\t", ""]) + self._block().replace("\n", " ") + self.r.choice(["", "", " ", "\t"])

    def between(self, depth):
        x = self.r.random()
        if x < 0.75:
            return []
        if x < 0.9 or not self.comments:
            return [self.r.choice(["", " ", "\t"])] * self.r.randint(1, 3)
        if x < 0.95:
            return [self.ind(depth) + "# " + self._ctext() for _ in range(self.r.choice([1, 1, 2, 3]))]
        return (self.ind(depth) + self._block()).split("\n")

    def _block(self):
        """a block comment: anything but an opening or closing mark inside, any number of # before the end"""
        t = [self._ctext().replace("{", "+") if self.r.random() < 0.5 else self._ctext() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        t = self.r.choice(["\n", "\n", " ", "\n\n"]).join(t)
        while "#{" in t or "#}" in t:
            t = t.replace("#{", "# {").replace("#}", "# }")
        return "#{" + self.r.choice([" ", "\n", " ", "", "\t"]) + t.lstrip("{}") + self.r.choice([" ", "\n", "", "\n"]) + "#" * self.r.choice([0, 0, 0, 1, 2, 3]) + "#}"

    def name(self, path):
        if self.ren is None:
            return path
        amp = path[:len(path) - len(path.lstrip("&"))]        # a reference type
        return amp + ".".join(self.ren.get(p, p) for p in path[len(amp):].split("."))

    def else_join(self):
        return self.heavy and self.r.random() < 0.3

    def final_newline(self):
        return self.r.random() < 0.8


class Printer:
    def __init__(self, layout=None):
        self.lay = layout or Layout()
        self.lines, self.cur = [], ""

    # -- low level
    def w(self, s):
        self.cur += s

    def here(self):
        # strings may hold raw newlines: position is derived from the text so far
        k = self.cur.rfind("\n")
        return 1 + len(self.lines) + self.nlines + self.cur.count("\n"), len(self.cur) - k

    def at(self, node):
        node.pos = self.here()

    nlines = 0

    def endline(self, tail=None):
        self.cur += self.lay.eol() if tail is None else tail
        self.nlines += self.cur.count("\n")
        self.lines.append(self.cur)
        self.cur = ""

    def rawline(self, s):
        assert not self.cur
        self.lines.append(s)
        self.nlines += s.count("\n")

    # -- expressions
    def expr(self, e, prec=99, right=False):
        n = self.lay.parens()
        if isinstance(e, Addr):
            n = 0
        need = False
        if isinstance(e, Bin) and e.repl is None:
            p = PREC[e.op]
            need = p > prec or (right and p == prec)
        elif isinstance(e, (Un, Deref)) and getattr(e, "repl", None) is None:
            need = prec <= 2 or prec == 3
        elif isinstance(e, Addr):
            need = prec < 99
        if need and not n:
            n = 1
        if n:
            prec = 99
        for _ in range(n):
            self.w("(" + self.lay.osp("("))
        self.expr0(e)
        for _ in range(n):
            self.w(self.lay.osp(")") + ")")

    def expr0(self, e):
        lay = self.lay
        if getattr(e, "repl", None) is not None:
            return self.expr0(e.repl)
        if isinstance(e, Bin):
            self.expr(e.l, PREC[e.op], False)
            self.w(lay.sp())
            self.at(e)
            self.w(e.op + lay.sp())
            self.expr(e.r, PREC[e.op], True)
            return
        self.at(e)
        if isinstance(e, (Lit, RawExpr)):
            self.w(e.text)
        elif isinstance(e, Use):
            self.w(lay.name(e.path))
        elif isinstance(e, Un):
            self.w(e.op + lay.sp())
            self.expr(e.e, 3, True)
        elif isinstance(e, Addr):
            self.w("&" + lay.osp("&"))
            self.at(e.use)
            self.w(lay.name(e.use.path))
        elif isinstance(e, Deref):
            self.w("*" + lay.osp("*"))
            self.at(e.use)
            self.w(lay.name(e.use.path))
        elif isinstance(e, Call):
            self.w(lay.name(e.path) + lay.osp("call") + "(" + lay.osp("("))
            e.argpos = []
            for i, a in enumerate(e.args):
                if i:
                    self.w(lay.osp(",before") + "," + lay.osp(",after"))
                e.argpos.append(self.here())
                self.expr(a)
            self.w(lay.osp(")") + ")")
        else:
            raise TypeError(e)

    # -- statements
    def block(self, body, depth):
        for s in body:
            for x in self.lay.between(depth):
                self.rawline(x)
            self.stmt(s, depth)
        for x in self.lay.between(depth):
            self.rawline(x)

    def gap(self, depth):
        """blank and comment lines before an elif or else"""
        for x in self.lay.between(depth):
            self.rawline(x)

    def braces(self, body, depth):
        self.w(self.lay.sp() + "{")
        self.endline(tail=self.lay.eol())
        self.block(body, depth + 1)
        self.cur = self.lay.ind(depth) + self.lay.lead() + "}"

    def stmt(self, s, d):
        lay = self.lay
        if isinstance(s, Slot):
            self.at(s)
            for x in s.stmts:
                self.stmt(x, d)
            return
        if isinstance(s, Raw):
            base = self.lay.ind(d)
            self.cur = base
            self.at(s)
            for i, l in enumerate(s.text.split("\n")):
                if i:
                    self.cur = base
                self.w(l)
                self.endline(tail="")
            return
        self.cur = lay.ind(d) + lay.lead()
        self.at(s)
        if isinstance(s, Def):
            if s.var.mut:
                self.w("mut" + lay.sp())
            elif s.var.export:
                self.w("export" + lay.sp())
            s.var.shown = self.here()
            if s.tname:
                self.w(lay.name(s.var.name) + ":" + lay.sp())
                s.tpos = self.here()
                self.w(lay.name(s.tname) + lay.sp() + "=" + lay.sp())
            else:
                self.w(lay.name(s.var.name) + lay.sp() + ":=" + lay.sp())
            self.expr(s.e)
            self.endline()
        elif isinstance(s, Assign):
            self.w(lay.name(s.path) + lay.sp() + "=" + lay.sp())
            self.expr(s.e)
            self.endline()
        elif isinstance(s, Do):
            self.expr0(s.e)
            self.endline()
        elif isinstance(s, If):
            for i, (c, b) in enumerate(s.arms):
                if i:
                    if lay.else_join():
                        self.w(" ")
                    else:
                        self.endline()
                        self.gap(d)
                        self.cur = lay.ind(d) + lay.lead()
                self.w(("elif" if i else "if") + lay.sp())
                self.expr(c)
                self.braces(b, d)
            if s.els is not None:
                if lay.else_join():
                    self.w(" ")
                else:
                    self.endline()
                    self.gap(d)
                    self.cur = lay.ind(d) + lay.lead()
                self.w("else")
                self.braces(s.els, d)
            self.endline()
        elif isinstance(s, While):
            self.w("while" + lay.sp())
            self.expr(s.cond)
            self.braces(s.body, d)
            self.endline()
        elif isinstance(s, Return):
            self.w("return")
            if s.e is not None:
                self.w(lay.sp())
                self.expr(s.e)
            self.endline()
        elif isinstance(s, Simple):
            self.w(s.kw)
            self.endline()
        elif isinstance(s, Comment):
            self.w(s.text)
            self.endline(tail="")
        elif isinstance(s, FnDef):
            f = s.fn
            if f.external:
                self.w("external" + lay.sp())
            elif f.export:
                self.w("export" + lay.sp())
            s.npos = self.here()
            self.w(lay.name(f.name) + "(")
            s.tpos = []
            for i, p in enumerate(f.params):
                if i:
                    self.w("," + lay.sp())
                t = (s.tnames or {}).get(i, p.type)
                p.shown = self.here()
                self.w(lay.name(p.name) + ":" + lay.sp())
                s.tpos.append(self.here())
                self.w(lay.name(t))
            self.w(")")
            if f.ret != VOID:
                self.w(lay.sp())
                s.rpos = self.here()
                self.w(lay.name(s.rname or f.ret))
            if f.external:
                self.endline()
            else:
                self.braces(f.body, d)
                self.endline()
        elif isinstance(s, AliasDef):
            self.w(lay.name(s.alias.name) + lay.sp() + ":=" + lay.sp() + lay.name(s.alias.type))
            self.endline()
        elif isinstance(s, Namespace):
            self.w("namespace" + lay.sp() + lay.name(s.ns.name))
            self.braces(s.body, d)
            self.endline()
        else:
            raise TypeError(s)

    def program(self, p):
        p.extdefs = [FnDef(f) for f in p.externs]
        for f in p.extdefs:
            self.stmt(f, 0)
        self.block(p.body, 0)
        nl = self.lay.nl()
        return nl.join(self.lines) + (nl if self.lay.final_newline() else "")


def show(p, layout=None):
    return Printer(layout).program(p)


def show_expr(e):
    pr = Printer()
    pr.expr(e)
    return pr.cur


# ---------------------------------------------------------------- interpreter
class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def fbits(x):
    if x != x:
        return "nan"
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def fmt(t, v):
    if t == INT:
        return str(v)
    if t == FLOAT:
        return fbits(v)
    if t == BOOL:
        return "1" if v else "0"
    if t == RUNE:
        return "%x" % v
    if t == STR:
        return v.hex() if len(v) < 256 else "#%d:%s" % (len(v), fnv(v))
    raise ValueError(t)


def fnv(b):
    h = 0xcbf29ce484222325
    for c in b:
        h = ((h ^ c) * 0x100000001b3) & ((1 << 64) - 1)
    return "%016x" % h


def _exact_pow(a, b):
    if b != b or a != a:
        return None
    if math.isinf(a) or math.isinf(b) or b != int(b) or not 0 <= b <= 64:
        return None
    if a == 0:
        return a ** int(b)              # keeps the sign of -0.0 to an odd power
    from fractions import Fraction
    r = Fraction(a) ** int(b)
    try:
        f = float(r)
    except OverflowError:
        return None
    if Fraction(f) != r or (r != 0 and abs(f) < 1e-250):
        return None
    return f


def int_op(op, a, b, n):
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op in ("/", "mod"):
        if b == 0 or (a == IMIN and b == -1):
            raise Undef(n, "division")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op == "/" else a - q * b
    elif op == "^":
        if b < 0 or b > 70000 or (b > 63 and abs(a) > 1):
            raise Undef(n, "exponent")
        r = a ** b
    elif op in ("<<", ">>"):
        if not 0 <= b <= 63:
            raise Undef(n, "shift")
        u = a & ((1 << 64) - 1)
        u = (u << b) & ((1 << 64) - 1) if op == "<<" else u >> b
        return u - (1 << 64) if u >> 63 else u
    else:
        return cmp_op(op, a, b)
    if not IMIN <= r <= IMAX:
        raise Undef(n, "overflow")
    return r


def cmp_op(op, a, b):
    if op == "is":
        return a == b
    if op == "isnt":
        return not a == b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    if op == ">=":
        return a >= b
    raise ValueError(op)


def float_op(op, a, b, n):
    try:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                if a == 0 or a != a:
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b
        if op == "mod":
            if b != b or a != a or math.isinf(a) or b == 0:
                return math.nan
            return math.fmod(a, b)
        if op == "^":
            r = _exact_pow(a, b)
            if r is None:
                raise Undef(n, "pow")
            return r
    except OverflowError:
        raise Undef(n, "float")
    return cmp_op(op, a, b)


class Interp:
    def __init__(self, prog, fuel=40000, max_events=4000):
        self.prog, self.fuel, self.max_events = prog, fuel, max_events
        self.ev, self.glob, self.depth = [], {}, 0
        self.hits = set()

    def run(self):
        self.body_owner = None
        sig = self.block(self.prog.body, self.glob)
        ret = sig[1] if isinstance(sig, tuple) else 0
        return self.ev, ret

    def cell(self, var, fr):
        return self.glob[var] if var.owner is None else fr[var]

    def block(self, body, fr):
        for s in body:
            sig = self.stmt(s, fr)
            if sig is not None:
                return sig
        return None

    def stmt(self, s, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = type(s)
        if k is Def:
            v = self.ev_(s.e, fr)
            tgt = self.glob if s.var.owner is None else fr
            c = tgt.get(s.var)
            if c is None:
                tgt[s.var] = Cell(v)
            else:
                c.v = v
        elif k is Assign:
            v = self.ev_(s.e, fr)
            self.cell(s.var, fr).v = v
        elif k is Do:
            self.ev_(s.e, fr)
        elif k is If:
            for i, (c, b) in enumerate(s.arms):
                if self.ev_(c, fr):
                    self.hits.add(("arm", min(i, 9)))
                    return self.block(b, fr)
            if s.els is not None:
                self.hits.add("else")
                return self.block(s.els, fr)
            self.hits.add("fallthrough")
        elif k is While:
            n = 0
            while True:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel()
                if not self.ev_(s.cond, fr):
                    break
                n += 1
                sig = self.block(s.body, fr)
                if sig == "break":
                    self.hits.add("break")
                    break
                if sig == "continue":
                    self.hits.add("continue")
                elif sig is not None:
                    return sig
            self.hits.add(("iter", min(n, 3)))
        elif k is Return:
            return ("ret", self.ev_(s.e, fr) if s.e is not None else None)
        elif k is Simple:
            if s.kw == "unreachable":
                raise Undef(s, "unreachable")
            if s.kw != "noop":
                return s.kw
        elif k is Namespace:
            return self.block(s.body, fr)
        elif k is Slot:
            return self.block(s.stmts, fr)
        return None

    def ev_(self, e, fr):
        k = type(e)
        if k is Lit:
            return e.value
        if k is Use:
            return self.cell(e.var, fr).v
        if k is Bin:
            if e.repl is not None:
                return e.repl.value
            a = self.ev_(e.l, fr)
            b = self.ev_(e.r, fr)
            t = e.l.type
            if e.op in ("and", "or", "xor"):
                return {"and": a and b, "or": a or b, "xor": a != b}[e.op]
            if t == INT:
                r = int_op(e.op, a, b, e)
            elif t == FLOAT:
                r = float_op(e.op, a, b, e)
            elif t[0] == "&":
                r = (a is b) if e.op == "is" else (a is not b)
            else:
                r = cmp_op(e.op, a, b)
            return r
        if k is Un:
            if e.repl is not None:
                return e.repl.value
            v = self.ev_(e.e, fr)
            if e.op == "not":
                return not v
            if e.type == INT:
                if v == IMIN:
                    raise Undef(e, "negation")
                return -v
            if v == 0:
                raise Undef(e, "negating zero")
            return -v
        if k is Addr:
            return self.cell(e.use.var, fr)
        if k is Deref:
            return self.cell(e.use.var, fr).v.v
        if k is Call:
            args = [self.ev_(a, fr) for a in e.args]
            return self.call(e, e.fn, args)
        raise TypeError(e)

    def call(self, node, f, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if f.external:
            if not f.pure:
                self.ev.append(" ".join([f.name] + [fmt(p.type, a) if p.type[0] != "&"
                                                    else "*" + fmt(p.type[1:], a.v)
                                                    for p, a in zip(f.params, args)]))
                if len(self.ev) > self.max_events:
                    raise Fuel()
            return f.native(args) if f.native else None
        self.depth += 1
        if self.depth > 60:
            raise Fuel()
        fr = {}
        for p, a in zip(f.params, args):
            fr[p] = Cell(a)
        sig = self.block(f.body, fr)
        self.depth -= 1
        return sig[1] if isinstance(sig, tuple) else None
