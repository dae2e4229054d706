"""A recogniser of Skull's statement syntax, written from the documentation and more permissive than it:
what it refuses is certainly not a program.  ok(text) -> None, or why the text cannot be one."""
import re

TOK = re.compile(r"""
  (?P<bc>\#\{.*?\#\}) | (?P<lc>\#[^\n]*) | (?P<nl>\n) | (?P<ws>[ \t\r]+) |
  (?P<str>"(?:[^"\\]|\\["\\]|\\(?!["\\]))*") | (?P<rune>'(?:[^'\\]|\\['\\]|\\(?!['\\]))*') |
  (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9_]*)?) |
  (?P<id>[&*]*[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*) |
  (?P<op>:=|<<|>>|<=|>=|[-+*/^<>=:,(){}&])
""", re.X | re.S)
KW = set("mut return unreachable if elif else while external export noop break continue import namespace mod not is isnt and or xor".split())
BIN = set("mod is isnt and or xor + - * / ^ << >> < > <= >=".split())


class Bad(Exception):
    pass


def lex(text):
    out, k, line = [], 0, 1
    while k < len(text):
        m = TOK.match(text, k)
        if not m:
            raise Bad("line %d: not a token: %r" % (line, text[k:k + 10]))
        kind, s = m.lastgroup, m.group()
        k = m.end()
        if kind == "bc":
            out += [("nl", "\n", line)]
        elif kind == "lc" or kind == "ws":
            pass
        elif kind == "op" and s == "#{":
            raise Bad("unclosed comment")
        else:
            out.append((kind, s, line))
        line += s.count("\n")
    out.append(("nl", "\n", line))
    out.append(("eof", "", line))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    @property
    def s(self):
        return self.t[self.i][1]

    @property
    def k(self):
        return self.t[self.i][0]

    def bad(self, why):
        raise Bad("line %d: %s, at %r" % (self.t[self.i][2], why, self.s))

    def nls(self):
        while self.k == "nl":
            self.i += 1

    def take(self, s):
        if self.s != s or self.k in ("str", "rune"):
            self.bad("expected %r" % s)
        self.i += 1

    def ident(self, dots=True):
        if self.k != "id" or self.s in KW or not dots and ("." in self.s or self.s[0] in "&*"):
            self.bad("expected a name")
        self.i += 1

    # ---- expressions
    def expr(self):
        self.unary()
        while self.k in ("op", "id") and self.s in BIN:
            self.i += 1
            self.unary()

    def unary(self):
        n = 0
        while self.s in ("not", "-", "*", "&") and self.k in ("op", "id"):
            self.i += 1
            n += 1
        if self.k in ("num", "str", "rune"):
            self.i += 1
        elif self.s == "(" and self.k == "op":
            self.i += 1
            self.expr()
            self.take(")")
        elif self.k == "id" and self.s not in KW:
            self.i += 1
            if self.s == "(":
                self.call()
        else:
            self.bad("expected an expression")

    def call(self):
        self.take("(")
        while self.s != ")":
            self.expr()
            if self.s == ",":
                self.i += 1
            elif self.s != ")":
                self.bad("expected , or ) after an argument")
        self.take(")")

    def params(self):
        self.take("(")
        while self.s != ")":
            self.ident(False)
            self.take(":")
            self.ident()
            if self.s == ",":
                self.i += 1
            elif self.s != ")":
                self.bad("expected , or ) after a parameter")
        self.take(")")

    # ---- statements
    def end(self):
        """the end of a statement"""
        if self.k in ("nl", "eof") or self.s == "}":
            return
        self.bad("expected the end of the statement")

    def block(self):
        while self.k == "nl" or self.k == "op" and self.s == ",":
            self.i += 1
        self.take("{")
        self.stmts(True)                  # (a block may hold nothing but comments)
        self.take("}")

    def stmts(self, inner):
        n = 0
        can = False                       # may an else follow?
        while True:
            self.nls()
            if self.k == "eof":
                if inner:
                    self.bad("missing }")
                return n
            if self.s == "}" and self.k == "op":
                if not inner:
                    self.bad("unexpected }")
                return n
            can = self.stmt(can)
            n += 1

    def ahead_func(self):
        """at a name and ( : a definition or declaration rather than a call?"""
        j, d = self.i + 1, 0
        while self.t[j][0] != "eof":
            if self.t[j][0] == "op" and self.t[j][1] in "()":
                d += 1 if self.t[j][1] == "(" else -1
                if d == 0:
                    break
            if self.t[j][0] == "nl":
                return False
            j += 1
        j += 1
        if j < len(self.t) and self.t[j][0] == "id" and self.t[j][1] not in KW:
            j += 1
        return j < len(self.t) and self.t[j][1] == "{" and self.t[j][0] == "op"

    def stmt(self, can):
        s = self.s if self.k == "id" else None
        if s in ("noop", "break", "continue", "unreachable"):
            self.i += 1
            return False
        if s == "return":
            self.i += 1
            if not (self.k in ("nl", "eof") or self.s in "},"):
                self.expr()
            return False
        if s in ("if", "while") or s in ("elif", "else"):
            self.i += 1
            if s in ("elif", "else") and not can:
                self.bad("%s without if" % s)
            if s != "else":
                self.expr()
            self.block()
            return s in ("if", "elif")
        if s == "import":
            self.i += 1
            self.ident(False)
            return False
        if s == "namespace":
            self.i += 2                           # (whatever the name is)
            if self.i >= len(self.t):
                self.bad("namespace without a name")
            if self.s == "{":
                self.block()
            return False
        if s == "external":
            self.i += 1
            self.ident(False)
            self.params()
            if self.k == "id" and self.s not in KW:
                self.ident()
            return False
        if self.k == "op" and self.s == ",":
            self.i += 1                           # (stray commas are skipped)
            return can
        if self.k == "op" and self.s == "{":
            self.block()
            return False
        exp = mut = False
        if s == "export":
            self.i += 1
            exp = True
            self.nls()
        if self.k == "id" and self.s == "mut":
            self.i += 1
            mut = True
            self.nls()
        if self.k != "id" or self.s in KW:
            if exp or mut:
                self.bad("expected a name")
            self.expr()
            return False
        if self.t[self.i + 1][1] == "(" and self.t[self.i + 1][0] == "op" and not mut:
            if self.ahead_func():
                self.ident(False)
                self.params()
                if self.k == "id":
                    self.ident()
                self.block()
                return False
            if exp:
                self.bad("export of a call")
            self.expr()                           # (another statement may follow on the line)
            return False
        nx = self.t[self.i + 1]
        if nx[0] == "op" and nx[1] == ":=":
            self.ident(False)
            self.i += 1
            if self.k == "id" and re.match(r"&*(Int|Float|Bool|Rune|Str|Void)$", self.s):
                self.i += 1                       # an alias
            else:
                self.expr()
            self.end()
            return False
        if nx[0] == "op" and nx[1] == ":":
            self.ident(False)
            self.i += 1
            self.ident()
            self.take("=")
            self.expr()
            self.end()
            return False
        if nx[0] == "op" and nx[1] == "=" and not exp and not mut:
            self.ident()
            self.i += 1
            self.expr()
            return False
        if exp or mut:
            self.bad("expected a definition")
        self.expr()
        return False


def why_not(text):
    try:
        P(lex(text)).stmts(False)
    except Bad as e:
        return str(e)
    return None


def tokens(text):
    """[(kind, text)] with white space and comments, for edits; None if it cannot be split"""
    out, k = [], 0
    while k < len(text):
        m = TOK.match(text, k)
        if not m:
            return None
        out.append((m.lastgroup, m.group()))
        k = m.end()
    return out


PIECES = ["if", "while", "else", "elif", "return", "mut", "export", "external", "import", "namespace", "break", "noop", "not", "is", "and",
          ":=", "=", ":", "(", ")", "{", "}", ",", "+", "-", "*", "<", "1", "1.5", '"s"', "'c'", "true", "x", "Int", "f(", "\n", "^", "<<", "unreachable"]


def edit(r, text):
    """a small edit of a program's tokens: (what, text)"""
    t = tokens(text)
    if not t:
        return None
    s = [x[1] for x in t]
    solid = [i for i, x in enumerate(t) if x[0] not in ("ws", "lc", "bc")]
    if len(solid) < 3:
        return None
    k = r.choice(["cut", "cut", "cutsp", "delete", "delete", "insert", "insert", "double", "swap", "replace", "replace", "drop-line", "join"])
    i = r.choice(solid)
    if k in ("cut", "cutsp"):
        # end the text after a token, with or without something after it
        return k, "".join(s[:i + 1]) + ("" if k == "cut" else r.choice([" ", "\n", " # c", " #{ c #}", "\t\n\n"]))
    if k == "delete":
        n = r.choice([1, 1, 1, 2, 3])
        gone = set(solid[solid.index(i):][:n])
        return k, "".join(x for j, x in enumerate(s) if j not in gone)
    if k == "insert":
        s[i] = " " + r.choice(PIECES) + " " + s[i]
    elif k == "double":
        s[i] = s[i] + " " + s[i]
    elif k == "swap":
        j = solid[min(solid.index(i) + 1, len(solid) - 1)]
        s[i], s[j] = s[j], s[i]
    elif k == "replace":
        s[i] = " " + r.choice(PIECES) + " "
    elif k == "drop-line":
        ls = text.split("\n")
        del ls[r.randrange(len(ls))]
        return k, "\n".join(ls)
    elif k == "join":
        nls = [j for j in solid if t[j][0] == "nl"]
        s[r.choice(nls)] = " "
    return k, "".join(s)
