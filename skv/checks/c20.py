"""Layout, comments, redundant parentheses, spelling and consistent renaming change nothing."""
import collections, copy, os, random, re
from .. import gen, lang
from . import _faults, _rej, _sem

PROP, LEVEL = "C20", "exploration"
RULE = ("random programs, valid and with one fault, each compiled as written and after a random rewriting: white space, indentation, blank lines, line and block comments, carriage returns, a missing final newline, a byte-order mark, "
        "redundant parentheses, other spellings of the literals, all private names replaced consistently by hostile ones (prefixes of each other, look-alikes of keywords, types and literals, long); outcome, messages and the emitted program "
        "(LLVM IR up to its internal names, C text) must agree, and the rewritten program is also run and compared with the model on a sample; non-trivial: every pair; distinct by rewritten text")
ASSUMPTIONS = ["a final newline after an external declaration is always present", "comments are put where the language allows them: at line ends and on lines of their own"]
UNITS = {"quick": 260, "thorough": 12000}
VARIANTS = ("plain",)
PER = 8

NASTY = ["i", "l", "iff", "elseif", "whiles", "returned", "mutable", "mut_", "exports", "importx", "externals", "namespaces", "trueish", "falsey", "nots", "not_", "andy", "orb", "xors", "mods", "iss", "isnt_", "is_nt", "Intx", "IntInt", "Strx", "Float1", "Rune_", "Bools", "Inf", "Infinity_", "NaNs", "nan", "true_", "x0", "x00", "x000", "x1", "x10", "x_1", "X1", "a", "aa", "aaa", "aaaa", "b0x1", "e10", "o7", "f", "F", "noop_", "breaks", "continue1", "unreachable2", "O0", "O", "o", "entry1", "ret", "define", "void", "tmp", "init_", "exit_", "printf", "memcpy", "strlen", "i64", "label", "a_b", "ab", "a__b", "llvm", "z" * 64, "z" * 63 + "y", "z" * 255, "Z" * 64]
CKEY = set("auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch typedef union unsigned void volatile while main init asm typeof bool true false nullptr constexpr printf memcpy strlen exit i a b base exp result pow".split())

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
_WORDS = set("mut return unreachable if elif else while external export noop break continue import namespace mod not is isnt and or xor Infinity NaN true false "
             "Int Float Bool Rune Str Void pi pf pb pr ps qi qf qb qr qs".split())


def respell(e, r, g):
    """another way to write the same literal"""
    t = e.type
    if t == lang.INT:
        s = g.int_lit(e.value).text
        if s.isdigit() and r.random() < 0.3:
            s = "0" * r.randint(1, 25) + s
        return s
    if t == lang.FLOAT and re.fullmatch(r"-?\d+\.\d+", e.text):
        return e.text + "0" * r.randint(1, 3)
    if t == lang.RUNE:
        c = e.value
        o = ["'\\x%0*X'" % (r.randint(1, 8), c)]
        if 32 < c < 127 and c not in (39, 92):
            o.append("'%s'" % chr(c))
        return r.choice(o)
    if t == lang.STR:
        try:
            s = e.value.decode()
        except UnicodeDecodeError:
            return e.text
        out = ""
        for c in s:
            x = r.random()
            if x < 0.25:
                out += "\\x%08X" % ord(c)
            elif c in "\"\\":
                out += "\\" + c
            elif c == "\x1b":
                out += "\\e"
            elif c in "\n\t\r":
                out += {"\n": "\\n", "\t": "\\t", "\r": "\\r"}[c] if c == "\r" or x < 0.6 else c
            else:
                out += c
        return '"%s"' % out
    return e.text


class Rewrite(lang.RandomLayout):
    """one random rewriting; `kinds` says which"""

    def __init__(self, r, kinds, ren):
        lang.RandomLayout.__init__(self, r, comments="comments" in kinds, ren=ren, crlf="crlf" in kinds)
        self.heavy = "space" in kinds
        self.kinds = kinds
        if "space" not in kinds:
            self.indent = "\t"

    def parens(self):
        return lang.RandomLayout.parens(self) if "parens" in self.kinds else 0

    def ind(self, d):
        return lang.RandomLayout.ind(self, d) if "space" in self.kinds else self.indent * d

    def eol(self):
        if self.comments and self.r.random() < 0.12:
            return self._tail()
        return lang.RandomLayout.eol(self)

    def between(self, d):
        return lang.RandomLayout.between(self, d) if self.comments or self.heavy else []

    def final_newline(self):
        return "nonl" not in self.kinds


def names(p):
    """(renameable, fixed)"""
    ours, fixed = set(), {f.name for f in p.externs}
    for s, _ in _sem.walk(p.body):
        if isinstance(s, lang.Def):
            (fixed if s.var.export else ours).add(s.var.name)
        elif isinstance(s, lang.FnDef):
            (fixed if s.fn.export or s.fn.external else ours).add(s.fn.name)
            ours |= {q.name for q in s.fn.params}
        elif isinstance(s, lang.AliasDef):
            ours.add(s.alias.name)
        elif isinstance(s, lang.Namespace):
            ours.add(s.ns.name)
    return ours - fixed, fixed


def renaming(r, p, cb):
    ours, fixed = names(p)
    pool = [n for n in NASTY if n not in fixed and not (cb and n in CKEY)]
    r.shuffle(pool)
    if r.random() < 0.3:                       # a family of one shape
        b = r.choice("abQ")
        pool = [b * k for k in range(1, 60)] if r.random() < 0.5 else [b + format(k, "03b") for k in range(200)]
        pool = [n for n in pool if n not in fixed and not (cb and n in CKEY)]
        r.shuffle(pool)
    elif r.random() < 0.35:                    # every letter, digit and underscore in every position
        pool = {r.choice(LETTERS) + "".join(r.choice(LETTERS + "0123456789_") for _ in range(r.choice([1, 1, 2, 3, 8, 40]))) for _ in range(60)} | set(r.sample(LETTERS, 20))
        pool = sorted(n for n in pool if n not in fixed and n not in _WORDS and not (cb and n in CKEY))
        r.shuffle(pool)
    old = sorted(ours)
    r.shuffle(old)
    out = {}
    for k, n in enumerate(old):
        out[n] = pool[k] if k < len(pool) else "w%dq" % k
    if r.random() < 0.2:                       # the same names, permuted
        q = list(old)
        r.shuffle(q)
        out = dict(zip(old, q))
    return out


TOK = re.compile(r'c?"(?:[^"\\]|\\.)*"|[%@!]"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+|^[-a-zA-Z$._0-9]+:|^"(?:[^"\\]|\\.)*":', re.M)


def alpha(ir, keep):
    """IR with its internal names numbered in order of appearance"""
    m = {}

    def f(x):
        t = x.group(0)
        if t[0] in "c\"" and not t.endswith(":"):
            return t
        if t.endswith(":"):
            t = "%" + t[:-1]
        if t in keep:
            return t
        # names are local to a function, but LLVM makes them distinct there
        k = m.setdefault(t, "%s%d" % (t[0], len(m)))
        return k
    out = []
    for blk in re.split(r"(?m)^(?=define )", ir):
        for k in [k for k in m if k[0] == "%"]:
            del m[k]
        out.append(TOK.sub(f, blk))
    t = "".join(out)
    return re.sub(r"(?m)\s*; preds = .*$", "", t)


def messages(res, ren):
    """multiset of diagnostics without positions, names replaced as in ren"""
    t = res.stderr.decode("utf-8", "replace")
    out = collections.Counter()
    for l in t.splitlines():
        l = re.sub(r"line \d+ column \d+: ", "", l)
        if ren:
            l = re.sub(r'"([^"]*)"', lambda m: '"%s"' % re.sub(r"\w+", lambda n: ren.get(n.group(0), n.group(0)), m.group(1)), l)
        out[l] += 1
    return out


CTOK = re.compile(r'"(?:[^"\\]|\\.)*"|0x[0-9a-fA-F.]+(?:p[+-]?\d+)?|\d[\w.]*|[A-Za-z_]\w*')


def alpha_c(t):
    """C text with its identifiers numbered in order of appearance"""
    m = {}
    t = re.sub(r"(?m)^#include.*$", lambda x: '"%s"' % x.group(0).replace('"', ""), t)     # `h` in it is no identifier of the program
    return CTOK.sub(lambda x: m.setdefault(x.group(0), "n%d" % len(m)) if x.group(0)[0].isalpha() or x.group(0)[0] == "_" else x.group(0), t)


KINDS = ["space", "comments", "parens", "nonl", "bom", "crlf", "rename", "spell"]


def pick(r, ext_last):
    k = {r.choice(KINDS)} if r.random() < 0.5 else {x for x in KINDS if r.random() < 0.5}
    if ext_last:
        k.discard("nonl")
    return k or {"space"}


def lits(p):
    """every literal node of the program"""
    seen, out, stack = set(), [], list(p.body)
    while stack:
        x = stack.pop()
        if id(x) in seen or x is None:
            continue
        seen.add(id(x))
        if isinstance(x, lang.Lit):
            out.append(x)
            continue
        if isinstance(x, (list, tuple)):
            stack += list(x)
            continue
        for c in type(x).__mro__:
            for s in getattr(c, "__slots__", ()):
                v = getattr(x, s, None)
                if isinstance(v, (list, tuple, lang.Node, lang.Func)):
                    stack.append(v)
    return out


def valid(w, d, r, rep, jobs):
    cb = r.random() < 0.25
    prof = dict(stmts=(2, 9), block=(1, 3), expr=r.choice([1, 2, 3]))
    if cb:
        prof.update(c_safe=True)
    try:
        p, ev, ret, it = gen.make(r, **prof)
    except RecursionError:
        return
    if cb and any(isinstance(s, lang.Namespace) or (isinstance(s, lang.FnDef) and dp) for s, dp in _sem.walk(p.body)):
        cb = False
    args = ["--c-backend", "-E"] if cb else ["-E"]
    base = lang.show(p)
    ext_last = not p.body
    kinds = pick(r, ext_last)
    if cb:
        kinds.discard("spell")
        kinds.discard("parens")
        kinds = kinds or {"space"}
    ren = renaming(r, p, cb) if "rename" in kinds else {}
    if "spell" in kinds:
        g = gen.Gen(random.Random(r.getrandbits(64)))
        saved = [(e, e.text) for e in lits(p)]
        for e, t in saved:
            if r.random() < 0.7:
                e.text = respell(e, r, g)
    text = lang.show(p, Rewrite(random.Random(r.getrandbits(64)), kinds, ren))
    if "spell" in kinds:
        for e, t in saved:
            e.text = t
    if "bom" in kinds:
        text = "\ufeff" + text
    x = _rej.run(w, d, base, args)
    y = _rej.run(w, d, text, args)
    for k in kinds:
        rep.cover["rewritings"].add(k)
    rep.counts["pairs compared"] += 1
    rep.eval(text, {"kinds": sorted(kinds), "before": base[-300:], "after": text[-300:]})
    files = {"before.sk": base, "after.sk": text, "before.out": x.out[-20000:], "after.out": y.out[-20000:]}
    what = "rewriting (%s)" % ", ".join(sorted(kinds))
    if x.timed_out or y.timed_out:
        rep.inconclusive.append("timeout")
        return
    if x.rc != 0:
        rep.violation("base-refused", "a valid program is refused: %s" % x.out[-300:].decode("utf-8", "replace"), files)
        return
    if y.rc != 0:
        rep.violation("refused", "%s makes a valid program refused: %s" % (what, y.out[-300:].decode("utf-8", "replace")), files)
        return
    mx, my = messages(x, ren), messages(y, None)
    if "bom" in kinds:
        b = [l for l in my if "BOM" in l]
        if sum(my[l] for l in b) != 1:
            rep.violation("bom", "%s: %d warnings about the byte-order mark" % (what, len(b)), files)
            return
        for l in b:
            del my[l]
    if mx != my:
        rep.violation("warnings", "%s changes the warnings: missing %s, new %s" % (what, list((mx - my).elements())[:3], list((my - mx).elements())[:3]), files)
        return
    a, b = x.stdout.decode("utf-8", "replace"), y.stdout.decode("utf-8", "replace")
    if cb:
        a, b = alpha_c(a), alpha_c(b)
    else:
        keep = {"@" + n for n in names(p)[1]}
        a, b = alpha(a, keep), alpha(b, keep)
    if a != b:
        u, v = a.splitlines(), b.splitlines()
        k = next((i for i, (s, t) in enumerate(zip(u, v)) if s != t), min(len(u), len(v)))
        rep.violation("program", "%s changes the program: %r becomes %r" % (what, u[k] if k < len(u) else None, v[k] if k < len(v) else None), files)
        return
    if not cb and r.random() < 0.15:
        jobs.append((p, ev, ret, it, text))


def faulty(w, d, i, n, r, rep):
    kinds = _faults.ALL
    kind = kinds[(i * PER + n) % len(kinds)]
    s = r.getrandbits(64)
    f = _faults.make(random.Random(s), kind=kind)
    g = _faults.make(random.Random(s), kind=kind, layout=lang.RandomLayout)
    if f is None or g is None or f.kind != g.kind or f.where != g.where:
        return
    x, y = _rej.run(w, d, f.text), _rej.run(w, d, g.text)
    rep.eval(g.text, {"fault": f.kind, "after": g.text[-200:]})
    rep.counts["faulty pairs compared"] += 1
    rep.cover["faults"].add(f.kind)
    files = {"before.sk": f.text, "after.sk": g.text, "before.out": x.out[-4000:], "after.out": y.out[-4000:]}
    if x.timed_out or y.timed_out:
        rep.inconclusive.append("timeout")
        return
    ex, ey = sorted(e[2] for e in _rej.errors(x)), sorted(e[2] for e in _rej.errors(y))
    if x.rc != y.rc or (ex != ey and f.msg is not None and f.kind != "syntax"):
        rep.violation("fault:" + f.kind, "layout changes the outcome of a program with a '%s' fault: exit %d %s, after rewriting exit %d %s" % (f.kind, x.rc, ex[:2], y.rc, ey[:2]), files)


def unit(w, i, rng, rep):
    d = w.sub("c20")
    jobs = []
    for n in range(PER):
        valid(w, d, random.Random(rng.getrandbits(64)), rep, jobs)
        if n % 2:
            faulty(w, d, i, n // 2, random.Random(rng.getrandbits(64)), rep)
    if jobs:
        obs = w.batch().run([(t, []) for *_, t in jobs])
        for (p, ev, ret, it, t), o in zip(jobs, obs):
            j = _sem.judge(o, ev, ret)
            rep.counts["rewritten programs run"] += 1
            rep.counts["events observed"] += len(o.events or [])
            if j and j[0] == "inconclusive":
                rep.inconclusive.append(j[1])
            elif j and j[0] != "skip":
                rep.violation("run-" + j[0], "a rewritten program misbehaves: " + j[1], {"after.sk": t})
