"""Size does not matter: large programs compile and behave like small ones."""
import os, random, re, string
from .. import lang

PROP, LEVEL = "C25", "exploration"
RULE = ("programs scaled along one dimension each (variables, locals, functions, parameters, statements, arms, nesting, operators, parentheses, literal, name, comment and line length, blank lines, namespaces, scopes, aliases, exports, "
        "nested calls, iterations, recursion), at every small size and around every power of two up to the bounds, with families of similar names; every value is logged by the running program and compared with the expected one; "
        "the same sizes with one fault (a name that almost exists, a second definition, an unknown name at a far line or column) have to be refused at that place; half of the compilations run under AddressSanitizer; "
        "non-trivial: every program run or refused; distinct by source text")
ASSUMPTIONS = ["nesting up to 100 levels, expressions up to 400 operators, up to 4,500 parameters"]
UNITS = {"quick": 150, "thorough": 8000}
VARIANTS = ("plain", "asan")
PER = 6
FLAGS = [[], [], [], ["-O1"], ["-O2"], ["-g"]]


def sizes(r, top, cheap=None):
    """mostly small sizes, then the neighbourhood of powers of two"""
    x = r.random()
    if x < 0.35:
        return r.randint(1, min(40, top))
    p = 1
    ps = []
    while p <= top:
        ps += [p - 1, p, p + 1]
        p *= 2
    ps = [q for q in ps if 0 < q <= top]
    if x < 0.8:
        return r.choice(ps)
    if x < 0.9:
        return top
    return r.randint(1, top)


RES = set("if elif else while return break continue noop unreachable mut export external import namespace true false and or xor not is isnt mod Int Float Bool Rune Str Void".split())


def names(r, n):
    """n different names, hard to tell apart"""
    out, seen = [], set(RES)
    fam = r.choice(["count", "tail", "head", "prefix", "case", "perm", "random", "mix", "grow"])
    stem = r.choice(["v", "name_", "x" * 30, "a_", "longer_name_" * 8])
    k = 0
    while len(out) < n:
        f = fam if fam != "mix" else r.choice(["count", "tail", "head", "prefix", "case", "perm", "random"])
        k += 1
        if f == "count":
            s = stem + str(k)
        elif f == "tail":
            s = stem + "".join(r.choice("ab") for _ in range(2 + n.bit_length()))
        elif f == "head":
            s = "".join(r.choice(string.ascii_letters) for _ in range(1 + n.bit_length() // 4)) + stem
        elif f == "prefix":
            s = stem[:1] + "a" * (k % 400) + ("b" + str(k // 400) if k >= 400 else "")
        elif f == "case":
            s = "".join(r.choice([c, c.upper()]) for c in "abcdefghijklmn")
        elif f == "perm":
            l = list("abcdefgh1")
            r.shuffle(l)
            s = "p" + "".join(l)
        elif f == "grow":
            s = "g" + "z" * (k % 300) + str(k)
        else:
            s = r.choice(string.ascii_letters) + "".join(r.choice(string.ascii_letters + "0123456789_") for _ in range(r.randint(0, 8)))
        if s in seen or s.startswith("sk_") or len(s) < 2:    # one letter: names of the frame
            continue
        seen.add(s)
        out.append(s)
    r.shuffle(out)
    return out


EXT = "external sk_pi(x: Int)\nexternal sk_pf(x: Float)\nexternal sk_ps(x: Str)\nexternal sk_pb(x: Bool)\nexternal sk_pr(x: Rune)\nexternal sk_qi(x: Int) Int\nexternal sk_gi(x: Int) Int\n"


def P(v):
    return "sk_pi %d" % v


class Bad(Exception):
    pass


def pick(r, l, k=60):
    """positions worth looking at"""
    if len(l) <= k:
        l = list(l)
        r.shuffle(l)
        return l
    return list(l[:5]) + list(l[-5:]) + [r.choice(l) for _ in range(k - 10)]


def d_vars(r):
    n = sizes(r, 3000)
    ns = names(r, n)
    vals = {x: r.getrandbits(40) for x in ns}
    mut = {x for x in ns if r.random() < 0.3}
    t = ["%s%s := %d" % ("mut " if x in mut else "", x, vals[x]) for x in ns]
    ev = []
    for x in pick(r, ns, 150):
        if x in mut and r.random() < 0.5:
            vals[x] = r.getrandbits(30)
            t.append("%s = %d" % (x, vals[x]))
        t.append("sk_pi(%s)" % x)
        ev.append(P(vals[x]))
    return n, t, ev, 0


def d_locals(r):
    n = sizes(r, 1200)
    ns = names(r, n + 1)
    f = ns.pop()
    vals = {x: r.getrandbits(40) for x in ns}
    t = ["%s() Int {" % f]
    mut = {x for x in ns if r.random() < 0.5}
    t += ["\t%s%s := sk_qi(%d)" % ("mut " if x in mut else "", x, vals[x]) for x in ns]
    ev = []
    for x in pick(r, ns, 100):
        if x in mut and r.random() < 0.5:
            vals[x] = r.getrandbits(30)
            t.append("\t%s = %d" % (x, vals[x]))
        t.append("\tsk_pi(%s)" % x)
        ev.append(P(vals[x]))
    y = r.choice(ns)
    t += ["\treturn %s" % y, "}", "sk_pi(%s())" % f]
    return n, t, ev + [P(vals[y])], 0


def d_funcs(r):
    n = sizes(r, 1200)
    ns = names(r, n)
    vals = {x: r.getrandbits(40) for x in ns}
    t = []
    for x in ns:
        t += ["%s%s(a: Int) Int {" % ("export " if r.random() < 0.1 else "", x), "\treturn a + %d" % vals[x], "}"]
    ev = []
    for x in pick(r, ns, 100):
        a = r.randint(0, 99)
        t.append("sk_pi(%s(%d))" % (x, a))
        ev.append(P(vals[x] + a))
    return n, t, ev, 0


def d_params(r):
    n = sizes(r, 300) if r.random() < 0.85 else r.randint(300, 4500)
    ns = names(r, n + 1)
    f = ns.pop()
    ty = [r.choice(["Int", "Int", "Float", "Bool", "Rune", "Str"]) for _ in ns]
    val, show = [], {"Int": "sk_pi", "Float": "sk_pf", "Bool": "sk_pb", "Rune": "sk_pr", "Str": "sk_ps"}
    for k, x in enumerate(ty):
        val.append({"Int": r.getrandbits(40), "Float": float(k) + 0.5, "Bool": r.random() < 0.5, "Rune": 65 + k % 26, "Str": ("s%d" % k).encode()}[x])
    lit = {"Int": str, "Float": str, "Bool": lambda v: "true" if v else "false", "Rune": lambda v: "'%c'" % v, "Str": lambda v: '"%s"' % v.decode()}
    t = ["%s(%s) Int {" % (f, ", ".join("%s: %s" % z for z in zip(ns, ty)))]
    ev = []
    for k in pick(r, range(n), 120):
        t.append("\t%s(%s)" % (show[ty[k]], ns[k]))
        ev.append("%s %s" % (show[ty[k]], lang.fmt({"Int": lang.INT, "Float": lang.FLOAT, "Bool": lang.BOOL, "Rune": lang.RUNE, "Str": lang.STR}[ty[k]], val[k])))
    t += ["\treturn %d" % n, "}", "sk_pi(%s(%s))" % (f, ", ".join(lit[x](v) for x, v in zip(ty, val)))]
    return n, t, ev + [P(n)], 0


def d_stmts(r):
    n = sizes(r, 4097)
    ev, t = [], []
    for k in range(n):
        v = r.getrandbits(20)
        t.append("sk_pi(%d)" % v)
        ev.append(P(v))
    return n, t, ev, 7


def d_elif(r):
    n = sizes(r, 260)
    t = ["pick(a: Int) Int {", "\tif a is 0 {", "\t\treturn 1000"]
    for k in range(1, n):
        t += ["\t} elif a is %d {" % k, "\t\treturn %d" % (1000 + k)]
    t += ["\t} else {", "\t\treturn 7", "\t}", "\treturn 8", "}"]
    if r.random() < 0.5:                      # the comment on lines of their own between arms
        t = [x for y in t for x in ((y.split("} ")[0] + "}", "\t# c", "\t" + y.split("} ")[1]) if "} el" in y else (y,))]
    ev = []
    for a in pick(r, list(range(n)) + [n, -1], 40):
        t.append("sk_pi(pick(%d))" % a)
        ev.append(P(1000 + a if 0 <= a < n else 7))
    return n, t, ev, 0


def d_nest(r):
    n = sizes(r, 100)
    t, ev, end = [], [], []
    kinds = [r.choice(["if", "while", "else", "ns"]) for _ in range(n)]
    if r.random() < 0.3:
        kinds = [r.choice(["if", "while", "else", "ns"])] * n
    seen = False
    for k, x in enumerate(kinds):
        if x == "ns" and any(y != "ns" for y in kinds[:k]):
            x = "if"
        i = "\t" * k
        if x == "if":
            t.append(i + "if sk_qi(%d) is %d {" % (k, k))
            end.append(i + "}")
        elif x == "else":
            t += [i + "if sk_qi(%d) is 0 {" % (k + 1), i + "\tsk_pi(1)", i + "} else {"]
            end.append(i + "}")
        elif x == "ns":
            t.append(i + "namespace n%d {" % k)
            end.append(i + "}")
        else:
            t += [i + "mut w%d := 0" % k, i + "while w%d < 1 {" % k, i + "\tw%d = w%d + 1" % (k, k)]
            end.append(i + "}")
        if r.random() < 0.3:
            t.append(i + "\tsk_pi(%d)" % k)
            ev.append(P(k))
    t.append("\t" * n + "v := 5")
    t.append("\t" * n + "sk_pi(v)")
    return n, t + end[::-1] + ["sk_pi(6)"], ev + [P(5), P(6)], 3


def d_chain(r):
    n = sizes(r, 400)
    v = r.randint(0, 50)
    e, left = ["sk_qi(%d)" % v], v
    for _ in range(n):
        b = r.randint(0, 1000)
        op = r.choice("+-")
        e += [op, str(b) if r.random() < 0.7 else "sk_qi(%d)" % b]
        left = left + b if op == "+" else left - b
    return n, ["sk_pi(%s)" % " ".join(e)], [P(left)], 0


def d_parens(r):
    n = sizes(r, 100)
    x = r.random()
    if x < 0.4:
        return n, ["sk_pi(%ssk_qi(3)%s)" % ("(" * n, ")" * n)], [P(3)], 0
    if x < 0.7:
        return n, ["sk_pi(%s1%s)" % ("(2 + " * n, ")" * n)], [P(2 * n + 1)], 0
    e, v = "sk_qi(1)", 1
    for k in range(n):
        b = r.randint(0, 9)
        if r.random() < 0.5:
            e, v = "(%s - %d)" % (e, b), v - b
        else:
            e, v = "(%d - %s)" % (b, e), b - v
    return n, ["sk_pi(%s)" % e], [P(v)], 0


def d_string(r):
    n = sizes(r, 65537)
    out, s = bytearray(), []
    while len(out) < n:
        c = r.choice(["a", "b", "é", "漢", "\\n", "\\\"", "\\\\", "z", " "])
        s.append(c)
        out += {"\\n": b"\n", '\\"': b'"', "\\\\": b"\\"}.get(c) or c.encode()
    b = bytes(out)
    t = ['mut s := "%s"' % "".join(s), "sk_ps(s)", 's = "short"', "sk_ps(s)"]
    return n, t, ["sk_ps " + lang.fmt(lang.STR, b), "sk_ps " + lang.fmt(lang.STR, b"short")], 0


def d_strings(r):
    n = sizes(r, 600)
    ss = ["s%d_%s" % (k, "q" * r.randint(0, 20)) for k in range(n)]
    t = ['%s%d := "%s"' % (r.choice(["", "mut "]) + "v", k, s) for k, s in enumerate(ss)]
    ev = []
    for k in pick(r, range(n), 80):
        t.append("sk_ps(v%d)" % k)
        ev.append("sk_ps " + lang.fmt(lang.STR, ss[k].encode()))
    return n, t, ev, 0


def d_name(r):
    n = sizes(r, 16385)
    a = "n" + "".join(r.choice("abc_1") for _ in range(n))
    k = r.randrange(1, len(a))
    b = a[:k] + ("x" if a[k] != "x" else "y") + a[k + 1:]
    c, f = a + "z", a[:-1]
    t = ["mut %s := 1" % a, "%s := 2" % b, "%s := 3" % c, "%s(%s: Int) Int {" % (f + "_f", "p" + a), "\treturn %s + 1" % ("p" + a), "}"]
    t += ["sk_pi(%s)" % a, "sk_pi(%s)" % b, "sk_pi(%s)" % c, "sk_pi(%s(9))" % (f + "_f"), "%s = 5" % a, "sk_pi(%s)" % a]
    return n, t, [P(1), P(2), P(3), P(10), P(5)], 0


def d_comment(r):
    n = sizes(r, 65537)
    body = "".join(r.choice("ab {}()\"'#\\é漢") for _ in range(min(n, 3000)))
    body = (body * (n // max(1, len(body)) + 1))[:n].replace("#}", "##").replace("#{", "##")
    body = body.rstrip("#") + "." if body.endswith("#") else body
    k = r.randint(1, 3)
    t = []
    for _ in range(k):
        t.append(r.choice(["# " + body, "#{ " + body.replace("#", "_") + " #}", "sk_pi(1) # " + body, "#{\n" + body.replace("#", "_")[:200] + "\n" * min(n, 20000) + "#}"]))
    return n, t + ["sk_pi(4)"], [P(1) for x in t if x.startswith("sk_pi")] + [P(4)], 0


def d_blank(r):
    n = sizes(r, 70000)
    return n, ["sk_pi(1)" + "\n" * n + "sk_pi(2)", "sk_pi(3)"], [P(1), P(2), P(3)], 0


def d_space(r):
    n = sizes(r, 65537)
    s = r.choice([" ", "\t"]) * n
    t = [s + "sk_pi(1)" + s, "sk_pi(" + s + "2" + s + ")", "x :=" + s + "3", "sk_pi(x" + s + "+" + s + "1)", s, "sk_pi(5)"]
    return n, t, [P(1), P(2), P(4), P(5)], 0


def d_spaces_(r):
    n = sizes(r, 300)
    ns = names(r, n)
    m = r.choice(["a", "val", ns[0]])
    t, ev = [], []
    for k, x in enumerate(ns):
        t += ["namespace %s {" % x, "\t%s := %d" % ("m_" + m, k * 3), "\tf_%s() Int {" % m, "\t\treturn %d" % (k * 7), "\t}", "}"]
    for k in pick(r, range(n), 60):
        t += ["sk_pi(%s.m_%s)" % (ns[k], m), "sk_pi(%s.f_%s())" % (ns[k], m)]
        ev += [P(k * 3), P(k * 7)]
    return n, t, ev, 0


def d_path(r):
    n = sizes(r, 60)
    ns = names(r, n)
    t = ["\t" * k + "namespace %s {" % x for k, x in enumerate(ns)]
    t += ["\t" * n + "mut v := 3"] + ["\t" * k + "}" for k in range(n - 1, -1, -1)]
    p = ".".join(ns) + ".v"
    return n, t + ["sk_pi(%s)" % p, "%s = 4" % p, "sk_pi(%s)" % p], [P(3), P(4)], 0


def d_scopes(r):
    n = sizes(r, 800)
    fn = r.random() < 0.5
    t, ev = (["f() {"] if fn else []), []
    for k in range(n):
        t += ["if sk_qi(1) is 1 {", "\tx := %d" % k, "\tmut y := x", "\ty = y + 1", "\tsk_pi(y)", "}"]
        ev.append(P(k + 1))
    if fn:
        t += ["}", "f()"]
    return n, t, ev, 0


def d_alias(r):
    n = sizes(r, 500)
    ns = names(r, n)
    ty = [r.choice(["Int", "Float", "Str", "Bool", "Rune"]) for _ in ns]
    t, ev = ["T_%s := %s" % z for z in zip(ns, ty)], []
    for j, k in enumerate(pick(r, range(n), 60)):
        v = {"Int": "1", "Float": "1.5", "Str": '"s"', "Bool": "true", "Rune": "'r'"}[ty[k]]
        t += ["f_%d(a: T_%s) T_%s {" % (j, ns[k], ns[k]), "\treturn a", "}", "%s(f_%d(%s))" % ({"Int": "sk_pi", "Float": "sk_pf", "Str": "sk_ps", "Bool": "sk_pb", "Rune": "sk_pr"}[ty[k]], j, v)]
        ev.append({"Int": P(1), "Float": "sk_pf " + lang.fmt(lang.FLOAT, 1.5), "Str": "sk_ps " + lang.fmt(lang.STR, b"s"), "Bool": "sk_pb 1", "Rune": "sk_pr 72"}[ty[k]])
    return n, t, ev, 0


def d_exports(r):
    n = sizes(r, 800)
    ns = names(r, n)
    t = ["export %s := %d" % (x, k) for k, x in enumerate(ns)]
    ks = pick(r, range(n), 60)
    return n, t + ["sk_pi(%s)" % ns[k] for k in ks], [P(k) for k in ks], 0


def d_calls(r):
    n = sizes(r, 100)
    e, v, ev = "sk_gi(2)", 2, [P(2).replace("sk_pi", "sk_gi")]
    for k in range(n):
        e, v = "inc(%s)" % e, v + 1
        if r.random() < 0.2:
            e = "sk_gi(%s)" % e
            ev.append("sk_gi %d" % v)
    return n, ["inc(a: Int) Int {", "\treturn a + 1", "}", "sk_pi(%s)" % e], ev + [P(v)], 0


def d_iter(r):
    n = sizes(r, 3000000)
    body = r.choice([["s = s + i mod 7"], ["mut k := i mod 7", "s = s + k"], ["k := i mod 7", "rr := &k", "s = s + *rr"], ["if i mod 7 > 3 {", "\tmut q := 1", "\tq = q + 1", "\ts = s + q", "}"], ["s = s + f(i)"]])
    fn = r.random() < 0.5
    s = 0
    for i in range(1, n + 1):
        pass
    if body[0].startswith("if"):
        s = 2 * sum(1 for i in range(7) if i > 3) * (n // 7) + 2 * sum(1 for i in range(n // 7 * 7 + 1, n + 1) if i % 7 > 3)
    else:
        s = 21 * (n // 7) + sum(i % 7 for i in range(n // 7 * 7 + 1, n + 1))
    t = ["f(a: Int) Int {", "\tmut z := a mod 7", "\tz = z + 0", "\treturn z", "}", "mut i := 0", "mut s := 0", "while i < %d {" % n, "\ti = i + 1"] + ["\t" + x for x in body] + ["}", "sk_pi(s)"]
    if fn:
        t = t[:5] + ["g() {"] + ["\t" + x for x in t[5:]] + ["}", "g()"]
    return n, t, [P(s)], 0


def d_recurse(r):
    n = sizes(r, 20000)
    x = r.random()
    if x < 0.5:
        return n, ["f(a: Int) Int {", "\tif a is 0 {", "\t\treturn 0", "\t}", "\tmut k := a", "\tk = k + f(a - 1)", "\treturn k", "}", "sk_pi(f(%d))" % n], [P(n * (n + 1) // 2)], 0
    return n, ["mut depth := 0", "f(a: Int) {", "\tdepth = depth + 1", "\tif a > 0 {", "\t\tf(a - 1)", "\t}", "\tdepth = depth + 1", "}", "f(%d)" % n, "sk_pi(depth)"], [P(2 * (n + 1))], 0


def d_literal(r):
    n = sizes(r, 2000)
    v = r.getrandbits(50)
    s = str(v)
    u = s[0] + "".join("_" * r.choice([0, 1]) + c for c in s[1:])
    z = "0." + "0" * n + "5"
    one = "1." + "0" * n
    t = ["sk_pi(%s)" % u, "sk_pf(%s)" % one, "sk_pi(0x%s)" % ("_".join("%x" % v)), "sk_pf(%s)" % z]
    ev = [P(v), "sk_pf " + lang.fmt(lang.FLOAT, 1.0), P(v), "sk_pf " + lang.fmt(lang.FLOAT, float(z))]
    if n > 290:
        t.pop()
        ev.pop()
    return n, t, ev, 0


DIMS = [d_vars, d_vars, d_locals, d_funcs, d_params, d_stmts, d_elif, d_nest, d_chain, d_parens, d_string, d_strings, d_name, d_comment, d_blank, d_space, d_spaces_, d_path, d_scopes, d_alias, d_exports, d_calls, d_iter, d_recurse, d_literal]


# faults at a size: (n, lines, line, column, text of the message)
def near(r, ns):
    """a name close to those in ns, but not among them"""
    have = set(ns) | RES
    while True:
        x = r.choice(ns)
        k = r.randrange(len(x))
        y = r.choice([x + "a", x[:-1], x[:k] + r.choice("abcxyz019_") + x[k + 1:], "b" + x[1:], x.swapcase(), x + x, x[1:]])
        if len(y) > 1 and y not in have and re.fullmatch("[A-Za-z][A-Za-z0-9_]*", y) and not y.startswith("sk_"):
            return y


def r_unknown(r):
    n = sizes(r, 2000)
    ns = names(r, n)
    kind = r.choice(["var", "func", "local", "param"])
    y = near(r, ns)
    if kind == "func":
        t = [x for z in ns for x in ("%s() Int {" % z, "\treturn 1", "}")]
        return n, t + ["sk_pi(%s())" % y], len(t) + 1, 7
    if kind == "local":
        t = ["f() {"] + ["\t%s := 1" % z for z in ns]
        return n, t + ["\tsk_pi(%s)" % y, "}", "f()"], len(t) + 1, 8
    if kind == "param":
        ns = ns[:250]
        y = near(r, ns)
        t = ["f(%s) Int {" % ", ".join("%s: Int" % z for z in ns)]
        return n, t + ["\treturn %s" % y, "}"], 2, 9
    t = ["%s%s := 1" % (r.choice(["", "mut "]), z) for z in ns]
    return n, t + ["sk_pi(%s)" % y], len(t) + 1, 7


def r_twice(r):
    n = sizes(r, 2000)
    ns = names(r, n)
    x = r.choice([ns[0], ns[-1], r.choice(ns)])
    kind = r.choice(["var", "func", "mixed", "local"])
    if kind == "var":
        t = ["%s := 1" % z for z in ns]
        return n, t + ["%s := 2" % x], len(t) + 1, 1
    if kind == "local":
        t = ["f() {"] + ["\tmut %s := 1" % z for z in ns]
        return n, t + ["\t%s := 2" % x, "}"], len(t) + 1, 2
    t = [y for z in ns for y in ("%s() Int {" % z, "\treturn 1", "}")] if kind == "func" else ["%s := 1" % z for z in ns]
    return n, t + ["%s() Int {" % x, "\treturn 2", "}"], len(t) + 1, 1


def r_line(r):
    n = sizes(r, 70000)
    return n, ["x := 1" + "\n" * n + "y := nosuch"], 1 + n, 6


def r_column(r):
    n = sizes(r, 66000)
    x = r.random()
    if x < 0.4:
        return n, [" " * n + "y := nosuch"], 1, n + 6
    if x < 0.7:
        s = "é" * n
        return n, ["y := \"%s\" is nosuch" % s], 1, 12 + n
    return n, ["f(a: Int, b: Int) {", "\tnoop", "}", "f(1," + " " * n + "nosuch)"], 4, 5 + n


def r_const(r):
    n = sizes(r, 1500)
    ns = names(r, n)
    x = r.choice(ns)
    t = ["%s%s := 1" % ("" if z == x else r.choice(["mut ", ""]), z) for z in ns]
    return n, t + ["%s = 2" % x], len(t) + 1, 1


def r_args(r):
    n = sizes(r, 300)
    d = r.choice([-1, 1])
    if n + d < 0:
        d = 1
    t = ["f(%s) {" % ", ".join("p%d: Int" % k for k in range(n)), "\tnoop", "}"]
    return n, t + ["f(%s)" % ", ".join("1" for _ in range(n + d))], 4, None


def r_type(r):
    n = sizes(r, 300)
    k = r.choice([0, n - 1, r.randrange(n)])
    t = ["f(%s) {" % ", ".join("p%d: %s" % (j, "Str" if j == k else "Int") for j in range(n)), "\tnoop", "}"]
    return n, t + ["f(%s)" % ", ".join("1" for _ in range(n))], 4, None


REJ = [r_unknown, r_unknown, r_twice, r_line, r_column, r_const, r_args, r_type]


def warns(w, r, rep):
    """n unused variables: n warnings"""
    n = sizes(r, 9000)
    ns = names(r, n)
    text = "".join("%s := 1\n" % x for x in ns)
    d = w.sub("c25w")
    with open(os.path.join(d, "a.sk"), "w") as f:
        f.write(text)
    res = w.server(r.choice(["plain", "asan"])).run(["a.sk", "-E"], d, 60)
    rep.eval(text, {"dimension": "warnings", "size": n})
    rep.cover["dimensions"].add("warnings")
    got = sorted(re.findall(r'line (\d+) column 1: variable "(\w+)" is unused', res.stderr.decode("utf-8", "replace")))
    want = sorted((str(k + 1), x) for k, x in enumerate(ns))
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif res.rc or got != want:
        rep.violation("warnings", "%d unused variables: exit %d and %d warnings; missing %s" % (n, res.rc, len(got), [x for x in want if x not in set(got)][:3]), {"source.sk": text})


def unit(w, i, rng, rep):
    progs, meta = [], []
    variant = "asan" if i % 2 else "plain"
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        dim = DIMS[(i * PER + k) % len(DIMS)] if r.random() < 0.7 else r.choice(DIMS)
        n, t, ev, ret = dim(r)
        use = [l for l in EXT.splitlines() if l.split("(")[0].split()[1] + "(" in "\n".join(t)]
        t = use + t
        if ret:
            t = t + ["return %d" % ret]
        nl = "\n"
        text = nl.join(t) + nl
        progs.append((text, r.choice(FLAGS) if dim not in (d_vars, d_locals, d_funcs, d_stmts) or n < 600 else []))
        meta.append((dim.__name__[2:].strip("_"), n, ev, ret))
    for (text, args), (dim, n, ev, ret), o in zip(progs, meta, w.batch(variant).run(progs)):
        rep.eval(text, {"dimension": dim, "size": n, "events": len(ev)})
        rep.cover["dimensions"].add(dim)
        rep.cover["sizes"].add("%s<=%d" % (dim, 1 << max(0, n - 1).bit_length()))
        rep.counts["events compared"] += len(ev)
        what = "%s of size %d (%s%s)" % (dim, n, " ".join(args), " asan" if variant == "asan" else "")
        keep = {"source.sk": text}
        c = o.compile
        if c.timed_out:
            rep.inconclusive.append("timeout " + dim)
        elif c.crashed:
            rep.violation("crash", "%s: the compiler crashes: status %d: %s" % (what, c.rc, c.stderr[-600:].decode("utf-8", "replace")), keep)
        elif c.rc:
            rep.violation("refused", "%s: refused: %s" % (what, c.stderr[-300:].decode("utf-8", "replace")), keep)
        elif o.err:
            rep.violation("output", "%s: %s" % (what, o.err[:400]), keep)
        elif o.status and (os.WTERMSIG(o.status) in (24, 14, 9)):
            rep.inconclusive.append("timeout " + dim)
        elif o.events != ev or not o.done or o.ret != ret:
            k = next((j for j, (a, b) in enumerate(zip(o.events, ev)) if a != b), min(len(o.events), len(ev)))
            rep.violation("behaviour", "%s: event %d of %d: expected %s, observed %s; ended %s, returned %s instead of %d" % (what, k, len(ev), (ev[k] if k < len(ev) else "the end")[:200], (o.events[k] if k < len(o.events) else "the end")[:200], bool(o.done), o.ret, ret), keep)
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        f = r.choice(REJ)
        n, t, line, col = f(r)
        use = [l for l in EXT.splitlines() if l.split("(")[0].split()[1] + "(" in "\n".join(t)]
        text = "\n".join(use + t) + "\n"
        d = w.sub("c25r")
        with open(os.path.join(d, "a.sk"), "w") as h:
            h.write(text)
        res = w.server(variant).run(["a.sk", "-E"], d, 60)
        rep.eval(text, {"fault": f.__name__[2:], "size": n})
        rep.cover["faults"].add(f.__name__[2:])
        what = "%s at size %d" % (f.__name__[2:], n)
        if res.timed_out:
            rep.inconclusive.append("timeout")
        elif res.crashed:
            rep.violation("crash", "%s: the compiler crashes: %s" % (what, res.stderr[-400:].decode("utf-8", "replace")), {"source.sk": text})
        elif res.rc != 1:
            rep.violation("accepted", "%s: exit status %d" % (what, res.rc), {"source.sk": text})
        else:
            m = re.search(rb"Compilation error: (?:line (\d+) column (\d+): )?", res.stderr)
            if not m:
                rep.violation("message", "%s: no error message: %s" % (what, res.stderr[-200:]), {"source.sk": text})
            elif m.group(1) and col is not None and (int(m.group(1)), int(m.group(2))) != (line + len(use), col):
                rep.violation("position", "%s: reported at line %s column %s, expected line %d column %d" % (what, m.group(1).decode(), m.group(2).decode(), line + len(use), col), {"source.sk": text})
    if i % 5 == 0:
        warns(w, random.Random(rng.getrandbits(64)), rep)
