"""Typing rules: the full operator and context tables, then random single faults."""
import itertools
from . import _rej

PROP, LEVEL = "C12", "exploration"
RULE = ("(a) every operator applied to every pair of operand types and every typed context (definition, assignment, argument, return, "
        "condition) given every type, accepted or refused as the rules say; (b) one typing fault planted at a random place of a random valid "
        "program, which must be refused with exit status 1 and the message and position of that fault, while the program without "
        "the fault is accepted; non-trivial: every judged program; distinct by text")
ASSUMPTIONS = ["the fault-free twin of every faulty program is compiled as control",
               "the position of an expression is that of its first operand"]
UNITS = {"quick": 200, "thorough": 12000}
VARIANTS = ("plain",)
MATRIX = 40                            # the first units split the tables between them

PRE = """external pi(a: Int)
external pf(a: Float)
external pb(a: Bool)
external pr(a: Rune)
external ps(a: Str)
external gi() Int
external gf() Float
external gb() Bool
external gr() Rune
external gs() Str
vv() {
	noop
}
ci := 7
cf := 7.5
cb := true
cr := 'c'
cs := "c"
mut mi := 3
mut mf := 3.5
mut mb := true
mut mr := 'm'
mut ms := "m"
mi = gi()
mf = gf()
mb = gb()
mr = gr()
ms = gs()
ri := &mi
rf := &mf
rb := &mb
rr := &mr
rs := &ms
rri := &ri
"""
NPRE = PRE.count("\n")
FORMS = {
    "Int": ["3", "ci", "mi", "gi()", "*ri"], "Float": ["2.5", "cf", "mf", "gf()", "*rf"], "Bool": ["false", "cb", "mb", "gb()", "*rb"],
    "Rune": ["'x'", "cr", "mr", "gr()", "*rr"], "Str": ['"x"', "cs", "ms", "gs()", "*rs"],
    "&Int": ["ri", "*rri"], "&Float": ["rf"], "&Bool": ["rb"], "&Rune": ["rr"], "&Str": ["rs"], "&&Int": ["rri"], "Void": ["vv()"],
}
TYPES = list(FORMS)
NUM = ("Int", "Float")
OPS = {"+": NUM, "-": NUM, "*": NUM, "/": NUM, "mod": NUM, "^": NUM, "<": NUM, ">": NUM, "<=": NUM, ">=": NUM,
       "<<": ("Int",), ">>": ("Int",), "and": ("Bool",), "or": ("Bool",), "xor": ("Bool",),
       "is": [t for t in TYPES if t != "Void"], "isnt": [t for t in TYPES if t != "Void"]}


def table():
    """(source tail, acceptable?, what) of every cell"""
    for op, a, b in itertools.product(OPS, TYPES, TYPES):
        ok = a == b and a in OPS[op]
        for k, (x, y) in enumerate(itertools.product(FORMS[a], FORMS[b])):
            if op == "^" and "*" in x + y:
                x, y = "(%s)" % x, "(%s)" % y      # unary operators bind less tightly than the power operator
            # redundant combinations of the refused cells are thinned out
            if not ok and k % 3 != hash_(op + a + b) % 3:
                continue
            yield "z := %s %s %s" % (x, op, y), ok, "%s %s %s" % (a, op, b)
    for a in TYPES:
        for x in FORMS[a]:
            px = "(%s)" % x if x[0] == "*" else x
            yield "z := not %s" % px, a == "Bool", "not " + a
            yield "z := - %s" % px, a in NUM, "- " + a
            yield "z := %s" % x, a != "Void", "definition from " + a
            for c in ("if %s {\n\tnoop\n}", "if cb {\n\tnoop\n}\nelif %s {\n\tnoop\n}", "while %s {\n\tbreak\n}",
                      "if cb {\n\tnoop\n}\nelif mb {\n\tnoop\n}\nelif %s {\n\tnoop\n}\nelse {\n\tnoop\n}"):
                yield c % x, a == "Bool", "condition " + a
            for b in TYPES:
                if b == "Void":
                    continue
                yield "z: %s = %s" % (b, x), a == b, "define %s as %s" % (a, b)
                yield "mut z: %s = %s\nz = %s" % (b, [f for f in FORMS[b]][-1], x), a == b, "assign %s to %s" % (a, b)
                yield "h(p: %s) {\n\tnoop\n}\nh(%s)" % (b, x), a == b, "pass %s as %s" % (a, b)
                yield "h(o: Int, p: %s, q: Str) {\n\tnoop\n}\nh(1, %s, \"\")" % (b, x), a == b, "pass %s as %s" % (a, b)
                yield "h() %s {\n\treturn %s\n}" % (b, x), a == b, "return %s as %s" % (a, b)
                yield "h() %s {\n\tif mb {\n\t\treturn %s\n\t}\n\treturn %s\n}" % (b, x, FORMS[b][0]), a == b, "return %s as %s" % (a, b)
                yield "h() %s {\n\tif mb {\n\t\treturn %s\n\t}\n\treturn %s\n}" % (b, FORMS[b][0], x), a == b, "return %s as %s" % (a, b)
            yield "h() {\n\treturn %s\n}" % x, False, "return %s from void" % a
            if a != "Int":
                yield "return %s" % x, False, "return %s from main" % a
    for n in range(0, 7):
        for k in range(0, 9):
            ps = ", ".join("a%d: Int" % i for i in range(n))
            yield "h(%s) {\n\tnoop\n}\nh(%s)" % (ps, ", ".join("ci" if i % 2 else "2" for i in range(k))), n == k, "%d arguments for %d" % (k, n)
    for a in TYPES:
        for b in TYPES:
            yield "h(p: %s) {\n\tnoop\n}" % a, a != "Void", "parameter of type " + a
            yield "h(o: %s, p: %s) Int {\n\treturn 1\n}" % (b, a), "Void" not in (a, b), "parameters of types %s, %s" % (b, a)
            yield "external h(o: %s, p: %s)\n" % (b, a), "Void" not in (a, b), "parameters of types %s, %s" % (b, a)
    yield "h(p: &Void) {\n\tq_ := *p\n}", False, "dereference of a &Void"
    yield "h(p: &&Void) {\n\tq_ := *p\n}", True, "dereference of a &&Void"
    for n in (9, 17, 33, 40, 65, 70):
        for k in (0, 7, 8, 15, 16, 31, 32, 39, 63, 64, 69):
            if k >= n:
                continue
            for a in ("Int", "Str", "Float", "Bool", "Rune"):
                ps = ", ".join("a%d: %s" % (i, a if i == k else "Int") for i in range(n))
                yield "h(%s) {\n\tnoop\n}\nh(%s)" % (ps, ", ".join("2" for i in range(n))), a == "Int", "argument %d of %d" % (k, n)
    for v in "ci mi cf cs".split():
        yield "z := *%s" % v, False, "dereference of a value"
    for v in "3 2.5 true 'x' \"x\" gi() vv()".split():
        yield "z := &%s" % v, False, "reference to a non-variable"
    yield "z := **rri", False, "double dereference"


def hash_(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


def matrix(w, i, rep):
    d = w.sub("mat")
    for k, (tail, ok, what) in enumerate(table()):
        if k % MATRIX != i:
            continue
        inside = k % 5 == 4 and "h(" not in tail and "\nreturn" not in tail and not tail.startswith("return")
        if inside:
            tail = "deep() {\n\tif cb {\n" + "\n".join("\t\t" + l for l in tail.split("\n")) + "\n\t}\n}"
        src = PRE + tail + "\n"
        res = _rej.run(w, d, src)
        rep.counts["table cells"] += 1
        rep.eval(src, {"source": tail, "acceptable": ok})
        rep.cover["operators and contexts"].add(what.split()[0] if what[0] != "-" else "-")
        if res.timed_out:
            rep.inconclusive.append("timeout")
            continue
        files = {"program.sk": src, "output.txt": res.out[-3000:]}
        if ok and res.rc != 0:
            rep.violation("table-rejected", "well-typed (%s) but refused: %s\n%s" % (what, tail, res.out[-300:].decode("utf-8", "replace")), files)
        elif not ok and res.rc == 0:
            rep.violation("table-accepted", "ill-typed (%s) but accepted: %s" % (what, tail), files)
        elif not ok and (res.rc != 1 or not _rej.errors(res)):
            rep.violation("table-status", "ill-typed (%s): no proper compilation error for: %s (status %d) %s" % (
                what, tail, res.rc, res.out[-300:].decode("utf-8", "replace")), files)


def unit(w, i, rng, rep):
    if i < MATRIX:
        matrix(w, i, rep)
    else:
        _rej.unit(w, i, rng, rep, PROP, 30, True)
