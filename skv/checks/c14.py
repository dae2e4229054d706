"""Name resolution: declaration point x use point over random nestings, and random single faults."""
import random
from . import _rej
from ._skel import Skel, path_to

PROP, LEVEL = "C14", "exploration"
RULE = ("(a) a variable, function, alias or namespace declared at a random point of a random nesting of blocks, functions and namespaces and "
        "used, or declared again, at another point: accepted exactly when the scoping rules say so; (b) programs with many similar names and one "
        "that was never declared; (c) one name fault planted in a random valid program, paired with the valid twin; "
        "non-trivial: every judged program; distinct by text")
ASSUMPTIONS = ["use of a function's local variable from a function nested in it is not generated (closures are undocumented)"]
UNITS = {"quick": 240, "thorough": 12000}
VARIANTS = ("plain",)
NAMES = ["x", "y1", "value", "a_b", "Z", "T9", "main", "aa", "iff", "truee", "Integer", "printf", "x" * 40]
LITS = {"Int": "1", "Float": "1.5", "Bool": "true", "Rune": "'a'", "Str": '"s"'}


def declare(kind, name, t):
    if kind == "variable":
        return ["%s := %s" % (name, LITS[t])]
    if kind == "mutable":
        return ["mut %s := %s" % (name, LITS[t])]
    if kind == "function":
        return ["%s() %s {" % (name, t), "\treturn %s" % LITS[t], "}"]
    if kind == "alias":
        return ["%s := %s" % (name, t)]
    return ["namespace %s {" % name, "\tmem_ := %s" % LITS[t], "}"]


def use(kind, path, t, r):
    """(lines, column of the name in the last line, message when missing)"""
    v = "variable \"%s\" not found"
    if kind in ("variable", "mutable"):
        f = r.choice(["q_ := %s", "q_ := %s is %%s" % "%s", "out_(%s)", "q_ := (%s)"])
        if "is" in f:
            f = "q_ := %s is " + LITS[t]
        pre = f.split("%s")[0]
        return [f % path], len(pre), v % path
    if kind == "function":
        f = r.choice(["q_ := %s()", "%s()", "out_(%s())"])
        return [f % path], len(f.split("%s")[0]), 'function "%s" missing declaration' % path
    if kind == "alias":
        f = r.choice(["q_: %s = " + LITS[t], "mut q_: %s = " + LITS[t]])
        return [f % path], len(f.split("%s")[0]), 'type "%s" could not be found' % path
    return ["q_ := %s.mem_" % path], 6, v % (path + ".mem_")


def visibility(w, d, r, rep):
    sk = Skel(r, depth=r.randint(1, 4))
    for _ in range(5):
        kind = r.choice(["variable", "mutable", "function", "alias", "namespace"])
        a, b = r.choice(sk.points), r.choice(sk.points)
        if kind == "namespace" and a.scope.func is not None:
            continue
        name, t = r.choice(NAMES), r.choice(list(LITS))
        pre = path_to(a, b)
        if a is b:
            pre = ""
        if kind == "alias" and pre:
            continue                   # aliases through namespaces are not documented
        if pre is not None and kind in ("variable", "mutable", "namespace") and a.scope.func is not None and a.scope.func is not b.scope.func:
            continue
        shown = name if pre is None else pre + name
        if pre is None and r.random() < 0.3 and a.scope.kind == "ns" and kind != "alias":
            shown = a.scope.name + "." + name
            if path_to(a, b) == "" or b.scope.within(a.scope) or a.scope.parent.kind == "ns":
                continue
        lines, col, msg = use(kind, shown, t, r)
        dec = declare(kind, name, t)
        fill = {a.i: dec}
        fill[b.i] = fill.get(b.i, []) + lines
        src, at = sk.text(fill, ["external out_(a: %s)" % t])
        line = at[b.i] + (len(dec) if a is b else 0)
        txt = src.split("\n")[line - 1]
        pos = (line, 1 + len(txt) - len(txt.lstrip("\t")) + col)
        judge(w, d, r, rep, src, pre is not None, msg, pos, "%s declared in %s, used in %s as %s" % (kind, a.scope.path(), b.scope.path(), shown))
        rep.cover["visibility"].add("%s %s" % (kind, "visible" if pre is not None else "hidden"))
        rep.cover["from scope to scope"].add(a.scope.kind + ">" + b.scope.kind)


def redeclare(w, d, r, rep):
    sk = Skel(r, depth=r.randint(1, 4))
    kinds = ["variable", "mutable", "function", "alias", "namespace"]
    for _ in range(5):
        k1, k2 = r.choice(kinds), r.choice(kinds)
        a, b = r.choice(sk.points), r.choice(sk.points)
        if a.i > b.i:
            a, b = b, a
        if any(k == "namespace" and q.scope.func is not None for k, q in ((k1, a), (k2, b))):
            continue
        clash = b.scope.within(a.scope)
        name = r.choice(NAMES)
        t1, t2 = r.choice(list(LITS)), r.choice(list(LITS))
        d1, d2 = declare(k1, name, t1), declare(k2, name, t2)
        fill = {a.i: d1}
        fill[b.i] = fill.get(b.i, []) + d2
        src, at = sk.text(fill)
        judge(w, d, r, rep, src, not clash, None, None, "%s declared in %s, then %s in %s" % (k1, a.scope.path(), k2, b.scope.path()))
        rep.cover["redeclaration"].add("%s/%s %s" % (k1, k2, "clash" if clash else "apart"))


def judge(w, d, r, rep, src, ok, msg, pos, what):
    res = _rej.run(w, d, src, r.choice(_rej.MODES) if not ok else ["-E"])
    rep.counts["names visible" if ok else "names refused"] += 1
    rep.eval(src, {"source": src[-300:], "acceptable": ok, "what": what})
    files = {"program.sk": src, "output.txt": res.out[-3000:]}
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif ok and res.rc != 0:
        rep.violation("valid-refused", "%s: should be accepted, got status %d %s" % (what, res.rc, res.out[-300:].decode("utf-8", "replace")), files)
    elif not ok and res.rc == 0:
        rep.violation("invalid-accepted", "%s: should be refused (%s) but is accepted" % (what, msg or "redeclaration"), files)
    elif not ok:
        es = _rej.errors(res)
        if res.rc != 1 or not es or (msg and not any(e[2] == msg and e[1] == pos for e in es)):
            rep.violation("wrong-message", "%s: expected '%s' at %s, got status %d %s %s" % (
                what, msg, pos, res.rc, es[:3], res.out[-200:].decode("utf-8", "replace")), files)


def near(r, n):
    """a name almost equal to n"""
    x = r.randint(0, 5)
    i = r.randrange(len(n))
    if x == 0:
        return n + r.choice("a0_")
    if x == 1 and len(n) > 1:
        return n[:-1]
    if x == 2:
        return n[:i] + n[i].swapcase() + n[i + 1:]
    if x == 3 and len(n) > 1:
        j = r.randrange(len(n))
        l = list(n)
        l[i], l[j] = l[j], l[i]
        return "".join(l)
    if x == 4:
        return "a" + n
    return n[:i] + r.choice("abcxyz_") + n[i + 1:]


TAKEN = set("k_ q_ out_ mem_ if elif else while return break continue noop unreachable mut export external import namespace true false and or xor not is isnt mod Int Float Bool Rune Str Void Infinity NaN".split())


def crowds(w, d, r, rep):
    """many similar names; one that is not among them"""
    base = "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(r.choice([1, 2, 5, 9, 17, 33, 70])))
    names, want = [], r.choice([2, 5, 20, 60, 150, 400])
    pool = [base]
    while len(names) < want:
        n = near(r, r.choice(pool))
        if n and n[0].isalpha() and n not in names and n not in TAKEN:
            names.append(n)
            pool.append(n)
    missing = names.pop()
    kind = r.choice(["variable", "function", "alias", "mixed"])
    head, t = [], "Int"
    for i, n in enumerate(names):
        k = kind if kind != "mixed" else r.choice(["variable", "function", "alias"])
        head += declare(k, n, t)
    ok = r.random() < 0.3
    if ok:
        head += declare(kind if kind != "mixed" else "variable", missing, t)
    lines, col, msg = use(kind if kind != "mixed" else "variable", missing, t, r)
    src = "\n".join(["external out_(a: Int)"] + head + lines) + "\n"
    judge(w, d, r, rep, src, ok, msg, (src.count("\n"), 1 + col), "%d declared names like %s, use of %s" % (len(names), names[0], missing))
    rep.cover["crowd size"].add(want)


def unit(w, i, rng, rep):
    k = i % 4
    d = w.sub("names")
    if k == 0:
        for _ in range(8):
            visibility(w, d, random.Random(rng.getrandbits(64)), rep)
    elif k == 1:
        for _ in range(6):
            redeclare(w, d, random.Random(rng.getrandbits(64)), rep)
        for _ in range(5):
            crowds(w, d, random.Random(rng.getrandbits(64)), rep)
    else:
        _rej.unit(w, i, rng, rep, PROP, 25, True)
