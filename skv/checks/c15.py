"""Placement of control statements: statement kind x point of random nestings, and random single faults."""
import random
from .. import gen, lang, syntax
from . import _rej
from ._skel import Skel

PROP, LEVEL = "C15", "exploration"
RULE = ("(a) each control statement placed at random points of random nestings of if/elif/else, while and functions: accepted exactly where the rules "
        "allow it; statements placed after one that ends the block; functions whose last statement is or is not a return; (b) broken and incomplete "
        "constructs from a catalogue and other placement faults planted in random valid programs, paired with the valid twin; "
        "(c) small edits of the tokens of valid programs (cut short after any token, tokens dropped, doubled, swapped, put in, lines joined): "
        "what a recogniser more permissive than the documented syntax refuses has to be refused; "
        "non-trivial: every judged program; distinct by text")
ASSUMPTIONS = ["only compilation errors the documentation or the error catalogue names are planted"]
UNITS = {"quick": 300, "thorough": 12000}
VARIANTS = ("plain",)


def judge(w, d, r, rep, src, ok, msg, line, what):
    res = _rej.run(w, d, src, r.choice(_rej.MODES) if not ok else ["-E"])
    rep.counts["placements allowed" if ok else "placements refused"] += 1
    rep.eval(src, {"source": src[-300:], "acceptable": ok, "what": what})
    files = {"program.sk": src, "output.txt": res.out[-3000:]}
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif ok and res.rc != 0:
        rep.violation("valid-refused", "%s: should be accepted, got status %d %s" % (what, res.rc, res.out[-300:].decode("utf-8", "replace")), files)
    elif not ok and res.rc == 0:
        rep.violation("invalid-accepted", "%s: should be refused (%s) but is accepted" % (what, msg), files)
    elif not ok:
        es = _rej.errors(res)
        if res.rc != 1 or not es or (msg and not any(e[2] == msg and (e[1] is None or line is None or e[1][0] == line) for e in es)):
            rep.violation("wrong-message", "%s: expected '%s' at line %s, got status %d %s %s" % (
                what, msg, line, res.rc, es[:3], res.out[-200:].decode("utf-8", "replace")), files)


def placed(w, d, r, rep):
    sk = Skel(r, depth=r.randint(1, 5), kinds=("if", "while", "func"))
    last = [p for p in sk.points if p.last]
    for _ in range(6):
        k = r.choice(["break", "continue", "return", "value", "unreachable", "else", "elif", "external", "export", "noop"])
        ok, msg, lines = True, None, None
        if k in ("break", "continue"):
            p = r.choice(last)
            ok, msg, lines = p.scope.loop, k + " must be inside while loop", [k]
        elif k == "return":
            p = r.choice([q for q in last if q.scope.func] or last)
            if p.scope.func is None:
                continue
            lines = ["return"]
        elif k == "value":
            p = r.choice(last)
            lines = ["return %d" % r.randint(0, 9)]
            ok = p.scope.func is None
            msg = 'unexpected return from void function "%s"' % (p.scope.func.name if p.scope.func else "")
        elif k == "unreachable":
            p = r.choice(last)
            lines = ["unreachable"]
        elif k in ("else", "elif"):
            p = r.choice(sk.points)
            # what came before is no if or elif, whatever comments lie between
            lines = r.choice(["noop", "noop", "if true {\n\tnoop\n} else {\n\tnoop\n}", "if true {\n\tnoop\n} elif true {\n\tnoop\n} else {\n\tnoop\n}", "while true {\n\tbreak\n}",
                              "if true {\n\tnoop\n}\nnoop", "namespace n_ {\n\tnoop\n}", "vv_ := 1", "ff_() {\n\tif true {\n\t\tnoop\n\t}\n}"]).split("\n")
            lines += [r.choice(["# note", "#{ note #}", "#{ if true { #}"]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
            skip = len(lines)
            lines += [("else {" if k == "else" else "elif true {"), "\tnoop", "}"]
            ok, msg = False, "else/elif statement missing preceding if statement"
        elif k in ("external", "export"):
            p = r.choice(sk.points)
            lines = ["external zz_()"] if k == "external" else ["export zz_() {", "\tnoop", "}"]
            ok, msg = p.scope.kind == "top", 'cannot declare nested function "zz_" as external or exported'
        else:
            p = r.choice(sk.points)
            lines = ["noop"]
        src, at = sk.text({p.i: lines})
        line = at[p.i] + (skip if k in ("else", "elif") else 0)
        judge(w, d, r, rep, src, ok, msg, line, "%s in %s" % (k, p.scope.path()))
        rep.cover["placed"].add("%s in %s: %s" % (k, p.scope.kind, "allowed" if ok else "refused"))


AFTER = ["x_ := 1", "g_()", "if true {\n\tnoop\n}", "while true {\n\tbreak\n}", "mut y_ := 2.5", "h_() {\n\tnoop\n}", "namespace n_ {\n\tnoop\n}", "t_ := Int", "return", "return 4",
         "break", "continue", "external e_()", "export e_() {\n\tnoop\n}", "i_() Int {\n\treturn 1\n}", "s_: Str = \"a\"", "export v_ := 1", "else {\n\tnoop\n}"]


def dead(w, d, r, rep):
    """something after a statement that ends the block"""
    sk = Skel(r, depth=r.randint(1, 5), kinds=("if", "while", "func"))
    for _ in range(5):
        p = r.choice([q for q in sk.points if q.last])
        f, loop = p.scope.func, p.scope.loop
        ks = ["unreachable"] + (["break", "continue"] if loop else []) + (["return"] if f else ["return 3"])
        k = r.choice(ks)
        mid = r.choice([[], [], ["# note"], ["noop"], ["", "# x", ""]])
        good = r.random() < 0.35
        after = [] if good else r.choice(AFTER).split("\n")
        if good and r.random() < 0.3:
            mid = ["# trailing"]
        elif good:
            mid = []
        src, at = sk.text({p.i: [k] + mid + after}, ["external g_()"])
        judge(w, d, r, rep, src, good, "unreachable code", at[p.i] + 1 + len(mid), "%s after %s in %s" % (after or "nothing", k, p.scope.path()))
        rep.cover["after"].add("%s in %s" % (k.split()[0], p.scope.kind))


def deep(w, d, r, rep):
    """one statement at the bottom of a long chain of blocks"""
    for n in (r.randint(6, 20), r.choice([31, 32, 33, 63, 64, 65, 70, 130])):
        pure = r.random() < 0.5
        kinds = [r.choice(["while"] if pure else ["while", "while", "if", "else", "func"]) for _ in range(n)]
        if r.random() < 0.3:
            kinds = kinds[:-1] + [r.choice(["func", "if"])]
        out, tail, loop, func, fs = ["external g_()"], [], 0, False, 0
        for k in kinds:
            if k == "while":
                out, tail, loop = out + ["while true {"], ["}"] + tail, loop + 1
            elif k == "if":
                out, tail = out + ["if true {"], ["}"] + tail
            elif k == "else":
                out, tail = out + ["if true {", "g_()", "} else {"], ["}"] + tail
            else:
                fs += 1
                out, tail, loop, func = out + ["f%d_() {" % fs], ["}"] + tail, 0, True
        s = r.choice(["break", "continue", "return", "value", "dead"])
        ok, msg = True, None
        if s in ("break", "continue"):
            ok, msg = loop > 0, s + " must be inside while loop"
        elif s == "return":
            ok, msg = func, None
        elif s == "value":
            s, ok = "return 1", not func
            msg = 'unexpected return from void function "f%d_"' % fs
        else:
            s, ok, msg = "unreachable\ng_()", False, "unreachable code"
        src = "\n".join(out + s.split("\n") + tail) + "\n"
        judge(w, d, r, rep, src, ok, msg, None, "%r below %d blocks" % (s, n))
        rep.cover["depths"].add(n)


def returns(w, d, r, rep):
    """functions that must return a value: only a return (or unreachable) as the last statement will do"""
    ts = {"Int": "1", "Float": "1.5", "Bool": "true", "Rune": "'a'", "Str": '"s"'}
    for _ in range(5):
        t = r.choice(list(ts))
        sk = Skel(r, depth=r.randint(1, 4), kinds=("if", "while"))
        inner = [q for q in sk.points if q.last and q.scope.kind != "top"]
        fill = {q.i: ["return " + ts[t]] for q in inner if r.random() < 0.5}
        top = [q for q in sk.points if q.last and q.scope.kind == "top"][0]
        end = r.choice(["return", "none", "none"])
        if end == "return":
            fill[top.i] = ["return " + ts[t]]
        body, at = sk.text(fill)
        name = r.choice(["f_", "compute", "a"])
        wrapk = r.choice(["top", "top", "in_if", "in_fn", "in_while", "in_ns"])
        n = ["%s(p_: %s) %s {" % (name, r.choice(list(ts)), t)] + ["\t" + l for l in body.rstrip("\n").split("\n")] + ["}"]
        if wrapk != "top":
            h = {"in_if": "if true {", "in_fn": "outer_() {", "in_while": "while true {", "in_ns": "namespace nn_ {"}[wrapk]
            n = [h] + ["\t" + l for l in n] + ["}"]
        src = "\n".join(n) + "\n"
        judge(w, d, r, rep, src, end == "return", 'expected return value in function "%s"' % name, None,
              "value function ending in %s (%s)" % (end, wrapk))
        rep.cover["value functions"].add("%s %s" % (end, wrapk))


TINY = ["if", "while", "elif", "else", "if true", "while true", "if true {", "while true {", "return", "mut", "export", "external", "import", "namespace", "x", "x :=", "x: Int",
        "x: Int =", "x =", "mut x", "mut x :=", "f(", "f()", "f() {", "f(a", "f(a:", "f(a: Int", "f(a: Int,", "f(a: Int)", "f(a: Int) Int", "f(a: Int) Int {", "external f", "external f(",
        "external f()", "export f() {", "export x :=", "noop", "break", "continue", "unreachable", "not", "-", "(", ")", "{", "}", "x := 1 +", "x := not", "x := -", "x := (", "x := (1", "x := (1 +",
        "x := f(", "x := f(1", "x := f(1,", "x := &", "x := *", "if not", "if (", "if 1 is", "return (", "return 1 +", "return not", "a.b := 1", "a.b: Int = 1", "if: Int = 1", "true: Bool = true",
        "not: Bool = true", "mut if := 1", "return: Int = 1", "mod: Int = 1", "and := true", "while: Int = 1", "f(if: Int) {\n\tnoop\n}", "f(a.b: Int) {\n\tnoop\n}", "if() {\n\tnoop\n}",
        "NaN := 1.0", "Infinity := 1.0", "false := true", "NaN: Float = 1.0", "x: Int 5 6", "x: Int\n5", "x: Int mut 5", "x: Int := 5", "x: 5 = 5", "x := := 5", "x = = 5", "mut mut x := 1",
        "import 5", "import a.b", "import if", "import \"a\"", "external 5()", "external x := 1", "external x: Int = 1", "export noop", "export if true {\n\tnoop\n}", "else {\n\tnoop\n}"]


def broken(w, d, r, rep):
    """texts that are not programs, whatever their meaning might be"""
    p = gen.make(r)[0]
    text = lang.show(p, lang.RandomLayout(r) if r.random() < 0.3 else None)
    for j in range(24):
        if j % 3 == 2:
            t = r.choice(TINY)
            pre = r.choice(["", "", "noop\n", "# c\n", "if true {\n\tnoop\n}\n", "f_() {\n\tnoop\n}\n", "v_ := 1\n"])
            k, t = "fragment", pre + t + r.choice(["", "", "\n", " ", "\n\n", " # c", "\nnoop\n"])
        else:
            e = syntax.edit(r, text)
            if e is None:
                continue
            k, t = e
        why = syntax.why_not(t)
        if why is None:
            rep.counts["edits that may be programs"] += 1
            continue
        mode = r.choice(_rej.MODES)
        res = _rej.run(w, d, t, mode)
        rep.counts["broken texts"] += 1
        rep.cover["edits"].add(k)
        rep.cover["reasons"].add(why.split(": ", 1)[-1].split(", at")[0])
        rep.eval(t, {"edit": k, "why": why, "source": t[-200:], "status": res.rc})
        if res.timed_out:
            rep.inconclusive.append("timeout")
        elif res.rc != 1 or res.crashed or not _rej.errors(res):
            rep.violation("broken:" + k, "a text that is not a program (%s: %s) ends with status %d, %s (%s)" % (
                k, why, res.rc, _rej.errors(res)[:2], " ".join(mode)), {"program.sk": t, "output.txt": res.out[-2000:]})


def unit(w, i, rng, rep):
    k = i % 5
    d = w.sub("flow")
    if k == 0:
        for _ in range(6):
            placed(w, d, random.Random(rng.getrandbits(64)), rep)
    elif k == 1:
        for _ in range(4):
            dead(w, d, random.Random(rng.getrandbits(64)), rep)
            returns(w, d, random.Random(rng.getrandbits(64)), rep)
            deep(w, d, random.Random(rng.getrandbits(64)), rep)
    elif k == 2:
        for _ in range(3):
            broken(w, d, random.Random(rng.getrandbits(64)), rep)
    else:
        _rej.unit(w, i, rng, rep, PROP, 30, True)
