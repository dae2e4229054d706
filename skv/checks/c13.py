"""Constants: assignments refused from everywhere, and values unchanged at run time."""
import random
from . import _rej, _sem
from ._skel import Skel, path_to
from .. import gen, lang
from ..lang import *

PROP, LEVEL = "C13", "exploration"
RULE = ("(a) a constant or mutable variable declared at a random point of a random nesting of blocks, functions and namespaces and assigned at "
        "another point that sees it: refused exactly when it is constant; (b) an assignment to a constant planted in a random valid program; "
        "(c) random programs whose constants are logged where they are defined and again at the end of every block that sees them, "
        "while the variables they were computed from change; non-trivial: every judged program; distinct by text")
ASSUMPTIONS = ["assignments from a function nested in the declaring function are not generated (closures are undocumented)"]
UNITS = {"quick": 240, "thorough": 12000}
VARIANTS = ("plain",)
LITS = {"Int": ["1", "0x7F", "-3"], "Float": ["1.5", "Infinity"], "Bool": ["true", "false"], "Rune": ["'a'", "'\\n'"], "Str": ['"s"', '""']}


def places(w, rng, rep, n):
    d = w.sub("pl")
    for _ in range(n):
        r = random.Random(rng.getrandbits(64))
        sk = Skel(r, depth=r.randint(1, 4))
        pairs = []
        for a in sk.points:
            for b in sk.points:
                p = path_to(a, b)
                if p is not None and (a.scope.func is None or a.scope.func is b.scope.func):
                    pairs.append((a, b, p))
        same = [(a, a, "") for a in sk.points]
        for _ in range(4):
            a, b, pre = r.choice(pairs or same) if r.random() < 0.9 else r.choice(same)
            t = r.choice(list(LITS))
            mut = r.random() < 0.4
            name = r.choice(["x", "value", "a_b", "Z9", "init", "mutt", "const"])
            form = r.choice(["infer", "typed", "expr", "ref"])
            head, decl, new = [], [], r.choice(LITS[t])
            kw = "mut " if mut else ("export " if a.scope.kind == "top" and r.random() < 0.4 and form != "ref" else "")
            if form == "ref":
                head = ["mut one_ := %s" % LITS[t][0], "mut two_ := %s" % LITS[t][1]]
                decl, new = ["%s%s := &one_" % (kw, name)], "&two_"
            elif form == "typed":
                decl = ["%s%s: %s = %s" % (kw, name, t, LITS[t][0])]
            elif form == "expr" and kw != "export ":
                head = ["external gg() %s" % t]
                decl = ["%s%s := gg()" % (kw, name)]
            else:
                decl = ["%s%s := %s" % (kw, name, LITS[t][0])]
            asg = "%s%s = %s" % (pre, name, new)
            fill = {a.i: decl}
            fill.setdefault(b.i, [])
            fill[b.i] = fill[b.i] + [asg]
            src, at = sk.text(fill, head)
            line = at[b.i] + (len(decl) if a is b else 0)
            col = 1 + len(src.split("\n")[line - 1]) - len(src.split("\n")[line - 1].lstrip("\t"))
            res = _rej.run(w, d, src, r.choice(_rej.MODES) if not mut else ["-E"])
            rep.counts["assignments to constants" if not mut else "assignments to mutable variables"] += 1
            rep.cover["assigned from"].add(a.scope.kind + " -> " + b.scope.path())
            rep.eval(src, {"source": src[-300:], "mutable": mut})
            files = {"program.sk": src, "output.txt": res.out[-3000:]}
            what = "%s declared in %s, assigned in %s" % (decl[0], a.scope.path(), b.scope.path())
            if res.timed_out:
                rep.inconclusive.append("timeout")
            elif mut and res.rc != 0:
                rep.violation("mutable-refused", "assignment to a mutable variable refused (%s): %s" % (what, res.out[-300:].decode("utf-8", "replace")), files)
            elif not mut and res.rc == 0:
                rep.violation("constant-assigned", "assignment to a constant accepted (%s)" % what, files)
            elif not mut:
                want = 'cannot reassign const variable "%s%s"' % (pre, name)
                es = _rej.errors(res)
                if res.rc != 1 or not any(e[1] == (line, col) and e[2] == want for e in es):
                    rep.violation("constant-message", "%s: expected '%s' at line %d column %d, got status %d %s" % (
                        what, want, line, col, res.rc, es[:3]), files)


def watch(g, body, env, fn):
    """log constants after their definition and at the end of every block"""
    mine, out = list(env), []

    def log(v):
        return Do(Call(g.native("sk_p" + gen.SUF[v.type]), [Use(v)]))
    for s in body:
        if isinstance(s, If):
            s.arms = [(c, watch(g, b, mine, fn)) for c, b in s.arms]
            if s.els is not None:
                s.els = watch(g, s.els, mine, fn)
        elif isinstance(s, While):
            s.body = watch(g, s.body, mine, fn)
        elif isinstance(s, Namespace):
            s.body = watch(g, s.body, mine, fn)
        elif isinstance(s, FnDef) and s.fn.body:
            glob = [v for v in mine if v.owner is None]
            s.fn.body = watch(g, s.fn.body, glob + [p for p in s.fn.params if p.type in gen.SUF], s.fn)
        out.append(s)
        if isinstance(s, Def) and not s.var.mut and s.var.type in gen.SUF:
            mine.append(s.var)
            out.append(log(s.var))
    end = [log(v) for v in mine[-6:]]
    if out and (isinstance(out[-1], Return) or isinstance(out[-1], Simple) and out[-1].kw != "noop"):
        return out[:-1] + end + out[-1:]
    return out + end


PROFS = [dict(w=dict(d=8, a=9, p=2, f=2, i=3, w=3, n=1, al=0, c=0, no=0, u=0, r=3), depth=3, stmts=(5, 12), expr=2, lit=0.1),
         dict(w=dict(d=8, a=8, p=1, f=5, i=2, w=2, n=2, al=0, c=0, no=0, u=0, r=2), depth=3, stmts=(4, 9), expr=1, lit=0.1)]


def frozen(r):
    while True:
        g = gen.Gen(r, **r.choice(PROFS))
        p = g.program()
        p.body = watch(g, p.body, [], None)
        p.externs = sorted(g.used.values(), key=lambda f: f.name)
        try:
            ev, ret, it = gen.settle(p, g)
        except gen.GiveUp:
            continue
        return p, ev, ret, it


def unit(w, i, rng, rep):
    k = i % 4
    if k == 0:
        places(w, rng, rep, 12)
    elif k == 1:
        progs = [_sem.dress(r, frozen(r)) for r in (random.Random(rng.getrandbits(64)) for _ in range(12))]
        _sem.run_sem(w, rng, rep, progs)
    else:
        _rej.unit(w, i, rng, rep, PROP, 24, True)
