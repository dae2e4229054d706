"""Shared by the checks that compare real executions with the reference model."""
import random
from .. import gen, lang


def first_diff(got, want):
    k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
    return "event %d: expected %s, observed %s (of %d expected, %d observed)" % (
        k, want[k] if k < len(want) else "end of program", got[k] if k < len(got) else "end of program",
        len(want), len(got))


def judge(o, ev, ret, exe=False):
    """None if the observation o agrees with the model, else (kind, message);
    kind 'inconclusive' when nothing can be concluded."""
    c = o.compile
    if c.timed_out:
        return "inconclusive", "compiler timed out"
    if c.crashed or c.signal:
        return "compiler-crash", "compiler crashed: status %d\n%s" % (c.status, c.out.decode("utf-8", "replace")[-1500:])
    if c.rc != 0:
        return "rejected", "a valid program was rejected (exit %d): %s" % (c.rc, c.out.decode("utf-8", "replace")[-300:])
    if o.err == "skip":
        return "skip", ""
    if o.err:
        return "unusable", o.err
    if o.status is None:
        return "inconclusive", "program was not run"
    import os, signal
    if os.WIFSIGNALED(o.status):
        s = os.WTERMSIG(o.status)
        if s in (signal.SIGKILL, signal.SIGALRM):
            return "inconclusive", "program timed out"
        if s == signal.SIGXCPU:
            return "hang", "program did not terminate within 5 s of CPU (the model needs < 40000 steps); " \
                + first_diff(o.events, ev)
        return "program-crash", "program died with signal %d after %s" % (s, first_diff(o.events, ev))
    if o.events != ev:
        return "behaviour", first_diff(o.events, ev)
    if not o.done:
        return "exit", "program ended early (status %d)" % o.status
    if o.ret != (ret & 255 if exe else ret):
        return "return", "expected return value %s, observed %s" % (ret, o.ret)
    return None


def run_sem(w, rng, rep, progs, args=None, variant="plain"):
    """progs: list of (program, events, ret, interp, layout or None, args or None)."""
    items = []
    for p in progs:
        text = lang.show(p[0], p[4])
        items.append((text, list(p[5] or args or [])))
    obs = w.batch(variant).run(items)
    for (text, a), p, o in zip(items, progs, obs):
        ev, ret, it = p[1], p[2], p[3]
        rep.counts["events_observed"] += len(o.events or [])
        rep.counts["programs_run"] += o.status is not None
        for h in it.hits:
            rep.cover["reached"].add(h)
        j = judge(o, ev, ret, "@exe" in a)
        rep.eval(repr((ev, ret, a)) + text if len(ev) >= 1 else None,
                 {"program": text[-700:], "events": len(ev), "first_events": ev[:5], "returned": ret})
        if j is None or j[0] == "skip":
            continue
        if j[0] == "inconclusive":
            rep.inconclusive.append(j[1])
            continue
        rep.violation(j[0], j[1] + "\nflags: %s" % " ".join(a),
                      {"program.sk": text, "expected.txt": "\n".join(ev) + "\nreturn %s\n" % ret,
                       "observed.txt": "\n".join(o.events or []) + "\nreturn %s\n" % o.ret})


FLAGS = [[]] * 13 + [["-g"]] * 3 + [["-O1"], ["-O2"], ["-O3"], ["-g", "-O2"]]


def dress(r, made, flags=True):
    """(program, events, ret, interp) -> with a layout and flags picked at random."""
    lay = lang.RandomLayout(random.Random(r.getrandbits(64))) if r.random() < 0.35 else None
    return tuple(made) + (lay, list(r.choice(FLAGS)) if flags else None)


def walk(body, depth=0):
    """every statement with its nesting depth"""
    for s in body:
        yield s, depth
        if isinstance(s, lang.If):
            for _, b in s.arms:
                yield from walk(b, depth + 1)
            if s.els is not None:
                yield from walk(s.els, depth + 1)
        elif isinstance(s, lang.While):
            yield from walk(s.body, depth + 1)
        elif isinstance(s, lang.Namespace):
            yield from walk(s.body, depth + 1)
        elif isinstance(s, lang.FnDef) and s.fn.body:
            yield from walk(s.fn.body, depth + 1)


def shapes(p, rep):
    """statement kinds by nesting depth, for the evidence file"""
    for s, d in walk(p.body):
        rep.cover["statements_at_depth"].add("%s@%d" % (getattr(s, "kw", type(s).__name__), min(d, 9)))


class B:
    """Hand-written program shapes: fresh names, logging calls, globals."""

    def __init__(self, r, **prof):
        self.g = gen.Gen(r, **prof)
        self.r = r
        self.tag = 0

    def i(self, v):
        return self.g.int_lit(v)

    def log(self, e=None):
        if e is None:
            self.tag += 1
            e = self.g.int_lit(self.tag)
        return lang.Do(lang.Call(self.g.native("sk_p" + gen.SUF[e.type]), [e]))

    def q(self, e):
        return lang.Call(self.g.native("sk_q" + gen.SUF[e.type]), [e])

    def gl(self, e):
        return lang.Call(self.g.native("sk_g" + gen.SUF[e.type]), [e])

    def b(self, v):
        return lang.Lit(lang.BOOL, bool(v), "true" if v else "false")

    def var(self, t, mut=False, name=None):
        v = lang.Var(name or self.g.fresh(), t, mut, self.g.func, len(self.g.scopes))
        self.g.declare(v)
        return v

    def func(self, params, ret, body, name=None, export=False):
        """body(fn) -> statements, built inside the function's scope"""
        g = self.g
        f = lang.Func(name or g.fresh(), [], ret, export=export)
        g.declare(f)
        old = (g.func, g.loop)
        g.push()
        g.func, g.loop = f, 0
        f.owner = old[0]
        for t in params:
            f.params.append(self.var(t))
        f.body = body(f)
        g.pop()
        g.func, g.loop = old
        f.done = True
        return lang.FnDef(f)

    def finish(self, body, fuel=40000):
        p = lang.Program(body, [])
        p.externs = sorted(self.g.used.values(), key=lambda f: f.name)
        ev, ret, it = gen.settle(p, self.g, fuel=fuel)
        return p, ev, ret, it
