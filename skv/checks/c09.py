"""The same program behaves the same whatever optimisation, debug or output mode is chosen."""
import random
from .. import gen, lang
from ..lang import *
from . import _sem, c05, c06, c07, c08

PROP, LEVEL = "C09", "exploration"
RULE = ("each program is built in six ways out of: optimisation levels, -g, object file, assembly, LLVM IR and the "
        "executable the compiler links, and every build must produce the model's event log; non-trivial: at least one "
        "logged event; distinct by text, log and build")
ASSUMPTIONS = ["the host's cc, as and llc turn assembly and IR into faithful objects; IR output that needs the built-in "
               "helpers is only checked through the other outputs"]
UNITS = {"quick": 90, "thorough": 6000}
VARIANTS = ("plain",)
PER = 5
OPTS = [[], ["-O1"], ["-O2"], ["-O3"]]


def ways(r):
    out = [["-O%d" % r.randint(1, 3)], ["-g"], ["-S"] + r.choice(OPTS), ["-E"] + r.choice(OPTS), ["@exe"] + r.choice(OPTS),
           r.choice([["-g", "-O2"], ["-g", "-S"], ["-g", "-E"], ["-g", "@exe"], ["-g", "-O3"], ["-g", "-O1"]])]
    if r.random() < 0.15:
        out.append(["--llvm-no-verify"])
    return out


def program(r):
    x = r.random()
    if x < 0.4:
        return gen.make(r, **(dict() if r.random() < 0.6 else dict(stmts=(8, 20))))
    return r.choice([c05, c06, c07, c08]).program(r)[:4]


def unit(w, i, rng, rep):
    ps = []
    for _ in range(PER):
        p = program(rng)
        for a in ways(rng):
            ps.append(tuple(p) + (None, a))
            rep.cover["builds"].add(" ".join(a))
    _sem.run_sem(w, rng, rep, ps)
