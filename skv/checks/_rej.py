"""Shared by the checks on rejected programs."""
import os, random, re
from .. import lang
from . import _faults

LINE = re.compile(r"^(.*?): Compilation error: (?:line (\d+) column (\d+): )?(.*)$", re.M)


def errors(res):
    t = res.stderr.decode("utf-8", "replace")
    return [(m.group(1), (int(m.group(2)), int(m.group(3))) if m.group(2) else None, m.group(4)) for m in LINE.finditer(t)]


def run(w, d, text, args=("-E",), variant="plain", name="a.sk"):
    with open(os.path.join(d, name), "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape") if isinstance(text, str) else text)
    return w.server(variant).run([name] + list(args), d, 20)


MODES = [["-E"], ["-E"], ["-E"], ["-c"], ["-S"], ["--c-backend"], ["-E", "-g"], ["-c", "-O2"], ["--c-backend", "-E"]]


def unit(w, i, rng, rep, group, per, check_pos=False, layouts=0.25):
    d = w.sub("rej")
    kinds = _faults.GROUPS[group]
    for k in range(per):
        r = random.Random(rng.getrandbits(64))
        # every kind of fault in turn, so that none is left to chance
        kind = (group, kinds[(i * per + k) % len(kinds)])
        f = _faults.make(r, kind=kind, layout=lang.RandomLayout if r.random() < layouts else None)
        if f is None:
            continue
        mode = r.choice(MODES)
        bad = run(w, d, f.text, mode)
        cmode = mode if "--c-backend" not in mode else ["-E"]
        good = run(w, d, f.good, cmode)
        rep.counts["faults"] += 1
        rep.counts["controls"] += 1
        rep.cover["fault kinds"].add(f.kind)
        rep.cover["places"].add(f.where)
        rep.eval(f.text, {"kind": f.kind, "place": f.where, "source": f.text[-300:], "message": f.msg})
        files = {"faulty.sk": f.text, "valid.sk": f.good, "output.txt": bad.out[-4000:]}
        what = "%s at %s" % (f.kind, f.where)
        if bad.timed_out or good.timed_out:
            rep.inconclusive.append("timeout")
            continue
        if good.rc != 0:
            rep.violation("valid-rejected", "the fault-free twin of a '%s' program is refused (exit %d, %s): %s" % (
                what, good.rc, " ".join(cmode), good.out.decode("utf-8", "replace")[-300:]), files)
            continue
        if bad.rc == 0:
            rep.violation("accepted:" + f.kind, "a program with a '%s' fault is accepted (%s), line %d; expected: %s" % (
                what, " ".join(mode), f.slot_line, f.msg), files)
            continue
        if bad.rc != 1 or bad.crashed:
            rep.violation("status:" + f.kind, "a program with a '%s' fault ends with status %d: %s" % (
                what, bad.rc, bad.out.decode("utf-8", "replace")[-300:]), files)
            continue
        es = errors(bad)
        if not es:
            rep.violation("no-message:" + f.kind, "a program with a '%s' fault is refused without a compilation error: %s" % (
                what, bad.out.decode("utf-8", "replace")[-300:]), files)
            continue
        if f.msg is not None and not any(e[2] == f.msg for e in es):
            rep.violation("message:" + f.kind, "a program with a '%s' fault: expected the error '%s', got %s" % (what, f.msg, es[:3]), files)
            continue
        if check_pos and f.pos is not None and not any(e[1] == tuple(f.pos) and f.msg in (None, e[2]) for e in es):
            rep.violation("position:" + f.kind, "a program with a '%s' fault: expected it at line %d column %d, got %s" % (
                what, f.pos[0], f.pos[1], es[:3]), files)
