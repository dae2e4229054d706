"""Error reports: position, format, exit status, and no output file touched."""
import os, random, re
from types import SimpleNamespace
from . import _faults, _rej
from .. import lang

PROP, LEVEL = "C16", "exploration"
RULE = ("one fault of a known kind planted at a known token of a random program in a random layout, behind random obstacles (comments, block comments, "
        "multi-byte characters, tabs, CRLF, raw newlines in strings, very long lines, a byte-order mark); compiled under a random path and mode, with an output file of an earlier "
        "run in place; the report's file, line, column, text, stream and exit status and the directory contents are compared with the plant; "
        "non-trivial: every judged program; distinct by text and command")
ASSUMPTIONS = ["columns count characters, the first line and column are 1; expressions are reported at their first operand"]
UNITS = {"quick": 240, "thorough": 16000}
VARIANTS = ("plain",)
PER = 30
MODES = [["-E", "-o", "OUT"], ["-c"], ["-S"], ["--c-backend"], ["-c", "-o", "OUT"], ["-S", "-o", "OUT"], ["--c-backend", "-o", "OUT"], [], ["-o", "OUT"],
         ["-E"], ["-E", "--c-backend"], ["-c", "-g"], ["-c", "-O2"], ["--color", "-c"], ["--color", "-E"]]
NAMES = ["a.sk", "prog.sk", "./a.sk", "sub/a.sk", "sub/../a.sk", "é x.sk", "a.b.sk", "-a.sk"[1:], "a'b.sk", "sub/deep/mod.sk", "x.sk.sk", "%s.sk", "a%d%n.sk"]


def obstacles(r):
    out = []
    uni = ["é", "漢字", "😀", "∀x", "ß", "\u00a0", "\u0301", "ﷺ"]
    for _ in range(r.choice([0, 1, 2, 4])):
        k = r.randint(0, 8)
        t = "".join(r.choice(uni + ["a", " ", "\t"]) for _ in range(r.randint(0, 12)))
        if k == 0:
            out.append("# " + t)
        elif k == 1:
            out.append("#{ " + t + "\n" * r.randint(0, 4) + t + " #}")
        elif k == 2:
            out += [""] * r.choice([1, 2, 3, 5, 250, 1100, 66000])
        elif k == 3:
            out.append("obst%d_ := \"%s\"" % (len(out), t.replace("\t", " ")))
        elif k == 4:
            out.append("obst%d_ := \"%s\n%s\"" % (len(out), t, t))
        elif k == 5:
            out.append("obst%d_ := \"\\n\\x1F600\\\"\\\\%s\" # %s" % (len(out), t, t))
        elif k == 6:
            out.append("obst%d_ := %s" % (len(out), "(" * 60 + "1" + ")" * 60 + " + 1" * r.choice([1, 200, 800])))
        elif k == 7:
            out.append("obst%d_ := '%s'" % (len(out), r.choice(["é", "漢", "😀", "\\x41", "\\n", "'"[:0] + "\""])))
        else:
            out.append("# " + "x" * r.choice([100, 5000, 70000]))
    return "".join(l + "\n" for l in out)


def snapshot(d):
    s = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            st = os.stat(p)
            s[os.path.relpath(p, d)] = (st.st_ino, st.st_mtime_ns, open(p, "rb").read() if st.st_size < 1 << 16 else st.st_size)
    return s


LINE = re.compile(r"^(.*): Compilation error: (?:line (\d+) column (\d+): )?(.*)$")
CLINE = re.compile("^(.*): \x1b\\[1m\x1b\\[\\d+mCompilation error\x1b\\[0m: (?:line (\\d+) column (\\d+): )?(.*)$")


def unit(w, i, rng, rep):
    d = w.sub("err")
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        kind = _faults.ALL[(i * PER + k) % len(_faults.ALL)]
        f = _faults.make(r, kind=kind, layout=lang.RandomLayout if r.random() < 0.8 else None)
        blank = k == PER - 1
        if blank:  # nothing but whitespace
            f = SimpleNamespace(kind="blank", text="".join(r.choice([" ", "\t", "\n", "\r\n"]) for _ in range(r.choice([1, 2, 5, 40, 5000]))), pos=None, msg="file is empty")
        if f is None:
            continue
        pre = "" if blank else obstacles(r)
        body, wide = f.text, 0
        if f.pos and r.random() < 0.3 and not set("\"'") & set(body) and "#{" not in body:
            # far to the right: the same line, pushed past the sizes a narrow counter could hold
            wide = r.choice([130, 260, 1030, 4100, 33000, 66000])
            ls = body.split("\n")
            ls[f.pos[0] - 1] = r.choice([" ", "\t", " \t"])[0] * wide + ls[f.pos[0] - 1]
            body = "\n".join(ls)
        text = pre + body
        crlf = r.random() < 0.15 and "\"" not in pre and f.text.count("\"") == 0 and "\r" not in f.text
        if crlf:
            text = text.replace("\n", "\r\n")
        bom = not blank and r.random() < 0.06
        name = r.choice(NAMES)
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as h:
            h.write((b"\xef\xbb\xbf" if bom else b"") + text.encode("utf-8", "surrogateescape"))
        mode = [("OUT" if r.random() < 0.8 else "sub2/out") if m == "OUT" else m for m in r.choice(MODES)]
        os.makedirs(os.path.join(d, "sub2"), exist_ok=True)
        # leftovers of an earlier compilation: they must survive
        dn, bn = os.path.split(path)
        for o in [os.path.join(dn, "." + bn + x) for x in (".o", ".s", ".c", ".ll")] + [path[:-3], os.path.join(d, "OUT"), os.path.join(d, "sub2/out")]:
            with open(o, "w") as h:
                h.write("earlier " + o)
        before = snapshot(d)
        res = w.server("plain").run([name] + mode, d, 20)
        after = snapshot(d)
        files = {"program.sk": text, "output.txt": res.out[-3000:], "args.txt": " ".join([name] + mode)}
        rep.counts["reports judged"] += 1
        rep.cover["fault kinds"].add(f.kind)
        rep.cover["modes"].add(" ".join(mode))
        rep.eval(text + name + repr(mode), {"kind": f.kind, "args": [name] + mode, "expected": [f.pos, f.msg], "stderr": res.stderr[-200:].decode("utf-8", "replace")})
        for p in os.listdir(d):
            q = os.path.join(d, p)
            if os.path.isfile(q):
                os.unlink(q)
        for s in ("sub", "sub2"):
            if os.path.isdir(os.path.join(d, s)):
                import shutil
                shutil.rmtree(os.path.join(d, s))
        if res.timed_out:
            rep.inconclusive.append("timeout")
            continue
        what = "'%s' fault, skull %s %s" % (f.kind, name, " ".join(mode))
        if res.rc != 1:
            rep.violation("status", "%s: exit status %d instead of 1: %s" % (what, res.rc, res.out[-200:].decode("utf-8", "replace")), files)
            continue
        if after != before:
            diff = sorted(set(after) ^ set(before)) or [n for n in before if before[n] != after.get(n)]
            rep.violation("files", "%s: files created, changed or removed by a failed compilation: %s" % (what, diff[:5]), files)
            continue
        if res.stdout.strip():
            rep.violation("stdout", "%s: output on standard output: %r" % (what, res.stdout[:200]), files)
            continue
        rx = CLINE if "--color" in mode else LINE
        es = [m for m in map(rx.match, res.stderr.decode("utf-8", "replace").split("\n")) if m]
        es = [(m.group(1), (int(m.group(2)), int(m.group(3))) if m.group(2) else None, m.group(4)) for m in es]
        if not es or any(e[0] != name for e in es):
            rep.violation("format", "%s: no error report of the documented form: %s" % (what, res.stderr[-300:].decode("utf-8", "replace")), files)
            continue
        if f.msg is not None and not any(e[2] == f.msg for e in es):
            rep.violation("text", "%s: expected '%s', got %s" % (what, f.msg, es[:3]), files)
            continue
        pos = (f.pos[0] + pre.count("\n"), f.pos[1] + wide) if f.pos else None
        if pos:
            rep.counts["positions judged"] += 1
        if pos and not any(e[1] == pos and f.msg in (None, e[2]) for e in es):
            rep.violation("position", "%s: expected line %d column %d, got %s" % (what, pos[0], pos[1], es[:3]), files)
            continue
        # whatever is reported must lie inside the source
        lines = text.replace("\r\n", "\n").split("\n")
        for e in es:
            if e[1] and not (1 <= e[1][0] <= len(lines) and 1 <= e[1][1] <= len(lines[e[1][0] - 1]) + 2):
                rep.violation("outside", "%s: position outside the source: %s" % (what, e), files)
