"""Source text is UTF-8: every character arrives intact, everything else is refused."""
import os, random
from .. import exec as ex, lang
from ..server import base_env
from . import _rej

PROP, LEVEL = "C21", "exploration"
RULE = ("every Unicode scalar value (all 1,112,064 except NUL, and quote/backslash which are escaped) in string literals of compiled programs that hand them to the logging runtime, and in comments "
        "in front of an error whose column is checked; runes at all boundaries plus random ones; malformed sequences of every lead byte and class (stray and missing continuation bytes, overlong forms, surrogates, "
        "values above U+10FFFF, truncated at end of file) and NUL bytes at random positions of valid programs, which must be refused at the right character offset; under several locales; "
        "non-trivial: every block of characters or malformed sequence; distinct by bytes and place")
ASSUMPTIONS = ["the text of the message for a NUL byte is not judged, only that there is one"]
UNITS = {"quick": 136, "thorough": 2000}
VARIANTS = ("plain",)
ENVS = [("utf8", {}), ("c", {"LC_ALL": "C", "LANG": "C"}), ("posix", {"LC_ALL": "POSIX", "LANG": ""}), ("none", None), ("bogus", {"LC_ALL": "xx_YY.ISO-8859-1", "LANG": "xx"})]
SWEEP = 34            # units that share the full sweep
SCALARS = 0x110000


def env(k):
    e = base_env()
    if k is None:
        for n in ("LC_ALL", "LANG"):
            e.pop(n, None)
    else:
        e.update(k)
    return e


def srv(w, r):
    t, e = r.choice(ENVS)
    return t, w.server("plain", env(e), "c21" + t)


def quoted(c):
    return "\\" + chr(c) if c in (0x22, 0x5c) else chr(c)


def sweep(w, i, r, rep):
    """blocks of consecutive characters in strings and comments"""
    loc, s = srv(w, r)
    key = "sweep-" + loc
    if key not in w.bat:
        w.bat[key] = ex.Batch(s, os.path.join(w.dir, "b-" + key))
    lo, hi = SCALARS * i // SWEEP, SCALARS * (i + 1) // SWEEP
    text, want = "external sk_ps(x: Str)\n", []
    blocks = []
    c = lo
    while c < hi:
        n = r.choice([64, 256, 1000, 2048])
        b = [x for x in range(c, min(c + n, hi)) if x and not 0xd800 <= x < 0xe000]
        c += n
        if b:
            blocks.append(b)
    for b in blocks:
        t = "".join(map(quoted, b))
        if r.random() < 0.3:
            text += "# %s\n" % "".join(chr(x) for x in b if x not in (10, 13))
        elif r.random() < 0.3:
            text += "#{ %s #}\n" % "".join(chr(x) for x in b if x != 0x23)
        text += "sk_ps(\"%s\")\n" % t
        v = "".join(map(chr, b)).encode()
        want.append("sk_ps " + lang.fmt("Str", v))
        rep.eval(v)
    rep.counts["characters swept"] += sum(map(len, blocks))
    rep.cover["locales"].add(loc)
    o = w.bat[key].run([(text, r.choice([[], ["-g"], ["-O1"]]))])[0]
    files = {"program.sk": text, "output.txt": o.compile.out[-2000:]}
    if o.compile.timed_out:
        rep.inconclusive.append("timeout")
    elif o.compile.rc != 0:
        rep.violation("refused", "valid characters U+%X..U+%X are refused (locale %s): %s" % (lo, hi - 1, loc, o.compile.out[-200:].decode("utf-8", "replace")), files)
    elif o.err:
        rep.violation("unusable", o.err[:400], files)
    elif o.events != want:
        j = next((k for k, (a, b) in enumerate(zip(o.events, want)) if a != b), min(len(o.events), len(want)))
        b = blocks[min(j, len(blocks) - 1)]
        rep.violation("changed", "a string of U+%X..U+%X does not arrive unchanged (locale %s): expected %s, got %s" % (b[0], b[-1], loc, want[j:j + 1], o.events[j:j + 1]), files)


BOUND = [1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]


def point(r):
    while True:
        c = r.choice([r.choice(BOUND) + r.randint(-1, 1), r.randint(1, 0x10ffff), r.getrandbits(r.randint(1, 20)), r.randint(0x80, 0xfff)])
        if 0 < c <= 0x10ffff and not 0xd800 <= c < 0xe000:
            return c


def runes(w, r, rep):
    """characters as runes: the code point; control characters are refused"""
    loc, s = srv(w, r)
    key = "sweep-" + loc
    if key not in w.bat:
        w.bat[key] = ex.Batch(s, os.path.join(w.dir, "b-" + key))
    text, want = "external sk_pr(x: Rune)\nexternal sk_ps(x: Str)\n", []
    cs = [c for c in [point(r) for _ in range(250)] + BOUND if c >= 0x20 and c != 0x7f and chr(c) not in "'\\"]
    for k, c in enumerate(cs):
        text += "sk_pr('%s')\n" % chr(c)
        want.append("sk_pr %x" % c)
        if k % 10 == 0:
            t = [point(r) for _ in range(r.randint(1, 30))]
            text += "sk_ps(\"%s\") # %s\n" % ("".join(map(quoted, t)), "".join(chr(x) for x in t if x not in (10, 13)))
            want.append("sk_ps " + lang.fmt("Str", "".join(map(chr, t)).encode()))
    rep.eval(text)
    rep.counts["runes"] += len(cs)
    o = w.bat[key].run([(text, [])])[0]
    files = {"program.sk": text, "output.txt": o.compile.out[-2000:]}
    if o.compile.timed_out:
        rep.inconclusive.append("timeout")
    elif o.compile.rc != 0 or o.err:
        rep.violation("refused", "valid runes are refused (locale %s): %s" % (loc, o.err or o.compile.out[-200:].decode("utf-8", "replace")), files)
    elif o.events != want:
        j = next((k for k, (a, b) in enumerate(zip(o.events, want)) if a != b), min(len(o.events), len(want)))
        rep.violation("changed", "a rune or string does not arrive unchanged (locale %s): expected %s, got %s" % (loc, want[j:j + 1], o.events[j:j + 1]), files)


def columns(w, d, r, rep):
    """each character counts as one column"""
    loc, s = srv(w, r)
    t = [point(r) for _ in range(r.choice([1, 2, 5, 20, 100]))]
    t = [c for c in t if c not in (10, 13)]
    if r.random() < 0.5:
        pre = "x_ := f_(\"%s\", " % "".join(map(quoted, t))
    else:
        pre = "#{ %s #} x_ := f_(\"\", " % "".join(chr(c) for c in t if c != 0x23)
    text = "f_(s: Str, i: Int) Int {\n\tsk_ps(s)\n\treturn i\n}\n" + pre + "nosuch)\n"
    text = "external sk_ps(x: Str)\n" + text
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(text.encode())
    res = s.run(["a.sk", "-E"], d, 20)
    es = _rej.errors(res)
    rep.eval("col" + text)
    rep.counts["columns judged"] += 1
    want = (6, len(pre) + 1)
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif res.rc != 1 or not any(e[1] == want and e[2] == "variable \"nosuch\" not found" for e in es):
        rep.violation("column", "after %d characters of other planes the error should be at line %d column %d (locale %s): exit %d, %s" % (len(t), want[0], want[1], loc, res.rc, es[:2]), {"a.sk": text, "output.txt": res.out[-1000:]})


def cont(r):
    return r.choice([0x80, 0xbf, 0x80 + r.randrange(64)])


def malformed(r):
    """(bytes, class): never a prefix of a valid character together with what follows it"""
    k = r.randint(0, 9)
    if k == 0:
        return bytes([r.choice([0x80, 0xbf, 0x80 + r.randrange(64)])]), "stray continuation"
    if k == 1:
        return bytes([r.choice([0xc0, 0xc1]), cont(r)]), "overlong 2"
    if k == 2:
        return bytes([0xe0, r.choice([0x80, 0x9f, 0x80 + r.randrange(32)]), cont(r)]), "overlong 3"
    if k == 3:
        return bytes([0xf0, r.choice([0x80, 0x8f, 0x80 + r.randrange(16)]), cont(r), cont(r)]), "overlong 4"
    if k == 4:
        return bytes([0xed, r.choice([0xa0, 0xbf, 0xa0 + r.randrange(32)]), cont(r)]), "surrogate"
    if k == 5:
        return bytes([0xf4, r.choice([0x90, 0xbf, 0x90 + r.randrange(48)]), cont(r), cont(r)]), "above U+10FFFF"
    if k == 6:
        b = r.randint(0xf5, 0xff)
        n = 3 if b < 0xf8 else 4 if b < 0xfc else 5
        return bytes([b] + [cont(r) for _ in range(r.choice([n, n, n, r.randint(0, n)]))]), "lead byte %X" % b
    b = r.randint(0xc2, 0xf4)
    full = 1 if b < 0xe0 else 2 if b < 0xf0 else 3
    second = cont(r)
    if b == 0xe0:
        second = r.randint(0xa0, 0xbf)
    if b == 0xed:
        second = r.randint(0x80, 0x9f)
    if b == 0xf0:
        second = r.randint(0x90, 0xbf)
    if b == 0xf4:
        second = r.randint(0x80, 0x8f)
    return bytes(([b, second] + [cont(r) for _ in range(2)])[:r.randint(1, full)]), "missing continuation %d" % full


PLACES = {"string": "x_ := \"ab@cd\"\n", "string end": "x_ := \"abé@\"\n", "rune": "x_ := '@'\n", "comment": "# ab @ cd\n", "comment end": "# ab é@\n", "block comment": "#{ ab\n@ #}\n", "name": "x@y := 1\n", "between": "x_ := @ 1\n", "start of line": "@x_ := 1\n",
          "file start": "^@x_ := 1\n", "file end": "x_ := 1\n$@", "file end in comment": "$# é@", "file end in string": "$x_ := \"@", "own line": "@\n", "before newline": "x_ := 1@\n"}


def bad(w, d, r, rep):
    loc, s = srv(w, r)
    seq, cls = malformed(r)
    k = r.choice(list(PLACES))
    pre = "".join(r.choice(["a_%d := \"é漢😀\"\n" % j, "# ß\n", "\n", "b_%d := 1 # x\n" % j, "#{ ∀ #}\n"]) for j in range(r.choice([0, 1, 4, 30])))
    post = r.choice(["", "z_ := \"é\"\n", "# é\n" * 3])
    t = PLACES[k]
    if t[0] == "^":
        pre, t = "", t[1:]
    if "$" in t:
        post, t = "", t.replace("$", "")
    a, b = t.split("@")
    before = pre + a
    data = before.encode() + seq + (b + post).encode()
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(data)
    mode = r.choice(_rej.MODES)
    res = s.run(["a.sk"] + mode, d, 20)
    rep.eval(data, {"bytes": seq.hex(), "class": cls, "place": k, "stderr": res.stderr[-100:].decode("utf-8", "replace")})
    rep.counts["malformed sequences"] += 1
    rep.cover["classes"].add(cls)
    rep.cover["class at place"].add(cls + " in " + k)
    rep.cover["locales"].add(loc)
    files = {"a.sk": data, "output.txt": res.out[-1000:]}
    what = "%s (%s) in %s (%s, locale %s)" % (cls, seq.hex(), k, " ".join(mode), loc)
    want = "illegal UTF8 sequence at character offset %d" % len(before)
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif res.rc == 0:
        rep.violation("accepted:" + cls[:12], "not UTF-8, but accepted: " + what, files)
    elif res.rc != 1 or res.crashed:
        rep.violation("status", "exit status %d on %s" % (res.rc, what), files)
    elif not any(e[2].startswith("illegal UTF8 sequence") for e in _rej.errors(res)):
        rep.violation("message", "not reported as an illegal sequence: %s: %s" % (what, _rej.errors(res)[:2] or res.out[-200:]), files)
    elif not any(e[2] == want for e in _rej.errors(res)):
        rep.violation("offset", "%s: expected '%s', got %s" % (what, want, _rej.errors(res)[:2]), files)


def nul(w, d, r, rep):
    """a NUL byte does not end the program silently"""
    loc, s = srv(w, r)
    data = bytearray(("".join(r.choice(["a_%d := \"é漢😀\"\n" % j, "# ß\n", "\n", "b_%d := 1 # x\n" % j, "#{ ∀ #}\n"]) for j in range(r.choice([0, 1, 4, 30]))) + r.choice(["", "z_ := \"é\"\n"])).encode())
    at = r.choice([0, len(data), r.randint(0, len(data)), r.randint(0, len(data))])
    data[at:at] = b"\0" * r.choice([1, 1, 1, 2, 7])
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(data)
    mode = r.choice(_rej.MODES)
    res = s.run(["a.sk"] + mode, d, 20)
    rep.eval(bytes(data), {"class": "NUL at byte %d of %d" % (at, len(data))})
    rep.counts["NUL bytes"] += 1
    left = [f for f in os.listdir(d) if f != "a.sk"]
    what = "a NUL at byte %d of %d (%s, locale %s)" % (at, len(data), " ".join(mode), loc)
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif res.rc == 0:
        rep.violation("nul", "%s is accepted: what follows it is dropped" % what, {"a.sk": bytes(data), "output.txt": res.out[-1000:]})
    elif res.rc != 1 or res.crashed or not res.stderr.strip():
        rep.violation("nul-status", "%s: exit status %d, message %r" % (what, res.rc, res.stderr[-200:]), {"a.sk": bytes(data)})
    elif left:
        rep.violation("nul-output", "%s: refused, but %s is written" % (what, left), {"a.sk": bytes(data)})
    for f in left:
        os.unlink(os.path.join(d, f))


def control(w, d, r, rep):
    loc, s = srv(w, r)
    c = r.choice(list(range(1, 10)) + list(range(11, 32)) + [127])
    text = "x_ := 1\ny_ := '%s'\n" % chr(c)
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(text.encode())
    res = s.run(["a.sk", "-E"], d, 20)
    rep.eval("ctl" + text)
    if res.timed_out:
        rep.inconclusive.append("timeout")
    elif res.rc != 1 or not any(e[2] == "control character cannot be used in rune" for e in _rej.errors(res)):
        rep.violation("control", "the control character U+%04X in a rune is not refused as such: exit %d %s" % (c, res.rc, _rej.errors(res)[:2]), {"a.sk": text})


def unit(w, i, rng, rep):
    r = random.Random(rng.getrandbits(64))
    d = w.sub("u8")
    if i < SWEEP:
        sweep(w, i, r, rep)
        return
    runes(w, r, rep)
    for _ in range(25):
        bad(w, d, random.Random(rng.getrandbits(64)), rep)
    for _ in range(8):
        columns(w, d, random.Random(rng.getrandbits(64)), rep)
    control(w, d, r, rep)
    for _ in range(3):
        nul(w, d, random.Random(rng.getrandbits(64)), rep)
