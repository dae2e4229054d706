"""Literals: the value a program sees is the value written; what cannot be represented is refused."""
import math, random, re, struct
from fractions import Fraction
from .. import lang
from . import _rej

PROP, LEVEL = "C11", "exploration"
RULE = ("literals of every form (integers of every radix around every power of two, with leading zeros and underscores; decimal floats including rounding ties, the largest and smallest "
        "values; runes and strings over every escape and character class), each written in one of 14 syntactic contexts of a compiled program that hands it to the logging runtime as raw bits; "
        "compared with an independent evaluation. Out-of-range and malformed literals in the same contexts must be refused while the same program with a valid literal is accepted; "
        "non-trivial: every literal; distinct by literal text, context and flags")
ASSUMPTIONS = ["a string ends at its first NUL, as the Str type is a C string", "floats are rounded to nearest, ties to even; values between 0 and the smallest normal double are not judged"]
UNITS = {"quick": 96, "thorough": 6000}
VARIANTS = ("plain",)
SUF = {"Int": "i", "Float": "f", "Rune": "r", "Str": "s", "Bool": "b"}
IMAX = (1 << 63) - 1
EXT = "".join("external sk_p%s(x: %s)\nexternal sk_q%s(x: %s) %s\n" % (s, t, s, t, t) for t, s in SUF.items())
FLAGS = [[], [], [], ["-g"], ["-O1"], ["-O2"], ["-O3", "-g"]]


# ---- literals: (type, text, value)
def under(r, d, first=0):
    """single underscores between digits"""
    out = d[:first + 1]
    for c in d[first + 1:]:
        if r.random() < 0.25 and out[-1] != "_":
            out += "_"
        out += c
    return out


def int_lit(r):
    k = r.randint(0, 63)
    x = r.random()
    v = (1 << k) + r.choice([-2, -1, 0, 0, 1, 2]) if x < 0.6 else r.getrandbits(k + 1) if x < 0.8 else r.choice([0, IMAX, IMAX - 1, 10 ** r.randint(0, 18), 10 ** r.randint(0, 18) - 1])
    v = max(0, min(v, IMAX))
    y = r.random()
    if y < 0.2:
        v = -v if r.random() < 0.8 else -(1 << 63)
    if v < 0 or y < 0.45:
        d = str(abs(v))
        if r.random() < 0.15:
            d = "0" * r.randint(1, 25) + d
        if r.random() < 0.4 and not (d[0] == "0"):
            d = under(r, d)
        return "Int", ("-" if v < 0 else "") + d, v
    b, p = r.choice([(16, "0x"), (8, "0o"), (2, "0b")])
    d = {16: r.choice(["%x", "%X"]), 8: "%o"}.get(b)
    d = d % v if d else bin(v)[2:]
    if b == 16 and r.random() < 0.3:
        d = "".join(r.choice([c.lower(), c.upper()]) for c in d)
    if r.random() < 0.2:
        d = "0" * r.randint(1, 70) + d
    if r.random() < 0.4:
        d = under(r, d)
    return "Int", p + d, v


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def dec(f):
    """the exact decimal expansion of a dyadic fraction"""
    n, d = f.numerator, f.denominator
    k = d.bit_length() - 1
    s = str(abs(n) * 5 ** k)
    if k:
        s = s.rjust(k + 1, "0")
        s = s[:-k] + "." + s[-k:]
    else:
        s += ".0"
    return ("-" if n < 0 else "") + s


def float_lit(r):
    x = r.random()
    if x < 0.06:
        t, v = r.choice([("NaN", math.nan), ("Infinity", math.inf), ("-Infinity", -math.inf), ("0.0", 0.0), ("-0.0", -0.0), ("00.00", 0.0)])
        return "Float", t, v
    if x < 0.4:
        a = struct.unpack("<d", struct.pack("<Q", (r.randint(1, 2046) << 52) | r.getrandbits(52)))[0]
        if r.random() < 0.7:
            a = math.ldexp(1 + r.getrandbits(52) / 2.0 ** 52, r.randint(-60, 60))
        f = Fraction(a)
        if r.random() < 0.6:                   # halfway to the next double, and a little to either side
            b = math.nextafter(a, math.inf)
            if b == math.inf:
                b = a
            f = (Fraction(a) + Fraction(b)) / 2
            t = dec(f)
            y = r.random()
            if y < 0.35:
                t += "0" * r.randint(0, 30) + "1"
            elif y < 0.6 and t[-1] == "5":
                t = t[:-1] + "4" + "9" * r.randint(1, 30)
        else:
            t = dec(f)
        if r.random() < 0.3:
            t = "-" + t
    elif x < 0.5:
        t = r.choice(["179769313486231570" + "0" * 291 + ".0", dec(Fraction(math.ldexp(1, 1023))), dec(Fraction(math.ldexp(1, -1022))), dec(Fraction(math.ldexp(1, -1074))),
                      "0." + "0" * 300 + "1", "1" + "0" * 308 + ".0", "9007199254740993.0", "9007199254740992.99999", "0.1", "0.2", "0.3", "2.5", "1.7976931348623157",
                      "123456789012345678901234567890.5", "4.35", "0.000001", "5e-324"[:0] + "1.0"])
        if r.random() < 0.3:
            t = "-" + t
    else:
        t = "%s%d.%s" % (r.choice(["", "", "-"]), r.getrandbits(r.choice([1, 4, 10, 30, 60, 200])), "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 5, 17, 40]))))
    if r.random() < 0.25:
        a, b = t.split(".")
        s = a.startswith("-")
        if len(a) > 1 + s and a[s] != "0":
            t = ("-" if s else "") + under(r, a[s:]) + "." + b
    v = float(t.replace("_", ""))
    if v == math.inf or (v != 0 and abs(v) < 2.3e-308 and Fraction(v) != Fraction(t.replace("_", ""))):
        return float_lit(r)
    if v == 0 and t.strip("-0._"):
        return float_lit(r)
    return "Float", t, v


ESC = {"\\n": 10, "\\t": 9, "\\r": 13, "\\0": 0, "\\e": 27, "\\\\": 92, "\\'": 39, "\\\"": 34}


def code(r):
    x = r.random()
    if x < 0.35:
        return r.randint(0x20, 0x7e)
    if x < 0.6:
        c = r.choice([0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffd, 0x10ffff, 1, 0x1f, 0x7f, 0x9f, 0xa0, 0xfeff])
    else:
        c = r.getrandbits(r.randint(1, 20))
    return c if c and not 0xd800 <= c < 0xe000 else 0x41


def hexa(r, c, w=8):
    d = "%X" % c
    d = d.rjust(r.choice([len(d), len(d), max(2, len(d)), w, r.randint(len(d), w)]), "0")
    return "\\x" + "".join(r.choice([h.lower(), h]) for h in d)


def rune_lit(r):
    x = r.random()
    if x < 0.3:
        e = r.choice(list(ESC))
        return "Rune", "'%s'" % e, ESC[e]
    c = code(r)
    if x < 0.65 or c < 0x20 or c == 0x7f or chr(c) in "'\\":
        if r.random() < 0.05:
            c = 0
        return "Rune", "'%s'" % hexa(r, c), c
    return "Rune", "'%s'" % chr(c), c


def str_lit(r):
    t, v = "", b""
    for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12, 40, 250])):
        x = r.random()
        if x < 0.3:
            e = r.choice([k for k in ESC if k != "\\0"])
            t += e
            v += bytes([ESC[e]])
            continue
        c = code(r)
        if x < 0.6 or c < 0x20 or c == 0x7f or chr(c) in "\"\\":
            if r.random() < 0.3:
                t += hexa(r, c, 8)
                full = len(t) - t.rindex("\\x") - 2 == 8
                v += chr(c).encode()
                if not full:                     # a following hexadecimal digit would belong to the escape
                    t += "~"
                    v += b"~"
                elif r.random() < 0.5:
                    t += "4"
                    v += b"4"
            else:
                ch = r.choice("\n\tabc'#{}(),&*%; ")
                t += ch
                v += ch.encode()
        else:
            t += chr(c)
            v += chr(c).encode()
    if r.random() < 0.02:
        n = r.choice([1000, 8000, 65536])
        t += "é" * n
        v += "é".encode() * n
    return "Str", '"%s"' % t, v


def lit(r):
    return r.choice([int_lit, int_lit, float_lit, float_lit, rune_lit, str_lit, lambda r: ("Bool",) + r.choice([("true", True), ("false", False)])])(r)


# ---- contexts: text with the literal L of type T (suffix S, fresh name N) that logs it once
CTX = {
    "argument": "sk_pS(L)\n",
    "definition": "N := L\nsk_pS(N)\n",
    "typed definition": "N: T = L\nsk_pS(N)\n",
    "mutable": "mut N := L\nsk_pS(N)\nN = sk_qS(N)\n",
    "assignment": "mut N := sk_qS(Z)\nN = L\nsk_pS(N)\n",
    "return": "N() T {\n\treturn L\n}\nsk_pS(N())\n",
    "own parameter": "N(a: Int, b: T, c: Int) {\n\tsk_pS(b)\n}\nN(1, L, 2)\n",
    "local": "N(a: Int) {\n\tb := L\n\tsk_pS(b)\n}\nN(1)\n",
    "parentheses": "sk_pS((L))\n",
    "namespace": "namespace N {\n\tv := L\n}\nsk_pS(N.v)\n",
    "exported": "export N := L\nsk_pS(N)\n",
    "reference": "N := L\nNr := &N\nsk_pS(*Nr)\n",
    "left of is": "if L is sk_qS(L) {\n\tsk_pS(L)\n}\nelse {\n\tsk_pS(L)\n}\n",
    "in a branch": "if sk_qb(true) {\n\tmut N := L\n\twhile sk_qb(false) {\n\t\tN = L\n\t}\n\tsk_pS(N)\n}\n",
}
ZERO = {"Int": "0", "Float": "0.0", "Rune": "'0'", "Str": "\"\"", "Bool": "false"}


def put(r, k, l, names):
    t = CTX[k]
    n = names()
    for a, b in (("sk_pS", "sk_p" + SUF[l[0]]), ("sk_qS", "sk_q" + SUF[l[0]]), ("N", n), ("Z", ZERO[l[0]]), ("T", l[0]), ("L", l[1])):
        t = t.replace(a, b) if a not in ("N",) else t.replace("Nr", n + "r").replace("N", n)
    return t


def namer(r):
    c = [0]

    def f():
        c[0] += 1
        return "v%d_" % c[0]
    return f


def positive(w, rng, rep):
    progs = []
    for _ in range(10):
        r = random.Random(rng.getrandbits(64))
        names = namer(r)
        text, want, what = EXT, [], []
        for _ in range(40):
            k, l = r.choice(list(CTX)), lit(r)
            text += put(r, k, l, names)
            want.append("sk_p%s %s" % (SUF[l[0]], lang.fmt(l[0], l[2])))
            what.append((k, l))
            rep.eval(repr((k, l[1])))
            rep.cover["contexts"].add(k + " " + l[0])
        progs.append((text, r.choice(FLAGS), want, what))
    for (text, fl, want, what), o in zip(progs, w.batch().run([(p[0], p[1]) for p in progs])):
        files = {"program.sk": text, "expected.txt": "\n".join(want), "observed.txt": "\n".join(o.events or []), "output.txt": o.compile.out[-3000:]}
        rep.counts["programs"] += 1
        if o.compile.timed_out:
            rep.inconclusive.append("timeout")
            continue
        if o.compile.rc != 0:
            m = _rej.errors(o.compile)
            rep.violation("refused", "a program of valid literals is refused: %s" % (m[:2] or o.compile.out[-300:]), files)
            continue
        if o.err:
            rep.violation("unusable", o.err[:500], files)
            continue
        rep.counts["values observed"] += len(o.events or [])
        if o.events != want:
            j = next((i for i, (a, b) in enumerate(zip(o.events, want)) if a != b), min(len(o.events), len(want)))
            c, l = what[min(j, len(what) - 1)]
            rep.violation("value:" + l[0], "%s literal %s as %s (%s): expected %s, observed %s" % (
                l[0], l[1][:120], c, " ".join(fl), (want + ["end"])[j][:300], (o.events + ["end of program"])[j][:300]), files)


NUM = re.compile(r"-?[0-9](_?[0-9])*|0x[0-9a-fA-F](_?[0-9a-fA-F])*|0b[01](_?[01])*|0o[0-7](_?[0-7])*|-?[0-9](_?[0-9])*\.[0-9]+|-?Infinity|NaN")


def near(r):
    """text that is nearly a number: a valid literal with one or two of its characters changed"""
    while True:
        t = r.choice(["12", "7", "0x1F", "0b10", "0o17", "1_000", "-5", "1.5", "12.25", "-0.5", "1_0.5", "0x1_f", "0b1_0", "0.0", "3.", ".5", "_1", "_1.5", "-.5", "-_1",
                      "-_1.5", "1.5_", "_", "-Infinity", "0x_", "-", ".", "-.", "1_", "1_.", "._1", "00x1"])
        for _ in range(r.choice([0, 1, 1, 2])):
            i = r.randint(0, len(t))
            c = r.choice("0189_..xboafgzAFG-é")
            t = r.choice([t[:i] + c + t[i:], t[:i] + t[i + 1:], t[:i] + c + t[i + 1:], t[:i] + t[i - 1:i] + t[i:]])
        # (a name, a dash between two operands or a lone dash can mean something else)
        if t and re.match(r"-?[0-9._]", t) and not NUM.fullmatch(t) and "-" not in t[1:]:
            return t


# ---- literals that must be refused: (type it would have, text)
def bad_lit(r):
    k = r.randint(0, 12)
    if k >= 10:
        return r.choice(["Int", "Float"]), near(r), "malformed"
    if k <= 1:
        over = r.choice([1, 1, 2, r.getrandbits(20) + 1, IMAX, IMAX + 1, IMAX + 2, 10 ** 20, 10 ** 40])
        v = IMAX + over
        f = r.choice(["%d", "-%d", "0x%x", "0x%X", "0o%o", "0b", "%d", "00%d"])
        if f == "-%d":
            v += 1
        t = f % v if f != "0b" else "0b" + bin(v)[2:]
        if r.random() < 0.3 and t[0] != "-" and t[0] != "0":
            t = under(r, t)
        return "Int", t, "range"
    if k == 2:
        if r.random() < 0.4:                   # not zero, but nearer to it than any double
            return "Float", "%s0.%s%d" % (r.choice(["", "-"]), "0" * r.randint(325, 900), r.randint(1, 99999)), "range"
        return "Float", r.choice(["", "-"]) + r.choice(["9" * r.randint(310, 400), "1797693134862315808" + "0" * 290, "2" + "0" * 308]) + "." + r.choice(["0", "5"]), "range"
    if k <= 4:
        return "Int", r.choice(["0x", "0b", "0o", "0xG1", "0x1G", "0b2", "0b12", "0o8", "0o18", "1__0", "1_", "0x_1", "0x1_", "0xA__B", "0b_1", "0o7_", "0X1F", "0B1", "0O7", "1a", "12abc", "0b1a",
                                "1_000_", "-0x1", "-0b1", "-0o1", "-1_", "- -1"[:0] + "1x", "0x1.0", "9a9", "1e5", "0xé", "1²", "٣"]), "malformed"
    if k == 5:
        return "Float", r.choice(["1.5.5", "1.5_0", "1._5", "1_.5", "1__0.5", "1.5f", "1.5e3", "1.e3", "0x1.8", "1.5.", "1..5", "1.a", "-Infinit", "1,5"[:0] + "1.5x", "infinity"[:0] + "1.0L"]), "malformed"
    if k == 6 and r.random() < 0.5:            # one escape sequence is the whole rune
        e = r.choice(["\\0", "\\0", "\\e", "\\n", "\\t", "\\r", "\\\\", "\\\"", "\\'"])
        return "Rune", "'%s%s'" % (e, r.choice([e[1] if e[1] != "'" else "a", e, "0", "00", "7", "a", "n", "x41", "é"])), "rune"
    if k <= 7:
        return "Rune", r.choice(["''", "'ab'", "'\\q'", "'\\x'", "'\\xG'", "'\\n '", "'\\nn'", "'\\xD800'", "'\\xDFFF'", "'\\xdabc'", "'\\x110000'", "'\\x7FFFFFFF'", "'\\xFFFFFFFF'", "'\\x80000000'",
                                 "'\t'", "'\x01'", "'\x7f'", "'é\u0301'", "'\\u0041'", "'\\1'", "'\\a'", "'\\N'", "'\\x41 '", "'abc'", "'漢字'", "'\\\\\\'", "'\\x000000041'", "'\\x00000000041'", "'\\x0041abcdef'", "'a", "'\\n", "x'", "'\\'",
                                 "'\\x41", "a''", "''a", "'\\x0000000041'", "'\\x00000000000000000041'", "'\\%s%s'" % (r.choice("0entr\\'\""), r.choice(["0", "00", "000", "1", "7", "a", "n", "e", "é", "x", "\\0", "'"[:0] + "42"])), "'%s%s'" % (r.choice("a0é\\"[:3]), r.choice(["0", "a", "é", "\\0", "\\n"]))]), "rune"
    pre, post = "".join(r.choice("abé \\n"[:4]) for _ in range(r.randint(0, 9))), "".join(r.choice("xyz漢 ") for _ in range(r.randint(0, 9)))
    return "Str", '"%s%s%s"' % (pre, r.choice(["\\q", "\\x~", "\\xg", "\\xD800~", "\\xDFFF~", "\\xdead~", "\\x110000~", "\\xFFFFFFFF", "\\x00D80000"[:0] + "\\xDC00~", "\\u", "\\1", "\\a", "\\ ",
                                               "\\N", "\\é", "\\7", "\\x ", "\\X41", "\\z", "\\-"]), post), "string"


GOOD = {"Int": "7", "Float": "7.5", "Rune": "'7'", "Str": "\"7\"", "Bool": "true"}


def negative(w, rng, rep):
    d = w.sub("lit")
    for _ in range(40):
        r = random.Random(rng.getrandbits(64))
        t, text, kind = bad_lit(r)
        k = r.choice([c for c in CTX])
        names = namer(r)
        pre = "".join(put(r, r.choice(list(CTX)), lit(r), names) for _ in range(r.choice([0, 0, 1, 3])))
        st = r.getstate()
        a = EXT + pre + put(r, k, (t, text), namer(r)).replace("v1_", "w_")
        b = EXT + pre + put(r, k, (t, GOOD[t]), namer(r)).replace("v1_", "w_")
        mode = r.choice(_rej.MODES)
        bad, good = _rej.run(w, d, a, mode), _rej.run(w, d, b, ["-E"])
        rep.eval("bad" + a, {"literal": text[:100], "context": k, "exit": bad.rc, "message": [e[2] for e in _rej.errors(bad)][:1]})
        rep.counts["refusals judged"] += 1
        rep.cover["refused"].add(text[:40] if kind != "range" else kind + " " + t)
        files = {"faulty.sk": a, "valid.sk": b, "output.txt": bad.out[-2000:]}
        if bad.timed_out or good.timed_out:
            rep.inconclusive.append("timeout")
        elif good.rc != 0:
            rep.violation("control", "the program with the valid literal %s as %s is refused: %s" % (GOOD[t], k, good.out[-300:].decode("utf-8", "replace")), files)
        elif bad.rc == 0:
            rep.violation("accepted:" + kind, "the %s literal %s as %s is accepted" % ("out-of-range" if kind == "range" else "malformed", text[:120], k), files)
        elif bad.rc != 1 or bad.crashed or not _rej.errors(bad):
            rep.violation("status:" + kind, "the literal %s as %s: exit status %d: %s" % (text[:120], k, bad.rc, bad.out[-200:].decode("utf-8", "replace")), files)
        elif kind == "range" and not any("overflow" in e[2] for e in _rej.errors(bad)):
            rep.violation("message:range", "the out-of-range literal %s as %s is not reported as such: %s" % (text[:120], k, _rej.errors(bad)[:2]), files)


def unit(w, i, rng, rep):
    positive(w, rng, rep)
    negative(w, rng, rep)
