"""The compiler never crashes, hangs or corrupts memory, whatever it is given."""
import glob, os, random, re, shutil
from .. import build, gen, lang
from ..server import memcheck_report
from . import _faults

PROP, LEVEL = "C01", "exploration"
RULE = ("sources: token soup, mutated/truncated/spliced valid programs and repository examples, random bytes, boundary literals, "
        "single-fault programs; each with random options, run under AddressSanitizer and UndefinedBehaviorSanitizer, and a sample under valgrind memcheck (uninitialised reads); "
        "non-trivial: non-empty source; distinct by source bytes and options")
ASSUMPTIONS = ["a run that needs more than 20 s of CPU under the sanitizers counts as hung when it does so three times",
               "leaks are not reported; nesting depth stays below 200"]
UNITS = {"quick": 1000, "thorough": 40000}
VARIANTS = ("asan", "plain")
PER = 30

TOKS = ("mut return unreachable if elif else while external export noop break continue import namespace mod not is isnt and or xor "
        "Infinity -Infinity NaN true false Int Float Bool Rune Str Void &Int &Str &x *x & * + - / ^ << >> < > <= >= = := : , ( ) { } "
        "x y f g a.b x.y.z . .. 0 1 -1 0x 0xff 0b1 0b2 0o7 0o8 1_000 1__0 _ __ 1. .5 1.5 1.5.5 -1.5 9223372036854775807 9223372036854775808 "
        "-9223372036854775808 0x8000000000000000 'a' 'ab' '' '\\n' '\\x41' '\\q' \"\" \"abc\" \"\\x\" \"\\xFFFFFFFFF\" \"unclosed 'u # #{ #} ## ; @ $ ! ~ ` \\ | [ ] "
        "é 漢 x: Int x := 1 f() f(1) f(a:Int) f(a:Int)Int").split(" ")
TOKS += ["\n"] * 25 + [" "] * 10 + ["\t", "\r\n", "\n\n", "# c\n", "#{ b #}", "\n}\n", " {\n", "x := 1\n", "mut y := 2\n", "y = 3\n",
                                    "if true {\n", "while false {\n", "f(a: Int) Int {\n", "return 1\n", "} else {\n", "namespace n {\n",
                                    "n.x\n", "export z := 1\n", "external q(x: Int) Int\n", "import \"a\"\n"]

_corpus = []


def corpus():
    if not _corpus:
        for p in sorted(glob.glob(os.path.join(build.REPO, "test", "**", "*.sk"), recursive=True)):
            with open(p, "rb") as f:
                _corpus.append(f.read())
        _corpus.append(b"x := 1\n")
    return _corpus


def soup(r):
    n = r.choice([1, 2, 3, 5, 8, 15, 30, 60, 150])
    sep = r.choice(["", " ", " ", " "])
    return sep.join(r.choice(TOKS) for _ in range(n)).encode()


def base(r):
    x = r.random()
    if x < 0.35:
        return r.choice(corpus())
    if x < 0.9:
        g = gen.Gen(r, stmts=(1, 6), block=(1, 2))
        return lang.show(g.program(), lang.RandomLayout(r) if r.random() < 0.3 else None).encode()
    return soup(r)


SPLIT = re.compile(rb"(\s+|[A-Za-z_][\w.]*|\d[\w.]*|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|.)", re.S)


def mutate(r, b):
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        t = SPLIT.findall(b)
        if not t:
            return soup(r)
        k = r.randint(0, 11)
        i = r.randrange(len(t))
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, t[r.randrange(len(t))])
        elif k == 2:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 3:
            t[i] = r.choice(TOKS).encode()
        elif k == 4:
            t.insert(i, r.choice(TOKS).encode())
        elif k == 5:
            s = b"".join(t)
            t = [s[:r.randrange(len(s) + 1)]]
        elif k == 6:
            s = bytearray(b"".join(t))
            for _ in range(r.randint(1, 3)):
                s[r.randrange(len(s))] = r.choice([0, 9, 10, 13, 32, 34, 39, 35, 92, 123, 125, 127, 128, 0xc3, 0xe2, 0xf0, 0xff, r.randrange(256)])
            t = [bytes(s)]
        elif k == 7:
            ls = b"".join(t).split(b"\n")
            i = r.randrange(len(ls))
            x = r.random()
            if x < 0.4:
                del ls[i]
            elif x < 0.7:
                ls.insert(r.randrange(len(ls) + 1), ls[i])
            else:
                j = r.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            t = [b"\n".join(ls)]
        elif k == 8:
            o = SPLIT.findall(r.choice(corpus()))
            j = r.randrange(len(o)) if o else 0
            t[i:i] = o[j:j + r.randint(1, 12)]
        elif k == 9:
            s = b"".join(t)
            t = [s[r.randrange(len(s) + 1):]]
        elif k == 10:
            t[i] = t[i] * r.choice([2, 2, 3, 40, 300] if len(t[i]) < 20 and t[i] not in (b"(", b"{") else [2, 30])
        else:
            j = min(len(t), i + r.randint(1, 6))
            del t[i:j]
        b = b"".join(t)
    return b


def literal(r):
    c = [lambda: str(r.choice([1, -1]) * (2 ** r.randint(0, 70) + r.randint(-2, 2))),
         lambda: "0x" + "".join(r.choice("0123456789abcdefABCDEFgG_") for _ in range(r.randint(0, 20))),
         lambda: "0o" + "".join(r.choice("012345678_") for _ in range(r.randint(0, 26))),
         lambda: "0b" + "".join(r.choice("01112_") for _ in range(r.randint(0, 70))),
         lambda: "".join(r.choice("0123456789._-+eE") for _ in range(r.randint(1, 400))),
         lambda: "9" * r.randint(1, 600) + ".0",
         lambda: '"' + "".join(r.choice(["\\x", "\\n", "\\", "a", "F", "0", "\\0", "é", "\\x110000", "\\xD800", "\\u"]) for _ in range(r.randint(0, 12))) + '"',
         lambda: "'" + "".join(r.choice(["\\x", "\\n", "\\", "a", "F", "0", "\\0", "é", "\\xFFFFFFFF"]) for _ in range(r.randint(0, 3))) + "'",
         lambda: r.choice("aA_é") + "".join(r.choice("aA_0.é:&*") for _ in range(r.randint(0, 300)))]
    s = r.choice(c)()
    return (r.choice(["x := %s\n", "x: Int = %s\n", "f(%s)\n", "return %s\n", "if %s {\n}\n", "%s", "mut x := %s\nx = %s\n", "external f(%s: Int)\n",
                      "namespace %s {\n x := 1\n}\n", "import %s\n", "x := 1 + %s", "%s()"]).replace("%s", s)).encode()


def nest(r):
    n = r.randint(2, 90)
    k = r.randint(0, 5)
    if k == 0:
        s = "x := " + "(" * n + "1" + ")" * r.choice([n, n, n - 1, n + 1])
    elif k == 1:
        s = "if true {\n" * n + "x := 1\n" + "}\n" * r.choice([n, n, n - 1, n + 1])
    elif k == 2:
        s = "while true {\n" * n + "break\n" + "}\n" * r.choice([n, n, n - 1])
    elif k == 3:
        s = "x := " + "not " * n + "true\n"
    elif k == 4:
        s = "".join("f%d() {\n" % i for i in range(n)) + "noop\n" + "}\n" * n
    else:
        s = "x := 1" + "".join(" %s %d" % (r.choice(["+", "*", "^", "<<", "is", "and"]), i) for i in range(n * 4)) + "\n"
    return s.encode()


RUN = ["a", "é", "漢", "😀", "\u0301", "\U0010ffff", "\x7f", "\u07ff", "\uffff", "_", "0", ".", "9", "\\x41", "\\n", "\\x1F600", "\\xFF", "Aé漢😀", ":", "&", "*", "-", "%s%n", "\\"]
FORM = ['"%s"', "'%s'", "x := \"%s\"\n", "x := '%s'\n", "# %s\n", "#{ %s #}\n", "#{ %s", "%s := 1\n", "%s", "return %s\n", "%s()\n", "x := %s\n", "external %s()\n",
        "x: %s = 1\n", "f(%s: Int) {\n noop\n}\n", "f(a: %s) {\n noop\n}\n", "namespace %s {\n x := 1\n}\n", "import %s\n", "%s = 1\n", "mut %s := 1\n%s = 2\n",
        "export %s := 1\n", "export %s() {\n noop\n}\n", "a.%s()\n", "x := &%s\n", "if %s {\n noop\n}\n", "x := 1 %s 2\n", "%s := Int\ny: %s = 3\n", "unreachable%s\n"]


def sized(r):
    """one dimension of a program taken to a random size"""
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 400, 1023, 1024, 4095, 4096, 5000])
    if r.random() < 0.6:
        t = "".join(r.choice(RUN) for _ in range(n)) if r.random() < 0.2 else r.choice(RUN) * n
        return (r.choice(["", "", "\ufeff", "y := 1\n"]) + r.choice(FORM).replace("%s", t)).encode()
    n = min(n, 300)
    k = r.randint(0, 8)
    nm = [r.choice(["n%d", "x%d_", "%d", "aVeryLongNameIndeed%d", "é%d"]) % i if r.random() < 0.02 else "v%d" % i for i in range(n + 1)]
    if k == 0:
        s = "f(%s) {\n noop\n}\nf(%s)\n" % (", ".join(x + ": Int" for x in nm[:n]), ", ".join("1" for _ in range(r.choice([n, n, n + 1, max(0, n - 1)]))))
    elif k == 1:
        s = "".join("%s := %d\n" % (x, i) for i, x in enumerate(nm)) + "return %s\n" % " + ".join(nm[:60])
    elif k == 2:
        s = "".join("%s() {\n noop\n}\n" % x for x in nm) + "".join("%s()\n" % x for x in nm)
    elif k == 3:
        s = "external q() Bool\nif q() {\n noop\n}\n" + "elif q() {\n noop\n}\n" * n + r.choice(["", "else {\n noop\n}\n"])
    elif k == 4:
        s = "".join("mut %s := %d\n" % (x, i) for i, x in enumerate(nm))       # two warnings each
    elif k == 5:
        s = "".join("external %s(%s)\n" % (x, ", ".join("p%d: %s" % (j, r.choice(["Int", "Bool", "Str", "&Int", "Rune", "Float"])) for j in range(r.randint(0, 20)))) for x in nm)
    elif k == 6:
        s = "x := 1\nmut p0 := &x\n" + "".join("mut p%d := &p%d\n" % (i + 1, i) for i in range(min(n, 60)))
    elif k == 7:
        s = "\n" * n + "x := 1" + "\t" * n + "\r\n" * n + " " * n
    else:
        s = "".join("T%d := %s\n" % (i, r.choice(["Int", "T%d" % (i - 1), "&Int", "Str"])) for i in range(n + 1)) + "z: T%d = 1\n" % n
    return s.encode()


def fault(r):
    f = _faults.make(r)
    return f.text.encode("utf-8", "surrogateescape") if f else soup(r)


def source(r):
    x = r.random()
    if x < 0.25:
        return soup(r)
    if x < 0.72:
        return mutate(r, base(r))
    if x < 0.8:
        return literal(r)
    if x < 0.84:
        return nest(r)
    if x < 0.88:
        return bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
    if x < 0.93:
        return fault(r)
    if x < 0.98:
        return sized(r)
    return base(r)


def options(r):
    o = []
    x = r.random()
    if x < 0.6:
        o.append(r.choice(["-E", "-E", "-c", "-S"]))
        if r.random() < 0.3:
            o.append("-O%d" % r.randint(1, 3))
    elif x < 0.85:
        o += ["--c-backend"] + (["-E"] if r.random() < 0.5 else [])
    else:
        o += ["-c", "-g"]
    if r.random() < 0.2 and "-g" not in o and "--c-backend" not in o:
        o.append("-g")
    x = r.random()
    if x < 0.15:
        o.append("-q")
    elif x < 0.3:
        o.append("--werror")
    if r.random() < 0.15:
        o.append("--color")
    r.shuffle(o)
    return o


ARGS = ("-h --help -v --version -E -S -c -g -q --werror -O1 -O2 -O3 -O4 -O -O0 --c-backend --llvm-no-verify --color -o -o=x -oout out - -- -- "
        "a.sk .sk sk a.s a.sk.sk d.sk /a.sk ./a.sk nosuch.sk -- -x --bogus é.sk a.skx").split() + ["", " ", "a b.sk", "x" * 3000, "x" * 300 + ".sk",
        "'" * 300, "a'b", "'.sk", "\\'\"$x`", "-l'", "\u6f22", "-E\u00e9"]


def cmdline(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 20])
    a = [r.choice(ARGS) for _ in range(n)]
    if r.random() < 0.5:
        a.insert(0, "a.sk")
    return a


DEEP = {"parens": "x := " + "(" * 200000 + "1" + ")" * 200000 + "\n", "chain": "x := 1" + " + 1" * 200000 + "\n"}


def deep(w, rep):
    """the two inputs of the known finding (recursion without a limit)"""
    d = w.sub("deep")
    for k, t in DEEP.items():
        with open(os.path.join(d, "a.sk"), "w") as f:
            f.write(t)
        res = w.server("asan").run(["a.sk", "-E"], d, 40)
        if res.crashed or res.signal == 11:
            rep.violation("stack-exhaustion-" + k, "the compiler overflows its stack on %s nested 200000 deep" % k, {"a.sk": t})


def uninitialised(w, rng, rep):
    d = w.sub("mem")
    src = source(rng)
    args = ["a.sk"] + rng.choice([["-E"], ["-E"], ["--c-backend"], ["-E", "-g"], ["-E", "--werror"]])
    with open(os.path.join(d, "a.sk"), "wb") as f:
        f.write(src)
    res = w.server("memcheck").run(args, d, 60)
    rep.eval(src + b"memcheck")
    rep.counts["memcheck runs"] += 1
    m = memcheck_report(res)
    if res.timed_out:
        rep.inconclusive.append("slow memcheck run")
    elif m:
        rep.violation("memcheck", "memcheck: " + m, {"a.sk": src, "args.txt": "\n".join(args), "valgrind.txt": res.stderr})


def unit(w, i, rng, rep):
    if i == 0:
        deep(w, rep)
    if i % 6 == 3:
        uninitialised(w, rng, rep)
    srv = w.server("asan")
    d = w.sub("c01")
    os.makedirs(os.path.join(d, "d.sk"), exist_ok=True)
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        if r.random() < 0.08:
            args = cmdline(r)
            # never link (that would run cc on nonsense): such command lines are C18's
            src = b"x := 1\n"
            if not any(a in ("-E", "-S", "-c", "--c-backend") for a in args):
                args.append("-E")
            args = [a for a in args if not a.startswith("/")]
            kind = "command line"
        else:
            src, args, kind = source(r), ["a.sk"] + options(r), "source"
            if r.random() < 0.3:
                r.shuffle(args)
        if kind == "source" and r.random() < 0.15:
            # the name of the file ends up in names of outputs and symbols, and in messages
            n = r.choice([1, 2, 3, 7, 8, 12, 13, 15, 16, 20, 28, 29, 60, 100, 240])
            fn = r.choice(["", "", "./", "s/", "s/../"]) + (r.choice(["f", "é", "x.", ".", "-", "a-b", "%s", "'"]) * n).encode()[:245].decode("utf-8", "ignore") + ".sk"
            if not fn.startswith("-") and fn != "a.sk":
                args = [fn if a == "a.sk" else a for a in args]
        else:
            fn = "a.sk"
        os.makedirs(os.path.join(d, "s"), exist_ok=True)
        with open(os.path.join(d, fn if not fn.startswith("-") else "a.sk"), "wb") as f:
            f.write(src)
        res = srv.run(args, d, 20)
        rep.counts["runs"] += 1
        rep.counts[kind] += 1
        rep.counts["accepted" if res.rc == 0 else "rejected"] += 1
        for o in args:
            if o.startswith("-"):
                rep.cover["options"].add(o[:20])
        m = re.search(rb"Compilation error: (?:line \d+ column \d+: )?([^\n\"]*)", res.stderr + res.stdout)
        if m:
            rep.cover["errors_reached"].add(m.group(1).decode("utf-8", "replace").strip())
        rep.eval(src + b"\0" + repr(args).encode() if src else None, {"source": src[:200].decode("utf-8", "replace"), "options": args, "exit": res.rc})
        files = {"a.sk": src, "args.txt": "\n".join(args), "output.txt": res.out[-6000:]}
        if res.timed_out:
            for _ in range(2):
                if not srv.run(args, d, 20).timed_out:
                    rep.inconclusive.append("slow run")
                    break
            else:
                rep.violation("hang", "the compiler did not end within 20 s of CPU: skull %s" % " ".join(args)[:300], files)
            continue
        if res.crashed:
            m = re.search(rb"(AddressSanitizer: [\w-]+|runtime error: [^\n]*)", res.out)
            at = re.search(rb"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/skull/", res.out)
            what = (m.group(1).decode() if m else "signal %d" % res.signal) + (" in " + at.group(1).decode() if at else "")
            rep.violation("crash: " + re.sub(r"0x[0-9a-f]+|\d+", "N", what), "the compiler crashed (%s): skull %s" % (what, " ".join(args)[:300]), files)
        elif res.rc not in (0, 1):
            rep.violation("status", "exit status %d: skull %s" % (res.rc, " ".join(args)[:300]), files)
        for n in os.listdir(d):
            if n not in ("a.sk", "d.sk"):
                p = os.path.join(d, n)
                if os.path.isfile(p) or os.path.islink(p):
                    os.unlink(p)
                else:
                    shutil.rmtree(p, ignore_errors=True)
