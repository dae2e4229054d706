"""Exported and external symbols link with C under the documented names and types."""
import os, random, re, shutil, struct, subprocess
from .. import build, exec as ex, gen, lang

PROP, LEVEL = "C22", "exploration"
RULE = ("random sets of modules with exported functions and variables of random signatures, private names that clash with each other and with C, external declarations and run-time state, compiled in every mode (objects at every optimisation level, "
        "with debug information, assembly) and linked into one program with a generated C driver, or into an executable the compiler links itself; the driver calls everything with random values in a random order and both sides log what arrives; "
        "the log is compared with the model, the symbol tables with the documented names; non-trivial: every linked program; distinct by its sources")
ASSUMPTIONS = ["C types: Int int64_t, Float double, Bool _Bool, Rune char32_t, Str char *, & pointers", "LLVM backend; module names of letters, digits, dots and underscores"]
UNITS = {"quick": 250, "thorough": 5000}
VARIANTS = ("plain",)
PER = 2
T = [lang.INT, lang.FLOAT, lang.BOOL, lang.RUNE, lang.STR]
C = {lang.INT: "int64_t", lang.FLOAT: "double", lang.BOOL: "_Bool", lang.RUNE: "char32_t", lang.STR: "const char *"}
S = {lang.INT: "i", lang.FLOAT: "f", lang.BOOL: "b", lang.RUNE: "r", lang.STR: "s"}
MODS = ["a", "b", "c", "ab", "a_b", "a.b", "A", "mod1", "main", "x.y.z", "o", "init", "exit2", "Q" * 40, "puts", "f"]
NAMES = ["f", "g", "x", "get", "set_", "a", "b", "main", "init", "start", "puts", "exit", "strlen", "abs", "open", "f1", "f2", "longer_name_" + "q" * 50, "F", "X9", "module", "printf", "free", "memcpy", "pow2", "a_f", "int_pow", "strcmp", "data", "bss", "text", "end"]
CNAMES = ["cf", "cg", "c_call", "Callback", "cf1", "cf2", "get_value", "zeta", "k" * 60, "c_0", "helper2", "tick"]


def ctext(t, v):
    if t == lang.INT:
        return "(-9223372036854775807LL - 1)" if v == -(1 << 63) else "%dLL" % v
    if t == lang.FLOAT:
        return "sk_bits(0x%016xULL)" % struct.unpack("<Q", struct.pack("<d", v))[0]
    if t == lang.BOOL:
        return "1" if v else "0"
    if t == lang.RUNE:
        return "0x%xu" % v
    return '"%s"' % "".join("\\x%02x\" \"" % b for b in v)

CALL = {lang.INT: "sk_qi", lang.STR: "sk_qs", lang.FLOAT: "sk_qf"}




def computed(r, t, v, text):
    """the same value, found at run time"""
    if t == lang.BOOL and r.random() < 0.6:
        a, b = r.randint(0, 9), r.randint(10, 99)
        yes = ["sk_qi(%d) < sk_qi(%d)" % (a, b), "sk_qi(%d) isnt sk_qi(%d)" % (a, b), "sk_qf(%d.5) is sk_qf(%d.5)" % (a, a), "sk_qf(%d.5) > sk_qf(%d.5)" % (b, a),
               "sk_qs(\"a%d\") is \"a%d\"" % (a, a), "not (sk_qs(\"a\") is \"b\")", "(sk_qi(%d) > %d) and (sk_qi(%d) > 0)" % (b, a, b), "(sk_qi(%d) > %d) xor (sk_qi(0) > 0)" % (b, a)]
        no = ["sk_qi(%d) > sk_qi(%d)" % (a, b), "sk_qi(%d) is sk_qi(%d)" % (a, b), "sk_qf(%d.5) isnt sk_qf(%d.5)" % (a, a), "sk_qs(\"a\") isnt \"a\"", "(sk_qi(%d) > %d) and (sk_qi(%d) < 0)" % (b, a, b),
              "(sk_qi(%d) > %d) xor (sk_qi(1) > 0)" % (b, a)]
        return r.choice(yes if v else no)
    if t in CALL and r.random() < 0.15:
        return "%s(%s)" % (CALL[t], text)
    return text


def clutter(r, taken):
    """private definitions of every kind, which no other module may see (lines; none of them logs anything)"""
    left = [n for n in NAMES if n not in taken]
    r.shuffle(left)
    lit = {"Int": "7", "Float": "1.5", "Bool": "true", "Rune": "'x'", "Str": "\"private\""}
    out = []

    def var(ind):
        t = r.choice(T)
        e = lit[t] if r.random() < 0.6 or t not in CALL else "%s(%s)" % (CALL[t], lit[t])
        n = left.pop()
        return [ind + "%s%s := %s" % (r.choice(["", "mut "]), n, e)]

    def fn(ind, deep):
        n = left.pop()
        ts = [r.choice(T) for _ in range(r.choice([0, 1, 2, 5, 7, 8, 13, 30]))]
        ret = r.choice(T + [None])
        b = []
        if deep < 2 and left and r.random() < 0.3:
            b += fn(ind + "\t", deep + 1)
        if left and r.random() < 0.3:
            b += var(ind + "\t")
        b.append(ind + "\t" + ("return " + lit[ret] if ret else "noop"))
        return [ind + "%s(%s)%s {" % (n, ", ".join("p%d_%d: %s" % (x[0], deep, x[1]) for x in enumerate(ts)), " " + ret if ret else "")] + b + [ind + "}"]

    def block(ind, deep):
        o = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if not left:
                break
            if k < 0.45:
                o += var(ind)
            elif k < 0.75:
                o += fn(ind, 0)
            elif deep < 3 and k < 0.9:
                o += [ind + "namespace %s {" % left.pop()] + block(ind + "\t", deep + 1) + [ind + "}"]
            elif deep < 3:
                o += [ind + r.choice(["if sk_qi(1) is 1 {", "if sk_qi(1) is 2 {"])] + block(ind + "\t", deep + 1) + [ind + "}"]
        return o or [ind + "noop"]
    for _ in range(r.randint(1, 4)):
        if left:
            out += block("", 0)
    return out


class Fn:
    def __init__(self, name, types, ret):
        self.name, self.types, self.ret = name, types, ret

    def cdecl(self, sym, asm=None):
        return "%s %s(%s)%s" % (C[self.ret] if self.ret else "void", sym, ", ".join((C[t.lstrip("&")] + (" *" if t[0] == "&" else "")) + " p%d" % i for i, t in enumerate(self.types)) or "void", ' __asm__("%s")' % asm if asm else "")


def sig(r, refs=True):
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 7, 9, 12, 20])
    ts = [r.choice(T) for _ in range(n)]
    if r.random() < 0.25:
        ts = [r.choice([lang.BOOL, lang.RUNE, lang.FLOAT])] * n
    if refs:
        ts = ["&" + t if r.random() < 0.1 else t for t in ts]
    return ts


class World:
    """modules, C functions, the driver, and the log they have to produce"""

    def __init__(self, r):
        self.r, self.g = r, gen.Gen(random.Random(r.getrandbits(64)))
        self.ev, self.state = [], {}
        self.mods = r.sample(MODS, r.choice([1, 2, 2, 3, 4]))
        self.cfns = []
        for n in r.sample(CNAMES, r.randint(1, 4)):
            self.cfns.append(self.cfn(n))
        self.text, self.exports, self.vars, self.body, self.ret = {}, {}, {}, {}, {}
        for m in self.mods:
            self.module(m)

    def value(self, t):
        while True:
            l = self.g.lit(t)
            if t == lang.FLOAT and l.value != l.value:
                continue
            if t == lang.STR and 0 in l.value:
                continue
            return l

    def cfn(self, n):
        r = self.r
        f = Fn(n, sig(r, False), r.choice(T + [None]))
        k = [i for i, t in enumerate(f.types) if t == f.ret]
        f.back = r.choice(k) if k and r.random() < 0.6 else None
        f.const = self.value(f.ret) if f.ret and f.back is None else None
        return f

    def fmtv(self, t, v):
        return lang.fmt(t, v)

    def call_c(self, f, args):
        self.ev.append(" ".join(["C:" + f.name] + [lang.fmt(t, v) for t, v in zip(f.types, args)]))
        if f.ret is None:
            return None
        return args[f.back] if f.back is not None else f.const.value

    def log(self, t, v):
        self.ev.append("sk_p%s %s" % (S[t], lang.fmt(t, v)))

    def module(self, m):
        r = self.r
        need, out, fns, vs = set(), [], [], []
        tag = r.randint(0, 10**6)
        names = r.sample(NAMES, r.randint(3, 9))
        cused = [f for f in self.cfns if r.random() < 0.7]
        names = [n for n in names if n not in [f.name for f in cused]]
        help_, cnt = names.pop(), names.pop()
        # private: a counter and a function, under names other modules use for other things
        need.add("i")
        uses_cnt = r.random() < 0.7
        if uses_cnt:
            out += ["mut %s := %d" % (cnt, tag)]
            self.state[m] = tag
        k = r.randint(1, 99)
        out += ["%s(v: Int) Int {" % help_, "\tsk_pi(v + %d)" % k, "\treturn v - %d" % k, "}"]
        init = []

        def priv(v):
            self.log(lang.INT, v + k)
            return v - k
        for n in names:
            if r.random() < 0.3:
                t = r.choice(T)
                l = self.value(t)
                how = r.choice(["plain", "plain", "typed", "expr", "call"])
                if how == "call" and t in CALL:
                    out.append("export %s := %s(%s)" % (n, CALL[t], l.text))
                elif how == "typed":
                    out.append("export %s: %s = %s" % (n, t, l.text))
                elif how == "expr" and t == lang.INT and abs(l.value) < 1 << 40:
                    out.append("export %s := %s + 1 - 1" % (n, l.text))
                else:
                    out.append("export %s := %s" % (n, l.text))
                vs.append((n, t, l.value))
                continue
            f = Fn(n, sig(r), None)
            plain = [(i, t) for i, t in enumerate(f.types) if t[0] != "&"]
            ways = ["none", "const", "param", "param", "c", "c", "count", "helper"]
            way = r.choice(ways)
            body, acts = [], []
            for i, t in enumerate(f.types):
                b = t.lstrip("&")
                need.add(S[b])
                body.append("\tsk_p%s(%sp%d)" % (S[b], "*" if t[0] == "&" else "", i))
            back = None
            if way == "param" and plain:
                i, f.ret = r.choice(plain)
                body.append("\treturn p%d" % i)
                back = ("param", i)
            elif way == "c" and cused:
                c = r.choice(cused)
                argl, argv = [], []
                for t in c.types:
                    ps = [i for i, u in plain if u == t]
                    if ps and r.random() < 0.7:
                        i = r.choice(ps)
                        argl.append("p%d" % i)
                        argv.append(("param", i))
                    else:
                        l = self.value(t)
                        argl.append(computed(r, t, l.value, l.text))
                        argv.append(("lit", l.value))
                call = "%s(%s)" % (c.name, ", ".join(argl))
                f.ret = c.ret
                body.append("\t" + ("return " if c.ret else "") + call)
                back = ("c", c, argv)
            elif way == "count" and uses_cnt:
                f.ret = lang.INT
                body += ["\t%s = %s + 1" % (cnt, cnt), "\treturn " + cnt]
                back = ("count",)
            elif way == "helper":
                ps = [i for i, u in plain if u == lang.INT]
                f.ret = lang.INT
                a = "p%d mod 1000" % r.choice(ps) if ps else "7"
                body.append("\treturn %s(%s)" % (help_, a))
                back = ("helper", int(a[1:a.index(" ")]) if ps else None)
            elif way == "const":
                f.ret = r.choice(T)
                l = self.value(f.ret)
                body.append("\treturn " + l.text)
                back = ("lit", l.value)
            if not body:
                body = ["\tnoop"]
            out += ["export %s(%s)%s {" % (n, ", ".join("p%d: %s" % x for x in enumerate(f.types)), " " + f.ret if f.ret else "")] + body + ["}"]
            f.back, f.priv, f.mod = back, priv, m
            fns.append(f)
        # arithmetic and comparisons that need the built-in helpers
        extra = []
        if r.random() < 0.5:
            need |= {"i", "f", "b"}
            e = r.randint(0, 5)
            extra += [("sk_pi(%s)", "sk_qi(3) ^ %d" % e, lang.INT, 3 ** e), ("sk_pb(%s)", 'sk_qs("ab") is "ab"', lang.BOOL, True), ("sk_pf(%s)", "sk_qf(2.0) ^ 3.0", lang.FLOAT, 8.0)]
        calls = []
        if r.random() < 0.5:
            calls.append("\n".join(["sk_pi(%s(%d))" % (help_, tag)]))
        for c in cused:
            if r.random() < 0.5:
                calls.append((c, [self.value(t) for t in c.types]))
        ret = r.randint(-100, 100)
        b = ["sk_pi(%d)" % tag]
        b += [p % e for p, e, _, _ in extra]
        for c in calls:
            if isinstance(c, str):
                b.append(c)
            else:
                call = "%s(%s)" % (c[0].name, ", ".join(computed(r, t, l.value, l.text) for t, l in zip(c[0].types, c[1])))
                b.append("sk_p%s(%s)" % (S[c[0].ret], call) if c[0].ret else call)
                if c[0].ret:
                    need.add(S[c[0].ret])
        if r.random() < 0.5:
            b += clutter(r, set(names) | {help_, cnt} | {f.name for f in cused})
        b.append("return %d" % ret)
        ext = ["external sk_p%s(x: %s)" % (S[t], t) for t in T if S[t] in need]
        if "sk_q" in "\n".join(out + b):
            ext += ["external sk_qi(x: Int) Int", "external sk_qs(x: Str) Str", "external sk_qf(x: Float) Float"]
        for c in cused:
            ext.append("external %s(%s)%s" % (c.name, ", ".join("q%d: %s" % x for x in enumerate(c.types)), " " + c.ret if c.ret else ""))
        r.shuffle(ext)
        # exported definitions in any order relative to each other, after what they use
        self.text[m] = "\n".join(ext + out + b) + "\n"
        self.exports[m], self.vars[m], self.ret[m] = fns, vs, ret
        self.allowed = getattr(self, "allowed", {})
        self.allowed[m] = {"sk_p" + x for x in need} | {c.name for c in cused} | {"sk_qi", "sk_qs", "sk_qf", "pow", "strcmp", "memcpy", "memset"}

        def entry():
            self.log(lang.INT, tag)
            for _, _, t, v in extra:
                self.log(t, v)
            for c in calls:
                if isinstance(c, str):
                    self.log(lang.INT, priv(tag))
                else:
                    v = self.call_c(c[0], [l.value for l in c[1]])
                    if c[0].ret:
                        self.log(c[0].ret, v)
            return ret
        self.body[m] = entry

    def call(self, f, args):
        for t, v in zip(f.types, args):
            self.log(t.lstrip("&"), v)
        b = f.back
        if b is None:
            return None
        pick = lambda x: args[x[1]] if x[0] == "param" else x[1]
        if b[0] in ("param", "lit"):
            return pick(b)
        if b[0] == "c":
            return self.call_c(b[1], [pick(x) for x in b[2]])
        if b[0] == "count":
            self.state[f.mod] += 1
            return self.state[f.mod]
        a = args[b[1]] if b[1] is not None else None
        v = 7 if a is None else int(abs(a) % 1000) * (1 if a >= 0 else -1)
        return f.priv(v)

    def ctext(self):
        o = ["#include <stdint.h>", "#include <stdio.h>", "#include <string.h>", "#include <uchar.h>",
             "void sk_log(const char *, size_t);", "void sk_v_i(char *, int64_t); void sk_v_f(char *, double); void sk_v_b(char *, _Bool); void sk_v_r(char *, int32_t); void sk_v_s(char *, const char *);",
             "static double sk_bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }"]
        for f in self.cfns:
            o.append(f.cdecl(f.name) + " {\n\tchar b[40000]; int n = sprintf(b, \"C:%s\");" % f.name)
            for i, t in enumerate(f.types):
                o.append("\tsk_v_%s(b + n, p%d); n += (int)strlen(b + n);" % (("i", i) if t == lang.BOOL else (S[t], i)))
            o.append("\tb[n] = '\\n'; sk_log(b, (size_t)n + 1);")
            if f.ret:
                o.append("\treturn %s;" % ("p%d" % f.back if f.back is not None else ctext(f.ret, f.const.value)))
            o.append("}")
        return "\n".join(o) + "\n"

    def driver(self, main, first=None):
        """C text of a function that uses everything; appends to the expected log"""
        r = self.r
        o = []
        for k, m in enumerate(self.mods):
            o.append('extern int64_t e%d(void) __asm__(".%s");' % (k, m))
            for j, f in enumerate(self.exports[m]):
                o.append("extern " + f.cdecl("m%d_%d" % (k, j), m + "." + f.name) + ";")
            for j, (n, t, v) in enumerate(self.vars[m]):
                o.append('extern %s v%d_%d __asm__("%s.%s");' % (C[t] if t != lang.STR else "const char *", k, j, m, n))
        o.append("%s {\n\tchar b[40000];" % main)

        def logret(t, expr, v, what):
            o.append('\t{ strcpy(b, "%s"); sk_v_%s(b + strlen(b), %s); strcat(b, "\\n"); sk_log(b, strlen(b)); }' % (what, "i" if t == lang.BOOL else S[t], expr))
            self.ev.append("%s %s" % (what, lang.fmt(t, v)))
        order = list(range(len(self.mods)))
        r.shuffle(order)
        ready = []
        for k in order:
            m = self.mods[k]
            if m == first:
                ready.append(k)
                continue
            v = self.body[m]()
            logret(lang.INT, "e%d()" % k, v, "entry%d" % k)
            ready.append(k)
            for _ in range(r.randint(0, 3)):
                self.some_call(o, r.choice(ready), logret)
        for _ in range(r.randint(4, 14)):
            self.some_call(o, r.choice(ready), logret)
        for k, m in enumerate(self.mods):
            for j, (n, t, v) in enumerate(self.vars[m]):
                logret(t, "v%d_%d" % (k, j), v, "var%d_%d" % (k, j))
        o.append("}")
        return "\n".join(o) + "\n"

    def some_call(self, o, k, logret):
        m = self.mods[k]
        if not self.exports[m]:
            return
        j = self.r.randrange(len(self.exports[m]))
        f = self.exports[m][j]
        vals = [self.value(t.lstrip("&")).value for t in f.types]
        args = ["&(%s){%s}" % (C[t[1:]], ctext(t[1:], v)) if t[0] == "&" else ctext(t, v) for t, v in zip(f.types, vals)]
        call = "m%d_%d(%s)" % (k, j, ", ".join(args))
        v = self.call(f, vals)
        if f.ret:
            logret(f.ret, call, v, "ret%d_%d" % (k, j))
        else:
            o.append("\t%s;" % call)


MODES = [["-c"], ["-c"], ["-c", "-O1"], ["-c", "-O2"], ["-c", "-O3"], ["-c", "-g"], ["-c", "-g", "-O2"], ["-S"], ["-S", "-O2"]]


def symbols(w, W, m, obj, rep, bad, exe=False):
    p = subprocess.run(["nm", "-P", obj], capture_output=True, text=True)
    und, glob, weak = set(), set(), set()
    for l in p.stdout.splitlines():
        f = l.split()
        if f[1] == "U":
            und.add(f[0])
        elif f[1] in "WVwv":    # the compiler's own helpers may be shared by all modules
            weak.add(f[0])
        elif f[1].isupper() or f[1] == "u":
            glob.add(f[0])
    want = {"." + m} | {m + "." + f.name for f in W.exports[m]} | {m + "." + n for n, _, _ in W.vars[m]}
    rep.counts["symbol tables read"] += 1
    if glob != want:
        bad("symbols", "module %s defines the global symbols %s; missing %s, unexpected %s" % (m, sorted(glob), sorted(want - glob), sorted(glob - want)))
        return False
    clash = {x for x in weak if x.rsplit(".", 1)[-1] in NAMES}
    if clash:
        bad("weak", "module %s makes %s visible to other modules" % (m, sorted(clash)))
        return False
    if und - W.allowed[m]:
        bad("undefined", "module %s refers to %s, which it does not declare" % (m, sorted(und - W.allowed[m])))
        return False
    return True


def one(w, r, rep, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    W = World(r)
    dirs = {m: r.choice(["", "", "", "x/", "x/y/", "x.sk/z/", "a/b/c/d/"]) for m in W.mods}
    for m in W.mods:
        os.makedirs(os.path.join(d, dirs[m]), exist_ok=True)
    spell = lambda m: r.choice(["", "", "./", d + "/"]) + dirs[m] + m + ".sk"
    files = {dirs[m] + m + ".sk": t for m, t in W.text.items()}
    for n, t in files.items():
        with open(os.path.join(d, n), "w", newline="\n") as f:
            f.write(t)
    srv = w.server()
    exe = r.random() < 0.3
    first = W.mods[0] if exe else None
    used = {}

    def bad(key, msg):
        rep.violation(key, msg, dict(files, **{"modes.txt": repr(used)}))
    objs = []
    for m in W.mods:
        if m == first:
            continue
        mode = used[m] = r.choice(MODES)
        res = srv.run([spell(m)] + mode, d, 30)
        if res.timed_out:
            rep.inconclusive.append("timeout")
            return
        if res.rc != 0:
            return bad("refused", "module %s is refused (%s): %s" % (m, mode, res.stderr[-300:].decode("utf-8", "replace")))
        o = os.path.join(d, dirs[m], ".%s.sk.o" % m)
        if "-S" in mode:
            o = os.path.join(d, m + ".as.o")
            q = subprocess.run([ex.AS, "-c", os.path.join(d, dirs[m], ".%s.sk.s" % m), "-o", o], capture_output=True)
            if q.returncode:
                return bad("assembly", "module %s: %s" % (m, q.stderr[-300:]))
        if not symbols(w, W, m, o, rep, bad):
            return
        objs.append(o)
    sep = "void skv_drive(void)" if exe else "void sk_run(void)"
    if exe:
        # the first module's own entry runs first, then it calls the driver
        W.ev.clear()
        t = W.text[first]
        body = t.rstrip("\n").split("\n")
        body.insert(len(body) - 1, "skv_drive()")
        body.insert(0, "external skv_drive()")
        files[dirs[first] + first + ".sk"] = "\n".join(body) + "\n"
        with open(os.path.join(d, dirs[first] + first + ".sk"), "w") as f:
            f.write(files[dirs[first] + first + ".sk"])
        W.body[first]()
    drv = W.ctext() + W.driver(sep, first)
    if not exe:
        drv += "int main(void) { sk_run(); return 0; }\n"
    files["driver.c"] = drv
    with open(os.path.join(d, "driver.c"), "w") as f:
        f.write(drv)
    out = os.path.join(d, "prog.out")
    if exe:
        mode = used[first] = r.choice([[], ["-O2"], ["-g"], ["-O3"]])
        # the driver cannot refer to the first module's entry: its exports it can
        res = srv.run([spell(first), "-o", "prog.out"] + mode + ["--", "driver.c", "-w"] + [os.path.relpath(o, d) for o in objs] + [ex.rt_obj("standalone")], d, 60)
        if res.timed_out:
            rep.inconclusive.append("timeout")
            return
        if res.rc != 0:
            return bad("link", "linking %s with %s fails: %s" % (first, W.mods[1:], res.stderr[-500:].decode("utf-8", "replace")))
    else:
        q = subprocess.run([r.choice(["gcc", "clang"]), "-w", r.choice(["-O0", "-O2"]), os.path.join(d, "driver.c")] + objs + [ex.rt_obj("standalone"), "-lm", "-o", out], capture_output=True)
        if q.returncode:
            return bad("link", "linking the modules %s fails: %s" % (W.mods, q.stderr[-600:].decode("utf-8", "replace")))
    try:
        q = subprocess.run([out], capture_output=True, timeout=60, stdin=subprocess.DEVNULL, preexec_fn=ex._limits)
    except subprocess.TimeoutExpired:
        rep.inconclusive.append("timeout")
        return
    got = q.stdout.decode("utf-8", "replace").splitlines()
    rep.eval(repr(sorted(files.items())), {"modules": W.mods, "events": len(W.ev), "modes": used})
    rep.counts["programs linked and run"] += 1
    rep.counts["events compared"] += len(got)
    rep.counts["modules"] += len(W.mods)
    rep.counts["exported functions"] += sum(map(len, W.exports.values()))
    rep.counts["exported variables"] += sum(map(len, W.vars.values()))
    for m in W.mods:
        rep.cover["modes"].add(" ".join(used.get(m, [])) or "executable")
        for f in W.exports[m]:
            rep.cover["parameters"].add(len(f.types))
    want_rc = W.ret[first] & 255 if exe else 0
    if got != W.ev:
        k = next((i for i, (x, y) in enumerate(zip(got, W.ev)) if x != y), min(len(got), len(W.ev)))
        files["expected.txt"], files["observed.txt"] = "\n".join(W.ev), "\n".join(got)
        return bad("behaviour", "modules %s (%s): event %d: expected %s, observed %s (exit %d)" % (W.mods, used, k, W.ev[k] if k < len(W.ev) else "the end", got[k] if k < len(got) else "the end", q.returncode))
    if q.returncode != want_rc:
        return bad("exit", "exit status %d, expected %d" % (q.returncode, want_rc))


def unit(w, i, rng, rep):
    for _ in range(PER):
        one(w, random.Random(rng.getrandbits(64)), rep, os.path.join(w.dir, "c22"))
