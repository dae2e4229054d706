"""Whatever is accepted gives a complete, valid output in every mode."""
import os, random, re, shutil, subprocess
from .. import exec as ex, gen, lang
from ..lang import *
from . import _sem, c05, c06, c07, c08, c10

PROP, LEVEL = "C04", "exploration"
RULE = ("random well-formed programs (also with names that mean something to assemblers, LLVM, C or the runtime, near-empty ones and odd file names) x output modes x options x "
        "destination (default name, -o file, standard output); IR judged by LLVM's assembler and verifier, assembly by clang, objects by the linker, executables by running them, C by gcc; the same output "
        "asked for in two ways must be the same bytes; non-trivial: every output judged; distinct by source, mode and options")
ASSUMPTIONS = ["programs given to the C backend stay in the subset of C10", "LLVM's assembly is assembled with clang (GNU as does not know all of its directives)",
               "-S and the C backend are judged for file names of letters, digits, dots and underscores: the name becomes part of symbols"]
UNITS = {"quick": 180, "thorough": 6000}
VARIANTS = ("plain",)
PER = 4
LLVM_AS = shutil.which("llvm-as-19") or shutil.which("llvm-as")

NAMES = ("main init exit _start start _strcmp _int_pow _float_pow pow strcmp printf puts malloc free abort read write environ errno stdin _init _fini __libc_start_main _end _GLOBAL_OFFSET_TABLE_ "
         "rax rsp eax rip st al xmm0 cs ds byte word ptr offset i1 i8 i64 double void define declare global private entry label null undef poison true_ false_ zeroinitializer llvm_ret memcpy memset fmod sin "
         "a.b data text bss section globl type size align quad align8 L1 LBB0_1 shim LL_SHIM skull expr if_ while_ end module str int_ float_ x86_64 data_ rodata eh_frame asm volatile register goto switch").split()
FILES = ["a.sk"] * 6 + ["main.sk", "a b.sk", "a-b.sk", "é漢.sk", "1.sk", "a.b.c.sk", "s/x.sk", "./s/../y.sk", "printf.sk", "x'y.sk", "$HOME.sk", "a;b.sk", "_.sk", "Z" * 100 + ".sk", "%d.sk", "{a}.sk", "a\"q.sk", "b\\c.sk", "t\tu.sk"]


def named(r):
    """declarations of every kind under odd names, all of them used"""
    b = _sem.B(r)
    ns = [n for n in NAMES if n[0].isalpha() and "." not in n]
    r.shuffle(ns)
    body = []
    for n in ns[:r.randint(3, 14)]:
        if n in lang.KEYWORDS or b.g.visible(n):
            continue
        k = r.randint(0, 4)
        if k == 0:
            v = b.var(r.choice(gen.DEFAULT["types"]), False, n)
            v.export = r.random() < 0.5
            body += [Def(v, b.g.lit(v.type)), b.log(Use(v))]
        elif k == 1:
            v = b.var(r.choice(gen.DEFAULT["types"]), True, n)
            body += [Def(v, b.q(b.g.lit(v.type))), Assign(v, b.g.lit(v.type)), b.log(Use(v))]
        else:
            t, u = r.choice(gen.DEFAULT["types"]), r.choice(gen.DEFAULT["types"])
            fd = b.func([t], u, lambda f: [b.log(Use(f.params[0])), Return(b.g.lit(u))], n, export=k == 2)
            body += [fd, b.log(Call(fd.fn, [b.g.lit(t)]))]
    return b.finish(body or [Simple("noop")])


TINY = ["noop\n", "return 0\n", "return 7", "# only a comment\n", "x := 1\n", "export x := 1\n", "external sk_pi(x: Int)\n", "f() {\n\tnoop\n}\n", "export f() Int {\n\treturn 3\n}\n", "namespace n {\n\tnoop\n}\n", "T := Int\n",
        "if true {\n\tnoop\n}\n", "while false {\n\tnoop\n}\n", "external exit(x: Int)\nexit(3)\n", "external abs(x: Int) Int\nreturn abs(-4)\n", "external puts(x: Str)\nputs(\"\")\n", "unreachable_ := 1\n", "return 2 ^ 3\n",
        "if \"a\" is \"b\" {\n\treturn 1\n}\n", "x := 2.0 ^ 3.0\n", "mut i := 0\nwhile i < 3 {\n\ti = i + 1\n}\nreturn i\n", "export main() {\n\tnoop\n}\nmain()\n", "start() {\n\tnoop\n}\nstart()\n"]


def program(r):
    x = r.random()
    if x < 0.2:
        return named(r)
    if x < 0.5:
        return gen.make(r)
    return r.choice([c05, c06, c07, c08]).program(r)[:4]


def cmd(args, **kw):
    p = subprocess.run(args, capture_output=True, timeout=120, **kw)
    return p.returncode, p.stderr.decode("utf-8", "replace")[-800:]


SAFE = [f for f in FILES if re.fullmatch(r"(.*/)?[A-Za-z_][A-Za-z0-9_.]*", f)]


class Ctx:
    def __init__(self, w, r, rep, text, fn):
        self.w, self.r, self.rep, self.text, self.fn = w, r, rep, text, fn
        self.d = w.sub("val")
        os.makedirs(os.path.join(self.d, "s"), exist_ok=True)
        with open(os.path.join(self.d, fn), "wb") as f:
            f.write(text.encode())

    def bad(self, key, msg, args, res=None):
        self.rep.violation(key, "skull %s: %s" % (" ".join([self.fn] + args), msg), {"program.sk": self.text, "output.txt": res.out[-3000:] if res else b""})
        return False

    def compile(self, args, quiet=True):
        """the compiler must accept"""
        res = self.w.server().run([self.fn] + args, self.d, 30)
        if res.timed_out:
            self.rep.inconclusive.append("timeout")
            return None
        if res.crashed or res.signal or res.rc != 0:
            self.bad("refused", "a well-formed program is refused or crashes the compiler (status %d): %s" % (res.status, res.out[-300:].decode("utf-8", "replace")), args, res)
            return None
        return res

    def default(self, ext):
        h, t = os.path.split(self.fn)
        return os.path.join(self.d, h, ".%s.%s" % (t, ext))

    def output(self, args, ext):
        """bytes of the output, asked for in one or two ways"""
        ways = ["default", "file", "stdout"] if ext != "o" else ["default", "file"]
        got = {}
        for k in self.r.sample(ways, self.r.choice([1, 1, 2])):
            a = list(args)
            if k == "file":
                a += ["-o", "out." + ext]
            elif k == "stdout":
                a += ["-o", "-"]
            elif ext == "ll":
                k = "stdout"
            if "--c-backend" in a and "-E" in a and k == "default":
                k = "stdout"
            res = self.compile(a)
            if res is None:
                return None
            p = {"default": self.default(ext), "file": os.path.join(self.d, "out." + ext), "stdout": None}[k]
            if p is not None and not os.path.exists(p):
                self.bad("missing", "exit status 0 but no output file %s" % os.path.basename(p), a, res)
                return None
            if p is None:
                got[k] = res.stdout
            else:
                with open(p, "rb") as f:
                    got[k] = f.read()
            if not got[k]:
                self.bad("empty", "exit status 0 but the output is empty", a, res)
                return None
            self.rep.cover["destinations"].add("%s to %s" % (ext, k))
        if len(set(got.values())) > 1:
            self.bad("differs", "the output differs between " + " and ".join(sorted(got)), args)
            return None
        b = next(iter(got.values()))
        p = os.path.join(self.d, "judge." + ext)
        with open(p, "wb") as f:
            f.write(b)
        return p


def opts(r):
    return r.choice([[], [], ["-O1"], ["-O2"], ["-O3"]]) + r.choice([[], [], ["-g"]]) + r.choice([[], [], [], ["-q"], ["--color"], ["--llvm-no-verify"]])


def judge(c, mode, o, ret):
    r, d = c.r, c.d
    c.rep.cover["modes"].add(" ".join([mode] + o))
    c.rep.eval(c.text + repr((mode, o, c.fn)), {"mode": mode, "options": o, "source": c.text[-200:]})
    c.rep.counts["outputs judged"] += 1
    if mode == "-E":
        p = c.output(["-E"] + o, "ll")
        if p:
            rc, e = cmd([LLVM_AS, p, "-o", os.path.join(d, "judge.bc")])
            if rc:
                c.bad("ir", "LLVM refuses the IR: " + e, ["-E"] + o)
    elif mode == "-S":
        p = c.output(["-S"] + o, "s")
        if p:
            rc, e = cmd([ex.AS, "-c", p, "-o", os.path.join(d, "judge.o")])
            if rc:
                c.bad("asm", "the assembly does not assemble: " + e, ["-S"] + o)
            else:
                link(c, os.path.join(d, "judge.o"), ["-S"] + o)
    elif mode == "-c":
        p = c.output(["-c"] + o, "o")
        if p:
            link(c, p, ["-c"] + o)
    elif mode == "exe":
        a = o + (["-o", "prog"] if r.random() < 0.5 else []) + ["--", ex.rt_obj("standalone"), "-lm"]
        res = c.compile(a)
        if res:
            p = os.path.join(d, "prog" if "-o" in a else c.fn[:-3])
            if not os.path.exists(p):
                c.bad("missing", "exit status 0 but no executable", a, res)
                return
            try:
                q = subprocess.run([p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60, preexec_fn=ex._limits)
            except OSError as e:
                c.bad("exe", "the executable cannot be started: %s" % e, a, res)
                return
            except subprocess.TimeoutExpired:
                c.rep.inconclusive.append("program timeout")
                return
            if q.returncode < 0 or (ret is not None and q.returncode != ret & 255):
                c.bad("exe", "the executable ends with status %d (expected %s)" % (q.returncode, ret), a, res)


def link(c, o, args):
    h, t = os.path.split(c.fn)
    sym = "." + t[:-3]
    e = ""
    if re.fullmatch(r"[A-Za-z0-9_.]+", sym):
        t = os.path.join(c.d, "t.c")
        with open(t, "w") as f:
            f.write("#include <stdint.h>\nextern int64_t f0(void) __asm__(\"%s\");\nint64_t (*const sk_table[])(void) = {f0};\nconst int sk_count = 1;\n" % sym)
        rc, e = cmd(["gcc", "-o", os.path.join(c.d, "linked"), t, o, ex.rt_obj("batch"), "-lm"])
    else:
        rc, e = cmd(["gcc", "-o", os.path.join(c.d, "linked.so"), "-shared", o, ex.rt_obj("batch"), "-lm"])
    if rc:
        c.bad("link", "the object does not link: " + e, args)


def unit(w, i, rng, rep):
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        ret = None
        if r.random() < 0.12:
            text = TINY[(i * PER + k) % len(TINY)]
        else:
            p = program(r)
            text, ret = lang.show(p[0], lang.RandomLayout(random.Random(r.getrandbits(64))) if r.random() < 0.3 else None), p[2]
        c = Ctx(w, r, rep, text, r.choice(FILES))
        rep.cover["file names"].add(c.fn)
        # the file name becomes part of symbol names: not every assembler takes every character there
        for mode in r.sample(["-E", "-S", "-c", "exe"] if c.fn in SAFE else ["-E", "-c", "exe"], 3):
            judge(c, mode, opts(r), ret)
    for _ in range(3):
        r = random.Random(rng.getrandbits(64))
        p = c10.program(r)
        text = lang.show(p[0], p[4])
        c = Ctx(w, r, rep, text, r.choice(SAFE))
        a = p[5] + r.choice([[], [], ["-E"]])
        p = c.output(a, "c")
        rep.eval(text + repr(a))
        rep.counts["outputs judged"] += 1
        if p:
            rc, e = cmd(["gcc", "-std=gnu2x", "-w", "-c", p, "-o", os.path.join(c.d, "judge.o")])
            if rc:
                c.bad("c", "the C does not compile: " + e, a)
                continue
            rc, e = cmd(["gcc", "-o", os.path.join(c.d, "cprog"), os.path.join(c.d, "judge.o"), ex.rt_obj("standalone"), "-lm"])
            if rc:
                c.bad("c-link", "the compiled C does not link: " + e, a)
