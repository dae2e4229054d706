"""Compile generated programs with the compiler under test, link them together
with the runtime monitor, run them, and hand back what was observed."""
import os, re, resource, shutil, signal, subprocess, tempfile
from . import build
from .server import Server, base_env

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_rt = {}
LLC = shutil.which("llc-19") or shutil.which("llc")
AS = shutil.which("clang") or "gcc"     # LLVM writes assembly for its own assembler


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (5, 6))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))



def rt_obj(mode):
    """rt.o for mode 'batch' or 'standalone' (built once per run, by the parent)."""
    if mode not in _rt:
        o = os.path.join(build.scratch(), "rt-%s.o" % mode)
        if not os.path.exists(o):
            subprocess.run(["gcc", "-c", "-O1", "-fno-omit-frame-pointer", "-w", "-fPIC", "-DSK_%s" % mode.upper(),
                            os.path.join(HERE, "native", "rt.c"), "-o", o + ".tmp"], check=True)
            os.rename(o + ".tmp", o)
        _rt[mode] = o
    return _rt[mode]


class Obs:
    """What one program did."""
    __slots__ = ("compile", "status", "done", "ret", "events", "over", "err")

    def __init__(self):
        self.compile = self.status = self.done = self.ret = self.events = self.over = None
        self.err = None


def clean_dir(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


class Batch:
    """Runs lists of programs: each is (source text, compiler args, mode)."""

    copt = "-O0"                            # for the C backend's output

    def __init__(self, server, work):
        self.srv, self.work = server, work
        os.makedirs(work, exist_ok=True)

    def run(self, progs):
        """progs: list of (text, args); compiled with -c (LLVM) or --c-backend."""
        clean_dir(self.work)
        obs, objs = [], []
        for k, (text, args) in enumerate(progs):
            o = Obs()
            obs.append(o)
            base = "m%d" % k
            with open(os.path.join(self.work, base + ".sk"), "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
            cb = "--c-backend" in args
            mode = next((a for a in args if a in ("-S", "-E", "@exe")), None)
            if mode == "@exe":
                self._exe(o, base, [a for a in args if a != "@exe"])
                continue
            o.compile = self.srv.run([base + ".sk"] + list(args) + ([] if cb or mode == "-S" else ["-c"] if not mode
                                                                    else ["-o", ".%s.sk.ll" % base]), self.work, 20)
            if o.compile.status != 0:
                continue
            if mode:
                self._assemble(o, k, base, mode, objs)
                continue
            if cb:
                c = os.path.join(self.work, ".%s.sk.c" % base)
                ob = os.path.join(self.work, base + ".c.o")
                if not os.path.exists(c):
                    o.err = "no .c output"
                    continue
                r = subprocess.run(["gcc", "-std=gnu2x", "-w", self.copt, "-fwrapv", "-c", "-x", "c", c, "-o", ob,
                                    "-Dmain=sk_cmain_%d" % k], capture_output=True)
                if r.returncode:
                    o.err = "cc: " + r.stderr.decode("utf-8", "replace")[:2000]
                    continue
                objs.append((k, ob, "sk_cmain_%d" % k))
            else:
                ob = os.path.join(self.work, ".%s.sk.o" % base)
                if not os.path.exists(ob):
                    o.err = "no object file"
                    continue
                objs.append((k, ob, "." + base))
        if objs:
            self._link_run(objs, obs)
        return obs

    def _assemble(self, o, k, base, mode, objs):
        src = os.path.join(self.work, ".%s.sk.%s" % (base, "s" if mode == "-S" else "ll"))
        ob = os.path.join(self.work, base + ".x.o")
        if not os.path.exists(src):
            o.err = "no %s output" % mode
            return
        if mode == "-S":
            cmd = [AS, "-c", src, "-o", ob]
        else:
            if LLC is None or re.search(rb"@_(strcmp|int_pow|float_pow)\b", open(src, "rb").read()):
                o.err = "skip"
                return
            cmd = [LLC, "-relocation-model=pic", "-filetype=obj", src, "-o", ob]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode:
            o.err = "the %s output cannot be assembled: %s" % (mode, r.stderr.decode("utf-8", "replace")[:1500])
            return
        objs.append((k, ob, "." + base))

    def _exe(self, o, base, args):
        """the executable the compiler itself links"""
        o.compile = self.srv.run([base + ".sk"] + args + ["--", rt_obj("standalone"), "-lm"], self.work, 30)
        if o.compile.status != 0:
            return
        exe = os.path.join(self.work, base)
        if not os.path.exists(exe):
            o.err = "no executable"
            return
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60,
                               preexec_fn=_limits)
        except subprocess.TimeoutExpired:
            o.status = signal.SIGKILL
            o.events = []
            return
        o.status = -r.returncode if r.returncode < 0 else 0
        o.done, o.ret = r.returncode >= 0, r.returncode
        o.events = r.stdout.decode("utf-8", "replace").splitlines()

    def _link(self, objs, exe):
        t = os.path.join(self.work, "table.c")
        with open(t, "w") as f:
            f.write("#include <stdint.h>\n")
            for k, _, sym in objs:
                f.write("extern int64_t f%d(void) __asm__(\"%s\");\n" % (k, sym))
            f.write("int64_t (*const sk_table[])(void) = {%s};\nconst int sk_count = %d;\n"
                    % (",".join("f%d" % k for k, _, _ in objs), len(objs)))
        return subprocess.run(["gcc", "-o", exe, t] + [o for _, o, _ in objs] + [rt_obj("batch"), "-lm"],
                              capture_output=True)

    def _link_run(self, objs, obs):
        exe = os.path.join(self.work, "prog")
        r = self._link(objs, exe)
        if r.returncode:
            if len(objs) == 1:
                obs[objs[0][0]].err = "link: " + r.stderr.decode("utf-8", "replace")[:2000]
                return
            for x in objs:                  # find which one does not link
                self._link_run([x], obs)
            return
        out = os.path.join(self.work, "log")
        with open(out, "wb") as f:
            try:
                subprocess.run([exe], stdout=f, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                               timeout=120 + 8 * len(objs))
            except subprocess.TimeoutExpired:
                pass
        data = open(out, "rb").read()
        i = 0
        while i < len(data):
            j = data.index(b"\n", i)
            h = data[i:j].split()
            n = int(h[6])
            o = obs[objs[int(h[1])][0]]
            o.status, o.done, o.over, o.ret = int(h[2]), h[3] == b"1", h[4] == b"1", int(h[5])
            o.events = data[j + 1:j + 1 + n].decode().splitlines()
            if objs[int(h[1])][2].startswith("sk_cmain"):          # main returns an int
                o.ret = (o.ret + (1 << 31)) % (1 << 32) - (1 << 31)
            i = j + 1 + n
