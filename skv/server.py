"""Client side of native/forkserver.c."""
import os, re, signal, subprocess, tempfile, shutil

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=205",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
}


def base_env(**kw):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent",
           "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}
    env.update(SAN_ENV)
    env.update(kw)
    return env


class Result:
    __slots__ = ("status", "stdout", "stderr")

    def __init__(self, status, stdout, stderr):
        self.status, self.stdout, self.stderr = status, stdout, stderr

    @property
    def out(self):
        return self.stdout + self.stderr

    @property
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else 0

    @property
    def rc(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else -self.signal

    @property
    def timed_out(self):
        return self.signal in (signal.SIGALRM, signal.SIGXCPU, signal.SIGKILL)

    @property
    def sanitizer(self):
        return self.rc in (98, 99) or b"runtime error:" in self.out or b"ERROR: AddressSanitizer" in self.out

    @property
    def crashed(self):
        return (self.signal and not self.timed_out) or self.sanitizer


# the fork server under valgrind: every compilation in a child is watched for uses of uninitialised memory
MEMCHECK = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes", "--max-stackframe=16000000", "--num-callers=30"]
BLOCK = re.compile(rb"==\d+== (?! )(\S.*)\n((?:==\d+==\s+(?:at|by) .*\n)+)")


def memcheck_report(res):
    """the first error memcheck printed, or None"""
    m = BLOCK.search(res.stderr)
    if m:
        fr = re.findall(rb"(?:at|by) 0x[0-9A-F]+: (.*)", m.group(2))
        return (m.group(1) + b" in " + b" < ".join(fr[:6])).decode("utf-8", "replace")
    return None


def strip_memcheck(b):
    return re.sub(rb"(?m)^==\d+==.*\n", b"", b)


class Server:
    def __init__(self, exe, env=None, prefix=()):
        self.exe, self.env, self.prefix = exe, env or base_env(), list(prefix)
        self.dir = tempfile.mkdtemp(prefix="srv-", dir=os.environ.get("SKV_WORK") or None)
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.prefix + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, cwd=self.dir)

    def run(self, args, cwd, timeout=10):
        self.send(args, cwd, timeout)
        return self.recv()

    def send(self, args, cwd, timeout=10):
        if self.p is None or self.p.poll() is not None:
            self.start()
        of = os.path.join(self.dir, "out")
        req = "\x1f".join([cwd, of, str(timeout), "skull"] + list(args)) + "\n"
        self.p.stdin.write(req.encode("utf-8", "surrogateescape"))
        self.p.stdin.flush()

    def recv(self):
        of = os.path.join(self.dir, "out")
        line = self.p.stdout.readline()
        if not line.strip().isdigit():
            raise RuntimeError("fork server died: %r" % line)
        with open(of, "rb") as f:
            out = f.read()
        with open(of + ".err", "rb") as f:
            err = f.read()
        return Result(int(line), out, err)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
