"""Builds the compiler under test from /repo's working tree, into a scratch
directory of our own (never inside /repo).

Variants
  plain   gcc, no sanitizer              -> the behaviour a user gets
  asan    gcc, AddressSanitizer + UBSan  -> memory/UB oracle (abort on report)
"""
import atexit, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SKULL_REPO", "/repo")
LLVM_CONFIG = shutil.which("llvm-config-19") or shutil.which("llvm-config")
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    """Per-run scratch directory, removed on exit."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("SKV_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="skv-", dir=base)
        pid = os.getpid()
        if not os.environ.get("SKV_KEEP"):
            atexit.register(lambda: os.getpid() == pid and
                            shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "skull")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    return sorted(out)


def _gen_shim(dst):
    """skull/shim.h exactly as the project's Makefile makes it."""
    os.makedirs(os.path.join(dst, "skull"), exist_ok=True)
    r = subprocess.run(["xxd", "-i", "skull/shim.ll"], cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    t = r.stdout.replace("skull_shim_ll", "LL_SHIM").replace("unsigned char", "char")
    with open(os.path.join(dst, "skull", "shim.h"), "w") as f:
        f.write(t)


VARIANTS = {
    "plain": dict(cc="gcc", cflags=["-O1", "-g"], ldflags=[]),
    "asan": dict(cc="gcc", cflags=["-O1", "-g", "-fno-omit-frame-pointer",
                                   "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=undefined"],
                 ldflags=["-fsanitize=address,undefined"]),
}
# the same with every environment call of the compiler under the monitor's control (native/forkserver.c)
WRAPPED = "malloc calloc realloc strdup fopen fread fseek ftell fclose fflush getcwd fork execvp wait waitpid remove setlocale".split()
VARIANTS["fault"] = dict(VARIANTS["asan"], cflags=VARIANTS["asan"]["cflags"] + ["-DSKV_FAULTS"],
                         ldflags=VARIANTS["asan"]["ldflags"] + ["-Wl,--wrap=" + x for x in WRAPPED])
# several compilations per process
VARIANTS["seq"] = dict(VARIANTS["plain"], cflags=VARIANTS["plain"]["cflags"] + ["-DSKV_SEQ"])
VARIANTS["seqasan"] = dict(VARIANTS["asan"], cflags=VARIANTS["asan"]["cflags"] + ["-DSKV_SEQ"])


def _cfg(arg):
    return subprocess.run([LLVM_CONFIG, arg], capture_output=True, text=True).stdout.split()


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build_server(variant):
    """The compiler behind a fork server (native/forkserver.c)."""
    return build(variant, extra_src=[os.path.join(HERE, "native", "forkserver.c")],
                 name="server", rename_main=True)


def build(variant="plain", extra_src=(), name="skull", drop_main=False, extra_ld=(),
          shared=False, rename_main=False):
    v = VARIANTS[variant]
    out = os.path.join(scratch(), variant)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    gen = os.path.join(out, "gen")
    os.makedirs(out, exist_ok=True)
    _gen_shim(gen)
    flags = (["-std=c18", "-w", "-I" + gen, "-I" + REPO, "-DSKULL_VERSION=\"verif\"",
              "-fPIC", "-D_GNU_SOURCE"] + v["cflags"] + _cfg("--cflags"))
    srcs = sources()
    if drop_main:
        srcs = [s for s in srcs if not s.endswith("/cli.c")]
    objs, jobs = [], []
    for s in list(srcs) + list(extra_src):
        ren = rename_main and s.startswith(REPO + "/")
        o = os.path.join(out, s.strip("/").replace("/", "_")[:-2] + ("_r" if ren else "") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, ["-Dmain=skull_main"] if ren else []))

    def one(j):
        s, o, x = j
        return subprocess.run([v["cc"], "-c", s, "-o", o] + x + flags, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r.returncode:
                raise BuildError(r.stderr)
    cmd = [v["cc"]] + objs + ["-o", exe] + v["ldflags"] + list(extra_ld) + _cfg("--libs")
    if shared:
        cmd += ["-shared"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return exe


if __name__ == "__main__":
    os.environ["SKV_KEEP"] = "1"
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(build(v))
