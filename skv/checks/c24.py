"""Debug information maps every statement to its source line and variable."""
import bisect, json, os, random, re, shutil, subprocess
from .. import build, exec as ex, gen, lang

PROP, LEVEL = "C24", "exploration"
RULE = ("random programs in random layouts compiled with -g and run instruction by instruction under the processor's trap flag: the address of every call the program makes, to its own functions and to C, is mapped through the line "
        "table and compared, in order, with the line and column of the call the reference interpreter makes; between two calls no instruction may belong to a line outside the statements being executed; functions, parameters and variables "
        "are read from the DWARF tree (names, order, types, lines); in a sample gdb stops at every external call and the frames and the values of all parameters and variables are compared with the interpreter's; "
        "without -g there must be no debug sections; non-trivial: programs that ran to the end; distinct by source text")
ASSUMPTIONS = ["no optimisation level is given (optimised code merges and moves lines)", "constants inside functions need not have storage; values of type Bool cannot be shown by debuggers (their size is given as one bit)"]
UNITS = {"quick": 110, "thorough": 6000}
VARIANTS = ("plain",)
PER = 8
DUMP = shutil.which("llvm-dwarfdump-19") or shutil.which("llvm-dwarfdump") or shutil.which("llvm-dwarfdump-18")


def runtime(e):
    """a comparison that has to be made when the program runs"""
    if getattr(e, "repl", None) is not None:
        e = e.repl
    return type(e) is lang.Bin and all(type(x) in (lang.Use, lang.Lit) for x in (e.l, e.r)) and e.op in ("<", ">", "<=", ">=", "is", "isnt") and any(type(x) is lang.Use and x.var.mut and x.var.type in (lang.INT, lang.FLOAT) for x in (e.l, e.r))


class Trace(lang.Interp):
    """records every call with its place and the frames around it"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls, self.frames, self.win, self.wins, self.vals = [], [[None, self.glob, None]], set(), [], []
        self.conds = set()
        self.must = {}                      # number of calls made so far -> lines that have to be visited before the next

    def stmt(self, s, fr):
        p = getattr(s, "pos", None)
        if p:
            self.win.add(p[0])
        old, self.frames[-1][2] = self.frames[-1][2], s
        if type(s) is lang.While:
            self.conds.add(id(s.cond))
        elif type(s) is lang.If:
            self.conds.update(id(c) for c, _ in s.arms)
        was = self.cell(s.var, fr).v if type(s) is lang.Assign else None
        r = super().stmt(s, fr)
        self.frames[-1][2] = old
        if p:
            self.win.add(p[0])
            if self.same(s, fr, was):
                return r                       # stores that change nothing may be dropped
            if type(s) in (lang.Assign, lang.Return) or type(s) is lang.Def and s.var.mut and s.var.owner is not None:
                l = s.var.shown[0] if type(s) is lang.Def else p[0]
                self.must.setdefault(len(self.calls), {}).setdefault(l, type(s).__name__)
        return r

    def same(self, s, fr, was):
        return type(s) is lang.Assign and self.cell(s.var, fr).v == was

    def ev_(self, e, fr):
        p = getattr(e, "pos", None)
        if p:
            self.win.add(p[0])
        r = super().ev_(e, fr)
        if p and id(e) in self.conds and runtime(e):
            self.must.setdefault(len(self.calls), {}).setdefault(p[0], "condition")
            self.counted = getattr(self, "counted", 0) + 1
        return r

    def call(self, node, f, args):
        self.calls.append((f.name, node.pos, f.external))
        self.wins.append(self.win)
        self.win = set()
        self.frames[-1].append(node.pos)
        if f.external:
            if not f.pure:
                self.vals.append([(x[0], x[-1], dict((v, shown(v.type, c.v)) for v, c in x[1].items())) for x in self.frames])
            r = super().call(node, f, args)
        else:
            self.frames.append([f, None, None])
            hold = self.pending = (f, args)
            r = super().call(node, f, args)
            self.frames.pop()
        self.frames[-1].pop()
        self.win.add(node.pos[0])
        return r

    def block(self, body, fr):
        if self.frames[-1][1] is None:
            self.frames[-1][1] = fr
        return super().block(body, fr)


class Die:
    def __init__(self, tag, off):
        self.tag, self.off, self.at, self.kids = tag, off, {}, []


def dwarf(exe):
    """{cu name: Die}, {offset: Die}"""
    t = subprocess.run([DUMP, "--debug-info", exe], capture_output=True, text=True, errors="replace").stdout
    cus, byoff, stack = {}, {}, []
    cur = None
    for l in t.splitlines():
        m = re.match(r"0x([0-9a-f]+):( +)(DW_TAG_\w+|NULL)", l)
        if m:
            ind = len(m.group(2))
            while stack and stack[-1][0] >= ind:
                stack.pop()
            if m.group(3) == "NULL":
                cur = None
                continue
            cur = Die(m.group(3)[7:], int(m.group(1), 16))
            byoff[cur.off] = cur
            if stack:
                stack[-1][1].kids.append(cur)
            stack.append((ind, cur))
            continue
        m = re.match(r"\s+DW_AT_(\w+)\s+\((.*)\)$", l)
        if m and cur is not None:
            cur.at[m.group(1)] = m.group(2)
            if cur.tag == "compile_unit" and m.group(1) == "name":
                cus[m.group(2).strip('"')] = cur
    return cus, byoff


def tname(d, byoff):
    m = re.match(r"0x([0-9a-f]+)", d.at.get("type", ""))
    if not m:
        return "Void"
    t = byoff.get(int(m.group(1), 16))
    if t is None:
        return "?"
    n = t.at.get("name", "").strip('"')
    if t.tag == "base_type":
        want = {"Int": ("DW_ATE_signed", 8), "Float": ("DW_ATE_float", 8), "Bool": ("DW_ATE_boolean", None), "Rune": ("DW_ATE_UTF", 4), "char": ("DW_ATE_signed_char", 1)}.get(n)
        if want and (t.at.get("encoding") != want[0] or (want[1] and int(t.at.get("byte_size", "0"), 16) != want[1])):
            return "%s as %s of %s bytes" % (n, t.at.get("encoding"), t.at.get("byte_size"))
        return n
    if t.tag == "pointer_type":
        i = tname(t, byoff)
        return "Str" if i == "char" else "&" + i
    return t.tag


def lines(exe):
    """sorted [(address, line, column, file, stmt)]"""
    t = subprocess.run([DUMP, "--debug-line", exe], capture_output=True, text=True, errors="replace").stdout
    out, files, cur = [], {}, None
    for l in t.splitlines():
        if l.startswith("debug_line["):
            files = {}
        m = re.match(r"file_names\[\s*(\d+)\]:", l)
        if m:
            cur = int(m.group(1))
        m = re.match(r'\s+name: "(.*)"', l)
        if m and cur is not None:
            files[cur] = m.group(1)
        m = re.match(r"0x([0-9a-f]{16})\s+(\d+)\s+(\d+)\s+(\d+)", l)
        if m:
            out.append((int(m.group(1), 16), 0 if "end_sequence" in l else 1, int(m.group(2)), int(m.group(3)), files.get(int(m.group(4)))))
    out.sort(key=lambda x: (x[0], x[1]))
    return out


class Lines:
    def __init__(self, exe):
        rows = lines(exe)
        # rows at one address: the last of the sequence counts
        self.a, self.r = [], []
        for x in rows:
            if self.a and self.a[-1] == x[0]:
                self.r[-1] = x
            else:
                self.a.append(x[0])
                self.r.append(x)

    def starts(self, pc):
        k = bisect.bisect_left(self.a, pc)
        return k < len(self.a) and self.a[k] == pc

    def __call__(self, pc):
        k = bisect.bisect_right(self.a, pc) - 1
        if k < 0 or not self.r[k][1]:
            return None, 0, 0
        return self.r[k][4], self.r[k][2], self.r[k][3]


def flat(d, tag):
    out = []
    for k in d.kids:
        if k.tag == tag:
            out.append(k)
        if k.tag == "lexical_block":
            out += flat(k, tag)
    return out


def defs(body, fn=None):
    """(variables: [(var, line, fn)], functions: [(FnDef)])"""
    vs, fs = [], []
    for s in body:
        k = type(s)
        if k is lang.Def:
            vs.append((s.var, s.var.shown[0], fn))
        elif k is lang.If:
            for _, b in s.arms + ([(None, s.els)] if s.els is not None else []):
                a, c = defs(b, fn)
                vs += a
                fs += c
        elif k in (lang.While, lang.Namespace):
            a, c = defs(s.body, fn)
            vs += a
            fs += c
        elif k is lang.Slot:
            a, c = defs(s.stmts, fn)
            vs += a
            fs += c
        elif k is lang.FnDef and not s.fn.external:
            fs.append(s)
            a, c = defs(s.fn.body, s.fn)
            vs += a
            fs += c
    return vs, fs


def tree(p, base, cu, byoff, rep, own):
    """what is wrong with the DWARF tree, or None"""
    vs, fs = defs(p.body)
    name = lambda d: d.at.get("name", "").strip('"')
    line = lambda d: int(d.at.get("decl_line", "0"))
    sub = [k for k in cu.kids if k.tag == "subprogram" and "low_pc" in k.at]
    want = sorted([(f.fn.name, f.npos[0]) for f in fs] + [("." + base, 1)])
    got = sorted((name(k), line(k)) for k in sub)
    rep.counts["functions read"] += len(got)
    if got != want:
        return "functions (name, line): expected %s, recorded %s" % ([x for x in want if x not in got], [x for x in got if x not in want])
    by = {(name(k), line(k)): k for k in sub}
    for f in fs:
        k = by[(f.fn.name, f.npos[0])]
        g = [(name(x), tname(x, byoff), line(x)) for x in k.kids if x.tag == "formal_parameter"]
        w = [(q.name, q.type, f.npos[0]) for q in f.fn.params]
        rep.counts["parameters read"] += len(g)
        if g != w and not (g == [] and own) and not (g == [] and all(type(x) in (lang.Comment, lang.AliasDef, lang.FnDef) or type(x) is lang.Def and not x.var.mut for x in f.fn.body)):
            return "parameters of %s: expected %s, recorded %s" % (f.fn.name, w, g)
        if tname(k, byoff) != (f.fn.ret or "Void"):
            return "return type of %s: expected %s, recorded %s" % (f.fn.name, f.fn.ret, tname(k, byoff))
        mine = sorted((v.name, v.type, l) for v, l, o in vs if o is f.fn)
        must = sorted((v.name, v.type, l) for v, l, o in vs if o is f.fn and v.mut)
        g = sorted((name(x), tname(x, byoff), line(x)) for x in flat(k, "variable"))
        rep.counts["variables read"] += len(g)
        if [x for x in g if x not in mine]:
            return "variables of %s: recorded %s, declared are %s" % (f.fn.name, [x for x in g if x not in mine], mine)
        if [x for x in must if x not in g]:
            # a variable whose block is never reached leaves no trace
            rep.counts["variables without record"] += 1
    w = sorted((v.name, v.type, l) for v, l, o in vs if o is None)
    g = sorted((name(x), tname(x, byoff), line(x)) for x in cu.kids if x.tag == "variable")
    rep.counts["variables read"] += len(g)
    if g != w:
        return "top-level variables: expected %s, recorded %s" % ([x for x in w if x not in g], [x for x in g if x not in w])
    return None


GDB = r'''
import gdb, json, re
out = []
gdb.execute("set pagination off"); gdb.execute("set confirm off"); gdb.execute("set debuginfod enabled off")
gdb.execute("set disable-randomization on"); gdb.execute("set startup-with-shell off"); gdb.execute("set print elements unlimited")
gdb.execute("set auto-load no")
gdb.execute("rbreak ^sk_[pgd][a-z]$", to_string=True)
gdb.execute("run > /dev/null", to_string=True)
INT = {}
def val(v):
    t = v.type
    c = t.code
    if v.is_optimized_out: return None
    n = str(t)
    if c == gdb.TYPE_CODE_PTR:
        if str(t.target()) == "char":
            return ["s", bytes(gdb.selected_inferior().read_memory(int(v), 0)).hex() if False else cstr(int(v))]
        return ["p", val(v.dereference())]
    if c == gdb.TYPE_CODE_FLT:
        return ["f", v.bytes.hex()]
    if c == gdb.TYPE_CODE_BOOL or t.sizeof == 0: return None
    return ["i", int.from_bytes(v.bytes, "little", signed=True)]
def cstr(a):
    if a == 0: return None
    b = b""
    m = gdb.selected_inferior()
    while len(b) < 70000:
        c = bytes(m.read_memory(a + len(b), 1))
        if c == b"\0": return b.hex()
        b += c
n = 0
while n < LIMIT:
    try:
        if gdb.selected_thread() is None: break
        f = gdb.newest_frame().older()
    except gdb.error:
        break
    st = []
    while f is not None and f.is_valid() and f.name() and f.find_sal().symtab and f.find_sal().symtab.filename.endswith(".sk"):
        d = {}
        try: b = f.block()
        except RuntimeError: b = None
        while b is not None:
            for s in b:
                if (s.is_variable or s.is_argument) and s.name not in d and not b.is_global and not b.is_static:
                    try: d[s.name] = val(s.value(f))
                    except gdb.error as e: d[s.name] = ["e", str(e)]
            if b.function is not None: break
            b = b.superblock
        st.append([f.name(), f.find_sal().line, d])
        f = f.older()
    g = {}
    for s in GLOBALS:
        try:
            y = [x for x in list(gdb.lookup_static_symbols(s)) + [gdb.lookup_global_symbol(s)] if x is not None and x.is_variable and x.symtab and x.symtab.filename.endswith(".sk")]
            g[s] = val(y[0].value())
        except Exception as e: g[s] = ["e", str(e)]
    out.append([st, g])
    n += 1
    try: gdb.execute("continue", to_string=True)
    except gdb.error: break
print("@@" + json.dumps(out))
try: gdb.execute("kill", to_string=True)
except gdb.error: pass
'''


def shown(t, v):
    """the value the debugger has to show, None if it cannot"""
    import struct
    if t == lang.BOOL or v is None:
        return None
    if t in (lang.INT, lang.RUNE):
        return ["i", v]
    if t == lang.FLOAT:
        return None if v != v else ["f", struct.pack("<d", v).hex()]
    if t == lang.STR:
        return ["s", v.split(b"\0")[0].hex()]
    if t[0] == "&":
        i = shown(t[1:], v.v)
        return None if i is None else ["p", i]


def has_bool(t):
    return t.lstrip("&") == lang.BOOL


def debugger(w, p, it, base, exe, rep, bad):
    limit = 25
    vs, _ = defs(p.body)
    names = [v.name for v, _, o in vs if o is None]
    params = set()
    allnames = names + [v.name for v, _, o in vs if o is not None]
    glob = [v for v, _, o in vs if o is None and names.count(v.name) == 1 and allnames.count(v.name) == 1]
    fnn = {f.fn.name for f in defs(p.body)[1]} | {q.name for f in defs(p.body)[1] for q in f.fn.params}
    glob = [v for v in glob if v.name not in fnn][:12]
    s = os.path.join(w.dir, "c24.py")
    with open(s, "w") as f:
        f.write("LIMIT = %d\nGLOBALS = %r\n" % (limit, [v.name for v in glob]) + GDB)
    try:
        q = subprocess.run(["gdb", "-q", "-nx", "-batch", "-x", s, exe], capture_output=True, timeout=120, stdin=subprocess.DEVNULL, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": w.dir, "LC_ALL": "C.UTF-8"})
    except subprocess.TimeoutExpired:
        rep.inconclusive.append("gdb timeout")
        return
    m = re.search(rb"^@@(.*)$", q.stdout, re.M)
    if not m:
        rep.inconclusive.append("gdb gave nothing")
        rep.counts["gdb without result"] += 1
        return
    out = json.loads(m.group(1))
    want = it.vals[:limit]
    if len(out) != len(want):
        if not out:
            rep.inconclusive.append("gdb did not stop")
            return
        return bad("stops", "gdb stops %d times at external calls, expected %d" % (len(out), len(want)))
    rep.counts["programs under gdb"] += 1
    for k, ((st, gl), fr) in enumerate(zip(out, want)):
        rep.counts["stops under gdb"] += 1
        g = [(x[0], x[1]) for x in st]
        e = [((x[0].name if x[0] else "." + base), x[1][0]) for x in reversed(fr)]
        if g != e:
            return bad("frames", "at event %d (%s) the frames are %s, expected %s" % (k, it.ev[k], g, e))
        for (fn, pos, vals), (n, l, d) in zip(reversed(fr), st):
            if fn is None:
                for v in glob:
                    x = gl.get(v.name)
                    if v in vals:
                        y = vals[v]
                        if y is not None:
                            rep.counts["values compared"] += 1
                            if x != y:
                                return bad("value", "at event %d (%s) the debugger shows %s for the variable %s, expected %s" % (k, it.ev[k], x, v.name, y))
                continue
            cand = {}
            for v, c in vals.items():
                cand.setdefault(v.name, []).append((v, c))
            for v, c in ((x[0]) for x in cand.values() if len(x) == 1):
                y = c
                if y is None or has_bool(v.type):
                    continue
                x = d.get(v.name)
                isparam = v in fn.params
                if x is None and not isparam:
                    continue                # a constant, or not in scope here
                rep.counts["values compared"] += 1
                if x != y:
                    return bad("value", "at event %d (%s), in %s, the debugger shows %s for %s %s, expected %s" % (k, it.ev[k], fn.name, x, "parameter" if isparam else "variable", v.name, y))


def build_trace(w, objs):
    d = os.path.join(w.dir, "c24")
    t = os.path.join(d, "table.c")
    with open(t, "w") as f:
        f.write("#include <stdint.h>\n")
        for k in objs:
            f.write("extern int64_t f%d(void) __asm__(\".m%d\");\n" % (k, k))
        f.write("int64_t (*const sk_table[])(void) = {%s};\nconst int sk_count = %d;\n" % (",".join("f%d" % k for k in objs), len(objs)))
    for n in ("lo", "hi"):
        with open(os.path.join(d, n + ".s"), "w") as f:
            f.write(".text\n.globl skv_%s\nskv_%s:\nnop\n.section .note.GNU-stack,\"\",@progbits\n" % (n, n))
    exe = os.path.join(d, "prog.trace")
    q = subprocess.run(["gcc", "-no-pie", "-o", exe, os.path.join(d, "lo.s")] + [os.path.join(d, "m%d.o" % k) for k in objs] + [helpers(w), os.path.join(d, "hi.s"), t, trace_obj(), "-lm"], capture_output=True)
    if q.returncode:
        raise RuntimeError("link: " + q.stderr.decode("utf-8", "replace")[:800])
    return exe


def helpers(w):
    """an object with the compiler's built-in helpers, which LLVM IR output leaves out"""
    d = os.path.join(w.dir, "c24h")
    o = os.path.join(d, ".h.sk.o")
    if not os.path.exists(o):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "h.sk"), "w") as f:
            f.write('external sk_qi(x: Int) Int\nexternal sk_qf(x: Float) Float\nexternal sk_qs(x: Str) Str\nmut a := sk_qi(1) ^ sk_qi(2)\nmut b := sk_qf(1.0) ^ sk_qf(2.0)\nmut c := sk_qs("a") is sk_qs("b")\n')
        w.server().run(["h.sk", "-c"], d, 30)
    return o


def trace_obj():
    o = os.path.join(build.scratch(), "trace.o")
    if not os.path.exists(o):
        subprocess.run(["gcc", "-c", "-O1", "-w", "-fno-pic", os.path.join(ex.HERE, "native", "trace.c"), "-o", "%s.%d" % (o, os.getpid())], check=True)
        os.rename("%s.%d" % (o, os.getpid()), o)
    return o


def far(lay, r):
    """statements far down and far to the right: past what a narrow counter could hold (LLVM itself records columns up to 65535)"""
    gaps = [r.choice([250, 300, 5000, 66000])]
    between, ind = lay.between, lay.ind
    lay.between = lambda depth: [""] * gaps.pop() if gaps and r.random() < 0.3 else between(depth)
    lay.ind = lambda depth: " " * r.choice([130, 260, 1100, 5000]) if r.random() < 0.05 else ind(depth)


def unit(w, i, rng, rep):
    d = os.path.join(w.dir, "c24")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    srv = w.server()
    made = {}
    for k in range(PER):
        r = random.Random(rng.getrandbits(64))
        p = gen.make(r, size=r.choice([6, 12, 20]))[0]
        lay = lang.RandomLayout(random.Random(r.getrandbits(64))) if r.random() < 0.6 else None
        if lay and r.random() < 0.25:
            far(lay, random.Random(r.getrandbits(64)))
        text = lang.show(p, lay)
        it = Trace(p)
        ev, ret = it.run()
        name = "m%d.sk" % k
        with open(os.path.join(d, name), "w", newline="") as f:
            f.write(text)
        own = k % 2 == 0
        res = srv.run([name, "-g", "-c"] if own else [name, "-g", "-E", "-o", "m%d.ll" % k], d, 30)
        if res.timed_out:
            rep.inconclusive.append("timeout")
            continue
        if res.rc:
            rep.violation("refused", "a valid program is refused with -g: %s" % res.stderr[-300:].decode("utf-8", "replace"), {"source.sk": text})
            continue
        if own:
            shutil.copy(os.path.join(d, ".m%d.sk.o" % k), os.path.join(d, "m%d.o" % k))
        else:
            # translated without any optimisation: every instruction keeps its line
            q = subprocess.run([ex.LLC, "-O0", "-filetype=obj", os.path.join(d, "m%d.ll" % k), "-o", os.path.join(d, "m%d.o" % k)], capture_output=True)
            if q.returncode:
                rep.violation("invalid", "llc refuses the LLVM IR made with -g: %s" % q.stderr[-300:].decode("utf-8", "replace"), {"source.sk": text})
                continue
        made[k] = (p, text, it, ev, ret)
    if not made:
        return
    try:
        exe = build_trace(w, list(made))
    except RuntimeError as e:
        rep.violation("link", str(e), {"m%d.sk" % k: x[1] for k, x in made.items()})
        return
    q = subprocess.run([exe], capture_output=True, timeout=600, stdin=subprocess.DEVNULL)
    sym = {}
    for l in subprocess.run(["nm", exe], capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3:
            sym[int(f[0], 16)] = f[2]
    cus, byoff = dwarf(exe)
    where = Lines(exe)
    data, pos, runs = q.stdout, 0, []
    while pos < len(data):
        j = data.index(b"\n", pos)
        h = data[pos:j].split()
        n, ln = int(h[4]), int(h[5])
        pos = j + 1
        tr = []
        for _ in range(n):
            j = data.index(b"\n", pos)
            tr.append(int(data[pos:j], 16))
            pos = j + 1
        runs.append((int(h[2]), h[3] == b"1", tr, data[pos:pos + ln].decode("utf-8", "replace").splitlines()))
        pos += ln
    for (k, (p, text, it, ev, ret)), (st, done, tr, log) in zip(made.items(), runs):
        name = "m%d.sk" % k
        keep = {name: text}

        def bad(key, msg, k=k, keep=keep):
            rep.violation(key, "%s: %s" % ("m%d.sk" % k, msg), keep)
        if not done or log != ev or len(tr) >= 1 << 20:
            if len(tr) < 1 << 20 and not os.WIFSIGNALED(st) or log != ev[:len(log)]:
                bad("behaviour", "compiled with -g the program does not do what it should (see C09): status %d, %d of %d events" % (st, len(log), len(ev)))
            else:
                rep.inconclusive.append("trace incomplete")
            continue
        if name not in cus:
            bad("unit", "no compile unit is recorded for %s (there are %s)" % (name, sorted(cus)))
            continue
        cu = cus[name]
        if cu.at.get("comp_dir", "").strip('"') != os.path.realpath(d) and cu.at.get("comp_dir", "").strip('"') != d:
            bad("directory", "the recorded directory is %s, not %s" % (cu.at.get("comp_dir"), d))
            continue
        entry = {int(x.at["low_pc"], 16): x.at["name"].strip('"') for x in cu.kids if x.tag == "subprogram" and "low_pc" in x.at}
        rep.eval(text, {"calls": len(it.calls), "instructions": len(tr)})
        rep.counts["instructions traced"] += len(tr)
        rep.counts["calls mapped to lines"] += len(it.calls)
        own = k % 2 == 0
        # calls, in order
        got, wins, cur, last = [], [], set(), None
        for x in tr:
            if x >> 63:
                n = sym.get(x & ~(1 << 63), "?")
                if n.startswith("sk_"):
                    got.append((n, where(last), True))
                    wins.append(cur)
                    cur = set()
                last = None
                continue
            call, x = x >> 62, x & (1 << 62) - 1
            if call and x in entry and last is not None:
                got.append((entry[x], where(last), False))
                wins.append(cur)
                cur = set()
            f, l, c = where(x)
            if l and where.starts(x):           # what has no place of its own continues the row before it
                cur.add((f, l))
            last = x
        wins.append(cur)
        err = None
        for j, (g, e) in enumerate(zip(got, it.calls)):
            at = (name, e[1][0], e[1][1])
            if own and g[1][1] == 0:
                rep.counts["calls merged by LLVM"] += 1
            elif own and g[1][2] == 0 and g[1][:2] == at[:2]:
                rep.counts["calls merged by LLVM"] += 1
            elif g[0] != e[0] or g[1] != at or g[2] != e[2]:
                err = "call %d: the program calls %s at %s line %d column %d according to the line table, in the source it is %s at line %d column %d" % ((j, g[0]) + g[1] + (e[0],) + e[1])
                break
        if err is None and len(got) != len(it.calls):
            err = "%d calls observed, expected %d" % (len(got), len(it.calls))
        if err:
            bad("call line", err)
            continue
        heads = {f.npos[0] for f in defs(p.body)[1]} | {1}
        for j, (a, b) in enumerate(zip(wins, it.wins + [it.win])):
            if own:
                break
            # the statements around this stretch, those before and after it
            allowed = set(b) | heads
            allowed |= it.wins[j - 1] if j else set()
            allowed |= it.wins[j + 1] if j + 1 < len(it.wins) else it.win
            miss = [(l, t) for l, t in it.must.get(j, {}).items() if (name, l) not in a]
            rep.counts["statements located"] += len(it.must.get(j, {}))
            if miss:
                err = "no instruction is attributed to line %d, where %s is executed after call %d" % (miss[0][0], "an assignment" if miss[0][1] == "Assign" else "a return" if miss[0][1] == "Return" else "a condition" if miss[0][1] == "condition" else "a definition", j - 1)
                break
            allowed |= {it.calls[x][1][0] for x in (j - 1, j) if 0 <= x < len(it.calls)}
            x = [y for y in a if y[0] != name or y[1] not in allowed]
            rep.counts["stretches"] += 1
            if x:
                err = "between call %d (line %d) and call %d (line %d) instructions of line %s run, which is not executed there" % (j - 1, it.calls[j - 1][1][0] if j else 0, j, it.calls[j][1][0] if j < len(it.calls) else 0, x[0])
                break
        if err:
            bad("statement line", err)
            continue
        err = tree(p, "m%d" % k, cu, byoff, rep, own)
        if err:
            bad("tree", err)
            continue
        if k == 1 or not own and w.tier == "thorough":
            one = os.path.join(d, "prog.gdb")
            tb = os.path.join(d, "one.c")
            with open(tb, "w") as f:
                f.write("#include <stdint.h>\nextern int64_t f(void) __asm__(\".m%d\");\nint64_t (*const sk_table[])(void) = {f};\nconst int sk_count = 1;\nextern void sk_log(const char *, unsigned long);\nint main(void) { sk_log(\"\", 0); return (int)f(); }\n" % k)
            z = subprocess.run(["gcc", "-no-pie", "-o", one, tb, os.path.join(d, "m%d.o" % k), helpers(w), ex.rt_obj("standalone"), "-lm"], capture_output=True)
            if z.returncode == 0:
                debugger(w, p, it, "m%d" % k, one, rep, bad)
        if k == 0:
            res = srv.run([name, "-c"], d, 30)
            s = subprocess.run(["readelf", "-SW", os.path.join(d, ".m0.sk.o")], capture_output=True, text=True).stdout
            rep.counts["objects without -g"] += 1
            if ".debug_" in s:
                bad("without -g", "debug sections without -g")
