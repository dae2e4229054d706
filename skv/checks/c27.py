"""import accepts exactly the modules next to the importing file, and changes nothing else."""
import os, random, re, shutil, stat
from .. import gen, lang

PROP, LEVEL = "C27", "exploration"
RULE = ("random directory trees with present, absent, dangling, unreadable and decoy modules (same names in the working directory, parents, subdirectories and under similar "
        "names), imports at random places of random programs, sources named by relative, absolute, dotted and linked paths and in the root directory (in a root of their own); "
        "accepted exactly if every imported module is there, with the program unchanged, otherwise refused naming a missing one; non-trivial: every compilation with an import; "
        "distinct by tree, path and program")
ASSUMPTIONS = ["a directory called m.sk is neither asked for nor forbidden"]
UNITS = {"quick": 110, "thorough": 6000}
VARIANTS = ("plain", "asan")
PER = 14


def modname(r):
    x = r.random()
    if x < 0.6:
        return r.choice(["m", "mm", "M", "modu", "mod1", "mod_", "a", "b", "lib", "library", "x"])
    if x < 0.7:
        return r.choice("abcxyz") * r.choice([40, 100, 251, 252])
    return r.choice("abcdefgXYZ") + "".join(r.choice("abcxyz_0123456789ABC") for _ in range(r.randint(0, 12)))


STATES = ["file", "file", "file", "absent", "absent", "dangling", "link", "empty", "unreadable", "readonly", "other-ext", "case", "prefix", "hidden", "binary"]


def put(r, d, m, state):
    """puts module m into directory d in the given state; is it there?"""
    p = os.path.join(d, m + ".sk")
    if os.path.lexists(p):
        return None

    def w(q, data=b"noop\n"):
        if len(os.path.basename(q)) <= 255 and not os.path.lexists(q):
            with open(q, "wb") as f:
                f.write(data)
    if state == "absent":
        return False
    if state == "dangling":
        os.symlink("nowhere.sk", p)
        return False
    if state == "other-ext":
        w(os.path.join(d, m), b"noop\n"), w(p[:-3] + ".s"), w(p + "x"), w(p[:-3] + ".SK")
        return False
    if state == "case":
        w(os.path.join(d, m.swapcase() + ".sk"))
        return m.swapcase() == m
    if state == "prefix":
        w(os.path.join(d, m + "x.sk")), w(os.path.join(d, "x" + m + ".sk"))
        if len(m) > 1:
            w(os.path.join(d, m[:-1] + ".sk"))
        return False
    if state == "hidden":
        w(os.path.join(d, "." + m + ".sk")), w(os.path.join(d, m + ".sk~"))
        return False
    if state == "link":
        w(os.path.join(d, "real.txt"))
        os.symlink("real.txt", p)
        return True
    w(p, {"file": b"noop\n", "empty": b"", "unreadable": b"noop\n", "readonly": b"noop\n", "binary": b"\xff\x00not a program"}[state])
    if state in ("unreadable", "readonly"):
        os.chmod(p, 0 if state == "unreadable" else 0o444)
    return True


def insert(r, text, mods):
    """the program with an import of each module at a statement boundary, and the same without"""
    ls = text.split("\n")
    ok = [0]
    for k in range(1, len(ls)):
        p, n = ls[k - 1].strip(), ls[k].strip()
        if n.startswith(("else", "elif")) or p.startswith(("return", "break", "continue", "unreachable", "#")) or not p:
            continue
        if re.fullmatch(r"(mut )?\w+ :?= .*|\w+\(.*\)|if .*\{|while .*\{|noop", p) and "\"" not in p and "{" not in p[:-1] and "#" not in p:
            ok.append(k)
    at = sorted(((r.choice(ok), m) for m in mods), reverse=True, key=lambda z: z[0])
    a, b = ls[:], ls[:]
    order = []
    for k, m in at:
        ind = re.match(r"\s*", ls[k - 1] if k else "").group(0)
        if k and ls[k - 1].rstrip().endswith("{"):
            ind += "\t"
        a.insert(k, "%simport %s%s" % (ind, m, r.choice(["", "", " # see there"])))
        b.insert(k, ind + "noop")
        order.insert(0, m)
    return "\n".join(a), "\n".join(b), order


def unit(w, i, rng, rep):
    for j in range(PER):
        r = random.Random(rng.getrandbits(64))
        top = w.sub("c27")
        jail = (i + j) % 3 == 0
        dirs = ["", "d", "d/e", "other", "d e", "d/e/f", "deep/" * r.choice([1, 20, 60]) + "x", r.choice("abc") * r.choice([30, 128, 250]) + "/y" * r.choice([1, 90, 300])]
        for x in dirs[1:]:
            os.makedirs(os.path.join(top, x), exist_ok=True)
        src = r.choice(dirs) if not jail or r.random() < 0.4 else ""
        cwd = r.choice(dirs)
        there = {}
        mods = list(dict.fromkeys(modname(r) for _ in range(r.choice([1, 1, 2, 3, 5]))))
        bad = r.random() < 0.5
        for m in mods:
            st = r.choice(STATES if bad else ["file", "link", "empty", "readonly", "file", "binary"])
            x = put(r, os.path.join(top, src), m, st)
            if x is None:
                st = os.lstat(os.path.join(top, src, m + ".sk"))
                x = not stat.S_ISLNK(st.st_mode) or os.path.exists(os.path.join(top, src, m + ".sk"))
            there[m] = x
            # decoys everywhere else, or nowhere else
            for o in dirs:
                if o != src and r.random() < (0.6 if not x else 0.1):
                    put(r, os.path.join(top, o), m, "file")
        for m in mods:
            # states that leave files of other names may have made another module appear
            p = os.path.join(top, src, m + ".sk")
            there[m] = os.path.exists(p)
            if there[m] and jail and not os.stat(p).st_mode & 0o400:
                there[m] = False
        base = r.choice(["prog__src", "zz__0", "Main__1"])
        if base in mods:
            mods.remove(base)
        text = lang.show(gen.make(r)[0]) if r.random() < 0.6 else "return 3\n"
        with_, without, order = insert(r, text, mods)
        f = os.path.join(top, src, base + ".sk")
        rel = os.path.relpath(f, os.path.join(top, cwd))
        root = "/" if jail else top
        forms = [rel, rel, "./" + rel, os.path.join(root, src, base + ".sk"), os.path.join(root, src, ".", base + ".sk"), os.path.join(root, "d", "..", src, base + ".sk"),
                 (os.path.join(root, src) + "/").replace("//", "/") + "/" + base + ".sk"]
        name = r.choice(forms)
        link = r.random() < 0.1
        if link:
            # a link to a source elsewhere: the directory of the name counts
            os.makedirs(os.path.join(top, "far"), exist_ok=True)
            os.symlink(os.path.relpath(os.path.join(top, "far", "z.txt"), os.path.dirname(f)), f)
        out = {}
        srv = w.server("asan" if i % 2 else "plain")
        for tag, t in (("without", without), ("with", with_)):
            if not os.path.lexists(f) or not link:
                with open(f, "w") as h:
                    h.write(t)
            else:
                with open(os.path.join(top, "far", "z.txt"), "w") as h:
                    h.write(t)
            pre = ["\2chroot=" + top, "/" + cwd] if jail else []
            res = srv.run(pre + [name, "-E", "-o", "-"], "/" if jail else os.path.join(top, cwd), 30)
            out[tag] = res
        a, b = out["without"], out["with"]
        if a.timed_out or b.timed_out:
            rep.inconclusive.append("timeout")
            continue
        if jail and 117 in (a.rc, b.rc):
            rep.counts["no root of its own"] += 1
            continue
        if a.rc != 0:
            rep.inconclusive.append("program without imports refused: %s %r" % (jail, a.out[:300]))
            continue
        missing = [m for m in mods if not there[m]]
        rep.eval(repr((name, cwd, sorted(there.items()), with_)), {"file": name, "from": cwd, "modules": there, "exit": b.rc})
        rep.counts["refusals expected" if missing else "acceptances expected"] += 1
        rep.cover["paths"].add("root" if jail and src == "" else "absolute" if name.startswith("/") else "relative")
        ctx = "%s (in %s/, run from %s/) importing %s" % (name, src, cwd, ", ".join("%s [%s]" % (m[:30], "there" if there[m] else "missing") for m in order))
        keep = {"source.sk": with_, "tree.txt": "\n".join(sorted(os.path.relpath(os.path.join(x, y), top) for x, _, ys in os.walk(top) for y in ys)), "out.txt": b.out}
        err = b.stderr.decode("utf-8", "replace")
        if b.crashed or b.rc not in (0, 1):
            rep.violation("crash", "%s: exit %d: %s" % (ctx, b.rc, err[:500]), keep)
        elif missing:
            named = re.findall(r'could not load module "(\w+)": (.+)', err)
            if b.rc == 0:
                rep.violation("accepted", "%s: accepted" % ctx, keep)
            elif not named or any(m not in missing for m, _ in named):
                rep.violation("message", "%s: the message does not name a missing module: %s" % (ctx, err[:400]), keep)
            elif any("No such file" not in t for m, t in named if not os.path.lexists(os.path.join(top, src, m + ".sk")) and len(m) < 250):
                rep.violation("message", "%s: a missing file is reported as: %s" % (ctx, err[:400]), keep)
        elif b.rc:
            rep.violation("refused", "%s: refused: %s" % (ctx, err[:400]), keep)
        elif b.stdout != a.stdout:
            rep.violation("changed", "%s: the imports change the program" % ctx, dict(keep, **{"without.ll": a.stdout}))
        elif a.stderr != b.stderr and "warning" not in err.lower():
            rep.violation("messages", "%s: the imports change the messages: %r, without %r" % (ctx, b.stderr[:200], a.stderr[:200]), keep)
