"""Random nestings of blocks with marked points, for questions of the form
'is X at point A allowed / visible at point B'.

Skel(rng).text({point: [lines]}) puts lines at points; every other point is
left empty (or `noop`, so that no block is empty).
"""


class Scope:
    def __init__(self, kind, parent, name=None):
        self.kind, self.parent, self.name = kind, parent, name
        self.end = None                # index of the point after it
        self.func = self if kind == "func" else (parent.func if parent else None)
        self.loop = True if kind == "while" else (False if kind == "func" or parent is None else parent.loop)

    def chain(self):
        s = self
        while s:
            yield s
            s = s.parent

    def within(self, o):
        return any(s is o for s in self.chain())

    def path(self):
        return "/".join(reversed([s.kind for s in self.chain()]))


class Point:
    def __init__(self, i, scope):
        self.i, self.scope, self.last = i, scope, False


class Skel:
    def __init__(self, rng, depth=3, kinds=("if", "while", "func", "ns"), width=3, ns_in_blocks=True):
        self.r, self.depth, self.kinds, self.width, self.nib = rng, depth, kinds, width, ns_in_blocks
        self.points, self.lines, self.n = [], [], 0
        self.root = Scope("top", None)
        self.body(self.root, 0)

    def point(self, scope):
        p = Point(len(self.points), scope)
        self.points.append(p)
        self.lines.append(p)
        return p

    def name(self, k):
        self.n += 1
        return "%s%d_" % (k, self.n)

    def body(self, scope, d):
        p = self.point(scope)
        lo = 1 if d == 0 else 0
        for _ in range(self.r.randint(lo, self.width) if d < self.depth else 0):
            self.construct(scope, d)
            p = self.point(scope)
        p.last = True

    def block(self, kind, scope, d, name=None):
        s = Scope(kind, scope, name)
        self.body(s, d + 1)
        s.end = len(self.points)
        return s

    def construct(self, scope, d):
        r = self.r
        ks = [k for k in self.kinds if k != "ns" or (scope.func is None and (self.nib or scope.kind in ("top", "ns")))]
        k = r.choice(ks)
        if k == "if":
            self.lines.append((d, "if true {"))
            self.block("if", scope, d)
            for _ in range(r.choice([0, 0, 1, 2])):
                self.lines += [(d, "}"), (d, "elif false {")]
                self.block("elif", scope, d)
            if r.random() < 0.5:
                self.lines += [(d, "}"), (d, "else {")]
                self.block("else", scope, d)
            self.lines.append((d, "}"))
        elif k == "while":
            self.lines.append((d, "while true {"))
            self.block("while", scope, d)
            self.lines.append((d, "}"))
        elif k == "func":
            n = self.name("fn")
            self.lines.append((d, "%s() {" % n))
            self.block("func", scope, d, n)
            self.lines.append((d, "}"))
        else:
            n = self.name("ns")
            self.lines.append((d, "namespace %s {" % n))
            self.block("ns", scope, d, n)
            self.lines.append((d, "}"))

    def text(self, fill, head=()):
        """-> (source, {point: line number of its first inserted line})"""
        out, at = list(head), {}
        stack = [0]
        for l in self.lines:
            if isinstance(l, Point):
                dep = sum(1 for _ in l.scope.chain()) - 1
                f = fill.get(l.i)
                if f:
                    at[l.i] = len(out) + 1
                    out += ["\t" * dep + x for x in f]
                elif l.last and not any(q.scope is l.scope and fill.get(q.i) for q in self.points) \
                        and not any(q.scope.parent is l.scope for q in self.points):
                    out.append("\t" * dep + "noop")
            else:
                out.append("\t" * l[0] + l[1])
        return "\n".join(out) + "\n", at


def path_to(a, b):
    """How point b names something declared at point a: a prefix ("" or "ns1.ns2."), or None if it cannot."""
    if a.i >= b.i:
        return None
    pre, s = "", a.scope
    while not b.scope.within(s):
        if s.kind != "ns" or b.i < s.end:
            return None
        pre = s.name + "." + pre
        s = s.parent
    return pre
