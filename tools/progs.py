"""Programs for the driver: building blocks.

A type is a tuple (kind, p, s, n, names, kids); columns are numbered in pre-order.
"""

SCALARS = ["boolean", "short", "int", "long", "date", "float", "double", "timestamp",
           "decimal", "string", "char", "varchar", "binary"]


def T(kind, *kids, p=0, s=0, n=0, names=None):
    kind = kind.lower()
    if kind == "struct" and names is None:
        names = ["f%d" % i for i in range(len(kids))]
    if kind == "decimal" and p == 0:
        p, s = 20, 3
    if kind in ("char", "varchar") and n == 0:
        n = 40
    return (kind, p, s, n, tuple(names or ()), tuple(kids))


def text(t):
    kind, p, s, n, names, kids = t
    if kind == "decimal":
        return "decimal:%d:%d" % (p, s)
    if kind in ("char", "varchar"):
        return "%s:%d" % (kind, n)
    if kind == "struct":
        return "struct:%d ( %s )" % (len(kids), " ".join(
            "x" + nm.encode().hex() + " " + text(k) for nm, k in zip(names, kids)))
    if kind in ("list", "map", "union"):
        head = "union:%d" % len(kids) if kind == "union" else kind
        return "%s ( %s )" % (head, " ".join(text(k) for k in kids))
    return kind


def flatten(t):
    """Pre-order list of (type, parent index or -1, place among siblings)."""
    out = []

    def go(t, par, o):
        at = len(out)
        out.append((t, par, o))
        for i, k in enumerate(t[5]):
            go(k, at, i)
    go(t, -1, 0)
    return out


class Prog:
    def __init__(self, id, t, codec="NONE", block=-1, level=0, stride=-1, stripe=-1,
                 tag="", ref=None, sink=None, shadow=""):
        self.id, self.t, self.tag, self.ref = id, t, tag, ref
        self.codec, self.block, self.level = codec, block, level
        self.stride, self.stripe, self.sink, self.shadow = stride, stripe, sink, shadow
        self.ops = []
        self.crash = None
        self.conf = None

    def copy(self, id, **kw):
        q = Prog(id, self.t, self.codec, self.block, self.level, self.stride, self.stripe,
                 self.tag, self.ref, self.sink, self.shadow)
        q.ops = list(self.ops)
        q.conf = self.conf
        for k, v in kw.items():
            setattr(q, k, v)
        return q

    def w(self, col, cells, alt=False):
        if cells:
            self.ops.append(("V" if alt else "W", col, [str(c) for c in cells]))
        return self

    def b(self, n):
        self.ops.append(("B", n))
        return self

    def f(self):
        self.ops.append(("F",))
        return self

    def rows(self, cols, n):
        """Write whole columns and announce n rows."""
        for c, cells in enumerate(cols):
            self.w(c, cells)
        return self.b(n)

    def weight(self):
        if self.tag == "large":
            return sum(o[2] * o[3] if o[0] == "N" else 10 * o[1] for o in self.ops if o[0] in "NR")
        return 120 + sum(sum(len(x) + 4 for x in o[2]) if o[0] in "WV" else 10 for o in self.ops)

    def text(self):
        o = ["P %s %s %s" % (self.id, self.ref or "-", self.tag), "S " + text(self.t),
             "C %s %d %d" % (self.codec, self.block, self.level), "G %d %d" % (self.stride, self.stripe)]
        if self.conf is not None:
            o.append("O " + " ".join(conf_text(c) for c in self.conf))
        if self.sink:
            o.append("K " + self.sink)
        if self.shadow:
            o.append("Y " + self.shadow)
        for op in self.ops:
            if op[0] in "WV":
                o.append("%s %d %s" % (op[0], op[1], " ".join(pack(op[2]))))
            else:
                o.append(" ".join(str(x) for x in op))
        o.append("E\n")
        return "\n".join(o)


def conf_text(c):
    """One configuration call, as in spec/Config.tla."""
    if c[0] == "comp":
        return "comp %s %d %s" % (c[1], len(c[2]), " ".join("%s %d" % tuple(x) for x in c[2]))
    return "%s %d" % tuple(c)


def pack(cells):
    out, i = [], 0
    while i < len(cells):
        j = i
        while j < len(cells) and cells[j] == cells[i]:
            j += 1
        out.append(cells[i] if j - i == 1 else "%s*%d" % (cells[i], j - i))
        i = j
    return out


def fill(t, root, pick, rnd=None):
    """Cells of all columns, given the root cells (None = null) and pick(col, type, n) -> n cells."""
    cols = flatten(t)
    cells = [None] * len(cols)
    for c, (ty, par, o) in enumerate(cols):
        if par < 0:
            cells[c] = root
            continue
        k = cols[par][0][0]
        n = 0
        for x in cells[par]:
            if x == "~":
                continue
            if k == "struct":
                n += 1
            elif k == "union":
                n += int(x) == o
            else:
                n += int(x)
        cells[c] = pick(c, ty, n)
    return cells
