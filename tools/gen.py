"""Families of write programs.  Every family yields lists of programs that belong together (a
program and those that refer to it).  What a program should lead to is not decided here but by
the specification (Trace.tla)."""
import random

import cells as C
from progs import Prog, T, fill, flatten, SCALARS

NULL = "~"
CODECS = ["NONE", "SNAPPY", "ZSTD"]


def codec_cfg(r, small=True):
    """codec, block size, level."""
    c = r.choice(CODECS)
    if c == "NONE":
        return dict(codec="NONE", block=-1)
    b = r.choice([1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 64, 100, 129, 256, 1000, 4096, -1] if small else [64, 1024, -1])
    return dict(codec=c, block=b, level=r.choice([0, 0, 1, 3, 9, 19, 22, r.randrange(1, 23)]) if c == "ZSTD" else 0)


def wide(r, n=0):
    """A stride that differs from a small one only in its high bits."""
    return r.choice([256, 65536, 2 ** 24, 2 ** 31 - 2 ** 16, 2 ** 30, 2 ** 31, 2 ** 32 - 2 ** 16]) + r.choice([0, 1, 2, 3, max(1, n // 2), max(1, n - 1)])


# sizes that nothing here reaches, though their low bits are small
BIGSTRIPES = [2 ** 16 * 100, 2 ** 31, 2 ** 32, 2 ** 32 + 8, 2 ** 40 + 1, 2 ** 63 - 1]


def config(r, n=0):
    d = codec_cfg(r)
    d["stride"] = r.choice([-1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, max(1, n), max(1, n - 1), n + 1, max(1, n // 2)])
    if r.random() < .08:
        d["stride"] = wide(r, n)
    d["stripe"] = r.choice([-1, -1, 0, 1, 8, 16, 33, 64, 100, 200, 500])
    if r.random() < .06:
        d["stripe"] = r.choice(BIGSTRIPES)
    return d


# ------------------------------------------------------------------ random schemas and rows

def schema(r, depth=3, kinds=None):
    kinds = kinds or SCALARS
    k = r.choice(["s", "s", "struct", "list", "map", "union"]) if depth > 0 else "s"
    sub = lambda: schema(r, depth - 1, kinds)
    if k == "s":
        k = r.choice(kinds)
        if k == "decimal":
            p = r.choice([1, 5, 18, 19, 38])
            return T("decimal", p=p, s=r.randrange(0, p + 1))
        if k in ("char", "varchar"):
            return T(k, n=r.choice([1, 10, 255, 65535]))
        return T(k)
    if k == "struct":
        n = r.choice([0, 1, 2, 2, 3, 4])
        return T("struct", *[sub() for _ in range(n)], names=[r.choice(["a", "b", "f%d" % i, "", "\u00e9", "x y", "A", " a ", "a.b", "`a`", "_col0", "\"", "a\x00", "e\u0301", "\ufeffa", "x" * 130, "a,b:c<d>"]) for i in range(n)])
    if k == "list":
        return T("list", sub())
    if k == "map":
        return T("map", sub(), sub())
    return T("union", *[sub() for _ in range(r.choice([1, 2, 2, 3, 5]))])


def any_rows(t, n, r, big=False, style="any", nulls=None):
    """Cells of all columns for n random rows."""
    def pick(c, ty, m):
        return C.column(ty, m, r, big, style, null=(r.random() < .7) if nulls is None else nulls)
    return fill(t, pick(0, t, n), pick)


def split(n, r, k=None):
    """n as a sum of batch sizes, zero-sized ones included now and then."""
    out = []
    while n > 0:
        m = min(n, k or r.choice([1, 1, 2, 3, 5, 10, n]))
        if r.random() < .05:
            out.append(0)
        out.append(m)
        n -= m
    return out


def batches(p, t, sizes, r, big=False, style="any", nulls=None):
    for m in sizes:
        p.rows(any_rows(t, m, r, big, style, nulls), m)
    return p


def fam_random(r, n, tag="", rows=40, depth=3, **kw):
    for i in range(n):
        t = schema(r, depth=r.randrange(depth + 1))
        m = r.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, rows])
        p = Prog("rnd%d" % i, t, tag=tag, **{**config(r, m), **kw})
        batches(p, t, split(m, r), r)
        yield [p.f()]


def fam_long(r, n, rows=300, kinds=None, nest=None, **kw):
    """A flat or nearly flat schema with enough rows for the encoders to reach their limits."""
    for i in range(n):
        k = r.choice(kinds or SCALARS)
        t = T(k)
        if nest == "list" or r.random() < .25:
            t = r.choice([T("list", t), T("list", t), T("map", T("boolean"), t), T("list", T("list", t))]) if nest else T("list", t)
        elif r.random() < .2:
            t = T("struct", t, T("boolean"))
        elif r.random() < .15:
            t = T("union", t, T("struct"))
        m = r.choice([rows, rows // 2, 131, 262, 128])
        p = Prog("long%d" % i, t, **{**config(r, m), **dict(stride=r.choice([-1, 0, 3, 50, 64, 100, 128, 129, 130, 131]))})
        if p.stripe in range(0, 64):
            p.stripe = -1
        for k2, v in kw.items():
            setattr(p, k2, v)
        batches(p, t, split(m, r, r.choice([m, 100, 64, 17])), r, big=True)
        yield [p.f()]


# ------------------------------------------------------------------ schemas

NAMES = ["", "a", "_col0", "x y", "\u00e9", "\u65e5\u672c", "q\"uote", "new\nline", "n" * 127, "n" * 128, "N" * 300, "\U0001f600", "\x00", "a.b",
         " a", "a ", " ", "\t", "a\r\n", "A", "e\u0301", "\ufeffx", "a\x00b", "`a`", "a,b:c<d>", "../a", "%s{}"]


def type_param(r, k):
    if k == "decimal":
        p = r.choice([1, 2, 9, 10, 18, 19, 20, 37, 38, r.randrange(1, 39)])
        return T(k, p=p, s=r.choice([0, p, p // 2, r.randrange(p + 1), r.randrange(39)]))
    if k in ("char", "varchar"):
        return T(k, n=r.choice([1, 2, 127, 128, 255, 256, 16383, 16384, 65535, r.randrange(1, 70000), 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]))
    return T(k)


def some_type(r, depth, width):
    k = r.choice(SCALARS + ["struct", "list", "map", "union"] * 3) if depth > 0 else r.choice(SCALARS)
    if k in SCALARS:
        return type_param(r, k)
    sub = lambda: some_type(r, depth - 1, max(1, width - 1))
    if k == "list":
        return T(k, sub())
    if k == "map":
        return T(k, sub(), sub())
    m = r.randrange(0 if k == "struct" else 1, width + 1)
    if k == "union":
        return T(k, *[sub() for _ in range(m)])
    names = [r.choice(NAMES) for _ in range(m)] if r.random() < .7 else [r.choice(NAMES)] * m
    return T(k, *[sub() for _ in range(m)], names=names)


def fam_schemas(r, n):
    """Types with every parameter, odd field names, wide and deep, under every configuration; few rows."""
    for i in range(n):
        t = some_type(r, r.randrange(0, 6), r.choice([1, 2, 3, 5]))
        if len(flatten(t)) > 60:
            t = some_type(r, 2, 3)
        m = r.choice([0, 1, 1, 2, 3])
        p = Prog("sch%d" % i, t, **config(r, m))
        p.stride = r.choice([p.stride, 10000, 9999, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 1])
        p.stripe = r.choice([p.stripe, 64 * 1024 * 1024, 2 ** 31 - 1] + BIGSTRIPES)
        if p.codec != "NONE" and r.random() < .4:
            p.block = r.choice([0x7fffff, 65536, 262144, 127, 128, 16384, 40000])
        batches(p, t, split(m, r), r)
        yield [p.f()]


def fam_kinds(r):
    """Each kind alone and below each kind of parent, with a null, a value and nothing."""
    i = 0
    for k in SCALARS + ["struct", "list", "map", "union"]:
        for par in (None, "struct", "list", "map", "union", "root"):
            for m in (0, 2):
                inner = type_param(r, k) if k in SCALARS else T(k, *[type_param(r, r.choice(SCALARS)) for _ in range({"list": 1, "map": 2}.get(k, 2))])
                t = inner if par is None else T("struct", T("boolean"), inner, T("string")) if par in ("struct", "root") else \
                    T("list", inner) if par == "list" else T("map", T("string"), inner) if par == "map" else T("union", inner, T("double"))
                if par == "root":
                    t = T("struct", T("struct", t), inner)
                p = Prog("kd%d" % i, t, **config(r, m))
                i += 1
                batches(p, t, split(m, r), r, nulls=(i % 2 == 0))
                yield [p.f()]


# ------------------------------------------------------------------ behaviours of the spec

POOL = {
    "boolean": ["0", "1"], "short": ["-32768", "32767", "0"], "int": ["-2147483648", "2147483647", "5"],
    "long": ["0", "-1", "9223372036854775807", "-9223372036854775808", "127"],
    "date": ["-1", "18000", "0"], "float": ["00000000", "80000000", "bf800000", "40490fdb"],
    "double": ["0000000000000000", "8000000000000000", "bff8000000000000", "400921fb54442d18"],
    "timestamp": ["0:0", "-1:999999999", "5:1000000", "-1420070401:1", "7:123456789"],
    "decimal": ["0", "-1", "170141183460469231731687303715884105727", "9223372036854775808", "1000"],
    "string": ["x", "x61", "x6162", "xc3a9"], "char": ["x", "x61"], "varchar": ["x62", "x6263"],
    "binary": ["x", "x00", "xff00ff", "x6162"],
}


def subst(j, a, b):
    """Type of a schema of Calls with the scalars replaced."""
    k = j["k"]
    if k == "LONG":
        return T(a)
    if k == "BOOLEAN":
        return T(b)
    return T(k, *[subst(x, a, b) for x in j["kids"]])


def from_calls(id, schemas, sch, ops, r, **kw):
    a, b = r.choice(SCALARS), r.choice(SCALARS)
    t = subst(schemas[sch - 1], a, b)
    cols = flatten(t)
    vals = {k: r.sample(POOL[k], min(2, len(POOL[k]))) for k in (a, b)}
    p = Prog(id, t, **kw)
    for o in ops:
        if o[0] == "W":
            c, x = o[1], o[2]
            k = cols[c][0][0]
            p.w(c, [NULL if x == [] else vals[k][int(x[0])] if k in vals else str(x[0])])
        elif o[0] == "B":
            p.b(o[1])
        else:
            p.f()
    return p


def fam_calls(r, n, calls, tag="", **kw):
    """Behaviours enumerated by TLC from Calls.tla, n per schema, with substituted types and values."""
    schemas, progs = calls
    for sch in sorted(progs):
        todo = progs[sch] if n is None or n >= len(progs[sch]) else r.sample(progs[sch], n)
        reps = 1 if n is None else max(1, min(6, n // (2 * max(1, len(todo)))))
        for i, ops in enumerate(todo):
            for q in range(reps):
                d = codec_cfg(r)
                d["stride"] = r.choice([1, 1, 2, 0, -1])
                d["stripe"] = r.choice([0, 0, -1, 4])
                d.update(kw)
                yield [from_calls("c%d_%d_%d" % (sch, i, q), schemas, sch, ops, r, tag=tag, **d)]


BASES = [0, 0, 0, 3, -70, 100, 8190, -2 ** 31, 2 ** 62, 2 ** 63 - 700, -2 ** 63 + 700, 2 ** 63 - 1, -2 ** 63]


def wrap64(x):
    return (x + 2 ** 63) % 2 ** 64 - 2 ** 63


def int_path(t, path, r):
    """A path through the integer encoder as cells."""
    k = t[0]
    if k == "timestamp":
        if r.random() < .5:
            b = r.choice([0, 0, -5, 10 ** 9, -2 ** 31])
            return ["%d:%d" % (b + v, 0) for v in path]
        # 8 * n, for n not a multiple of 100, is what the unsigned encoder sees
        lo = min(path)
        out = [1000 * i + 7 for i in range(len(path))]
        cur = {0: 1}
        return ["0:%d" % ((1 + 2 * (v - lo)) if (1 + 2 * (v - lo)) % 100 else (2 + 2 * (v - lo))) for v in path]
    b = r.choice(BASES)
    if k in ("short",):
        b = r.choice([0, 3, -70])
    if k in ("int", "date"):
        b = r.choice([0, 3, -70, 8190, 2 ** 31 - 1 - max(path), -2 ** 31 - min(path)])
    out = [wrap64(b + v) for v in path]
    return [str(x) for x in out]


DELTAS = [0, 1, -1, 2, 126, 127, 128, 129, 130, -127, -128, -129, -130, 200, 254, 255, 256, 257, -255, -256, -257,
          32767, 32768, 65535, 65536, 65537, -65536, 2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 2 ** 33 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 62]


def arith(k, d, m, r):
    """m cells whose stream of integers (values, seconds, nanoseconds or lengths) grows by d, or None."""
    if k in ("short", "int", "date", "long", "secs"):
        lim = 2 ** {"short": 15, "int": 31, "date": 31, "long": 63, "secs": 52}[k]
        if k == "long":
            x = r.choice([0, 1, -1, 5, -100, 2 ** 63 - 1, -2 ** 63, 2 ** 62])
        else:
            lo, hi = max(-lim, -lim - d * (m - 1)), min(lim - 1, lim - 1 - d * (m - 1))
            if lo > hi:
                return None
            x = r.choice([lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, r.randrange(-300, 300)))])
        out = [wrap64(x + i * d) for i in range(m)]
        return ["%d:0" % v for v in out] if k == "secs" else [str(v) for v in out]
    if k == "nanos":                      # an odd number of nanoseconds is stored as eight times itself
        if d % 8 or d // 8 * (m - 1) >= 10 ** 9 or d // 8 * (m - 1) <= -10 ** 9:
            return None
        d //= 8
        x = (0 if d >= 0 else -d * (m - 1)) + r.choice([1, 3, 11])
        out = [x + i * d for i in range(m)]
        return ["0:%d" % v for v in out] if max(out) < 10 ** 9 else None
    if abs(d) * (m - 1) > 3000:
        return None
    x = (0 if d >= 0 else -d * (m - 1)) + r.choice([0, 1, 7])
    out = [x + i * d for i in range(m)]
    if k in ("list", "map"):
        return [str(v) for v in out]
    return [C.hexs(bytes([97 + i % 3]) * v) for i, v in enumerate(out)]


def fam_deltas(r, n):
    """Arithmetic sequences of every kind of integer stream, with steps around what a run can express."""
    kinds = ["short", "int", "date", "long", "secs", "nanos", "string", "binary", "char", "varchar", "list", "map"]
    todo = [(k, d) for k in kinds for d in DELTAS] + [("nanos", 8 * d) for d in DELTAS if abs(d) < 10 ** 7]
    todo += [(k, d) for k in ("string", "binary", "list") for d in range(-260, 261, 20)]
    r.shuffle(todo)
    todo = todo if n is None else (todo * (n // len(todo) + 1))[:n]
    per = {}
    for i, (k, d) in enumerate(todo):
        cs = arith(k, d, r.choice([3, 3, 4, 5, 7]), r)
        if cs is None:
            continue
        cells = per.setdefault(k, [])
        cells.append(cs)
        if len(cells) < 4:
            continue
        seq = []
        for x in per.pop(k):
            seq += (arith(k, r.choice([3, -9, 1]), r.choice([0, 1, 2]), r) or []) + x
        t = {"secs": T("timestamp"), "nanos": T("timestamp"), "list": T("list", T("struct")), "map": T("map", T("struct"), T("boolean"))}.get(k) or T(k, n=4000)
        p = Prog("dl%d" % i, t, **codec_cfg(r))
        p.stride = r.choice([-1, 3, 5, 8, len(seq) - 2])
        p.w(0, seq)
        if k in ("list", "map"):
            for c in range(1, 2 if k == "list" else 3):
                p.w(c, ["1"] * sum(int(x) for x in seq))
        yield [p.b(len(seq)).f()]


def byte_path(kind, path):
    if kind == "boolean":
        return [str((v >> (7 - i)) & 1) for v in path for i in range(8)]
    if kind == "present":
        return [(str(7) if (v >> (7 - i)) & 1 else NULL) for v in path for i in range(8)]
    return [str(v % 3) for v in path]   # union tags


def fam_intpaths(r, n, paths, kinds=("long", "timestamp", "date", "int"), seek=True):
    """The transitions of the integer encoder, each followed by a group boundary or the end of the
    stripe; several paths share a file, each in its own stripe."""
    todo = paths if n is None or n >= len(paths) else r.sample(paths, n)
    i = 0
    while i < len(todo):
        t = T(r.choice(kinds))
        m = r.choice([1, 2, 3])
        p = Prog("ip%d" % i, t, **codec_cfg(r))
        p.stripe = 0
        for path in todo[i:i + m]:
            cs = int_path(t, path, r)
            if seek:
                p.stride = len(cs) if m == 1 else 10 if p.stride < 0 else p.stride
                cs = cs + [cs[-1]] * r.choice([0, 1, 3]) + C.values(t, r.choice([1, 2, 4, 9]), r, style="small")
            p.w(0, cs).b(len(cs))
        i += m
        yield [p.f()]


def fam_bytepaths(r, n, paths, seek=True, kinds=("union", "union", "union", "boolean", "present")):
    todo = paths if n is None or n >= len(paths) else r.sample(paths, n)
    for i, path in enumerate(todo):
        k = r.choice(kinds)
        if k != "union" and len(path) > 20 and r.random() < .8:
            k = "union"
        t = T("union", T("struct"), T("struct"), T("struct")) if k == "union" else T("boolean") if k == "boolean" else T("long")
        p = Prog("bp%d" % i, t, **codec_cfg(r))
        cs = byte_path(k, path)
        if seek:
            extra = r.choice([0, 1, 3, 5, 7]) if k != "union" else 0
            cs = cs + cs[-1:] * extra
            p.stride = len(cs)
            tail = r.choice([1, 2, 3, 9])
            cs = cs + (cs[-1:] * tail if r.random() < .5 else
                       [r.choice("012") if k == "union" else r.choice("01") if k == "boolean" else r.choice(["7", NULL]) for _ in range(tail)])
        p.w(0, cs)
        if k == "union":
            for v in range(3):
                p.w(v + 1, ["1"] * cs.count(str(v)))
        yield [p.b(len(cs)).f()]


# ------------------------------------------------------------------ compression blocks

def comp_bytes(n, r, how):
    if how == 0:
        return bytes([7]) * n
    if how == 1:
        return bytes(r.randrange(256) for _ in range(n))
    return bytes((i * 7) % 5 for i in range(n))


def fam_blocks(r, n, blocks=(1, 2, 3, 4, 5, 8, 16, 40, 127, 256)):
    """Every fill level of a block against every size of the next write, near multiples of the block."""
    combos = []
    for b in blocks:
        sizes = sorted({0, 1, 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 3 * b + 1} & set(range(0, 900)))
        for f in sorted({0, 1, b // 2, b - 1, b}):
            for s in sizes:
                combos.append((b, f, s))
    todo = combos if n is None or n >= len(combos) else r.sample(combos, n)
    for i, (b, f, s) in enumerate(todo):
        how = r.randrange(3)
        sizes = [f, s, r.choice([0, 1, b, b - 1, 3])]
        t = r.choice([T("binary"), T("binary"), T("struct", T("binary"), T("long")), T("list", T("binary"))])
        root = {"binary": None, "struct": ["1"] * 3, "list": ["1", "2"]}[t[0]]
        vals = [C.hexs(comp_bytes(x, r, how)) for x in sizes]
        if t[0] == "binary":
            cols = [vals]
        elif t[0] == "struct":
            cols = [root, vals, C.values(T("long"), 3, r)]
        else:
            cols = [root, vals]
        m = 2 if t[0] == "list" else 3
        p = Prog("bl%d" % i, t, codec=r.choice(["SNAPPY", "ZSTD"]), block=b, level=r.choice([0, 0, 1, 7, 19]),
                 stride=r.choice([-1, 1, 2, 3]), stripe=r.choice([-1, -1, 0]))
        p.rows(cols, m)
        if r.random() < .3:
            p.rows(cols, m)
        yield [p.f()]


def fam_fixed(r, n):
    """Streams of floats, doubles, varints and run-length groups over small blocks."""
    for i in range(n):
        k = r.choice(["float", "double", "long", "decimal", "timestamp", "boolean", "string"])
        t = r.choice([T(k), T("struct", T(k), T(r.choice(["double", "long"])))])
        m = r.choice([3, 7, 20, 40, 64])
        p = Prog("fx%d" % i, t, codec=r.choice(["SNAPPY", "ZSTD"]), block=r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 63]),
                 stride=r.choice([-1, 1, 3, 4, 8, m]), stripe=r.choice([-1, -1, 0, 30]))
        batches(p, t, split(m, r), r)
        yield [p.f()]


# ------------------------------------------------------------------ values and statistics

def pool_of(k):
    if k in ("short", "int", "long", "date"):
        lim = {"short": 2 ** 15, "int": 2 ** 31, "long": 2 ** 63, "date": 2 ** 31}[k]
        return [str(x) for x in C.LONGS if -lim <= x < lim]
    if k == "decimal":
        return [str(x) for x in C.DECIMALS]
    if k == "timestamp":
        return ["%d:%d" % (s, n) for s in C.SECS for n in (0, 1, 999999, 1000000, 999999999)] + \
               ["%d:%d" % (s, n) for n in C.NANOS for s in (0, -1)]
    if k == "float":
        return ["%08x" % x for x in C.F32]
    if k == "double":
        return ["%016x" % x for x in C.F64]
    if k == "boolean":
        return ["0", "1"]
    if k in ("string", "char", "varchar"):
        return [C.hexs(x) for x in C.STRINGS]
    return ["x", "x00", "xff", "x00ff", "x" + "ab" * 20]


def fam_sweep(r, n=None, chunk=40):
    """Every boundary value of every type, in random order, through several configurations."""
    i = 0
    for k in SCALARS:
        pool = pool_of(k)
        vals = pool[:]
        r.shuffle(vals)
        vals = vals * (1 if len(vals) > 8 else 3)
        for at in range(0, len(vals), chunk):
            cs = vals[at:at + chunk]
            if r.random() < .5:
                cs = [x for v in cs for x in ([v] if r.random() < .8 else [v, NULL])]
            t = T(k) if k != "decimal" else T("decimal", p=38, s=r.choice([0, 2, 10, 37, 38]))
            p = Prog("sw%d" % i, t, **codec_cfg(r))
            p.stride = r.choice([-1, 1, 2, 3, 5, 10])
            p.stripe = r.choice([-1, -1, 0])
            for m in split(len(cs), r, 13):
                p.w(0, cs[:m]).b(m)
                cs = cs[m:]
            i += 1
            yield [p.f()]


def fam_nan(r, n):
    """Floats and doubles with arbitrary bit patterns, NaNs included."""
    for i in range(n):
        t = r.choice([T("float"), T("double"), T("struct", T("float"), T("double")), T("list", T("double"))])
        m = r.choice([1, 2, 5, 12])

        def pick(c, ty, q):
            def one():
                if ty[0] == "float":
                    return "%08x" % r.choice(C.NAN32 + C.F32 + [r.getrandbits(32), r.getrandbits(32)])
                return "%016x" % r.choice(C.NAN64 + C.F64 + [r.getrandbits(64), r.getrandbits(64)])
            return [one() for _ in range(q)] if ty[0] in ("float", "double") else C.column(ty, q, r, null=False)
        p = Prog("nan%d" % i, t, **config(r, m))
        for b in split(m, r):
            p.rows(fill(t, pick(0, t, b), pick), b)
        yield [p.f()]


def fam_pairs(r, n):
    """Few cells per column, extreme values in every order, spread over groups and stripes."""
    for i in range(n):
        ks = [r.choice(SCALARS) for _ in range(r.choice([1, 2, 3]))]
        t = T("struct", *[T(k) if k != "decimal" else T(k, p=38, s=r.choice([0, 1, 5, 38])) for k in ks])
        m = r.choice([1, 2, 2, 3, 4, 6])
        p = Prog("pr%d" % i, t, **codec_cfg(r))
        p.stride, p.stripe = r.choice([1, 2, 3, -1, 0]), r.choice([0, 0, -1, 12])
        cols = [["1"] * m]
        for k in ks:
            few = r.sample(pool_of(k), min(r.choice([1, 2, 3]), len(pool_of(k))))
            cols.append([NULL if r.random() < .2 else r.choice(few) for _ in range(m)])
        if r.random() < .2:
            # whole stretches of nulls, so that groups, stripes or files are empty of values
            c = r.randrange(1, len(cols))
            a = r.randrange(m + 1)
            cols[c] = [NULL] * a + cols[c][a:] if r.random() < .5 else cols[c][:a] + [NULL] * (m - a)
        at = 0
        for b in split(m, r):
            for c in range(len(cols)):
                p.w(c, cols[c][at:at + b])
            p.b(b)
            at += b
        yield [p.f()]


# ------------------------------------------------------------------ stripes

def fam_stripes(r, n):
    """Stripe sizes around the exact size of the data held at batch boundaries."""
    for i in range(n):
        how = r.randrange(6)
        d = dict(stride=r.choice([-1, 1, 3, 4, 0]))
        if how == 0:      # doubles, exactly 8 bytes per row
            t, k, codec = T("double"), 8, dict(codec="NONE")
        elif how == 1:    # text of fixed length
            t, k, codec = T(r.choice(["string", "binary", "varchar"])), 5, dict(codec="NONE")
        elif how == 2:
            t, k, codec = T("struct", T("double"), T("float")), 12, dict(codec="NONE")
        elif how == 3:    # compressed
            t, k, codec = T(r.choice(["double", "binary"])), 8, dict(codec=r.choice(["SNAPPY", "ZSTD"]), block=r.choice([8, 16, 20, 64]))
        elif how == 4:    # data beneath a list, map or union
            t, k, codec = r.choice([T("list", T("double")), T("map", T("float"), T("float")),
                                    T("union", T("double"), T("double"))]), 8, dict(codec="NONE")
        else:
            t, k, codec = schema(r, 2), 8, codec_cfg(r)
        m = r.choice([3, 6, 12, 24])
        size = k * r.randrange(0, m) + r.choice([-1, 0, 0, 1])
        p = Prog("st%d" % i, t, stripe=max(0, size), **codec, **d)
        nul = r.random() < .3
        for b in split(m, r, r.choice([1, 1, 2, 3, None])):
            def pick(c, ty, q):
                if ty[0] in ("string", "binary", "varchar") and how == 1:
                    return [C.hexs("".join(r.choice("abcdefgh") for _ in range(5))) for _ in range(q)]
                return C.column(ty, q, r, null=nul, style="any")
            p.rows(fill(t, pick(0, t, b), pick), b)
        yield [p.f()]


def fam_longstripes(r, n):
    """Stripes of hundreds of rows in small batches, so that every stream counts when they close."""
    kinds = SCALARS + ["list", "map", "union", "struct", "emptylist", "emptymap", "tags", "last", "any"]
    for i in range(n):
        k = kinds[i % len(kinds)]
        a = T(r.choice(SCALARS))
        t = T(k) if k in SCALARS else {"list": T("list", a), "map": T("map", a, T(r.choice(SCALARS))), "union": T("union", a, T(r.choice(SCALARS))),
                                       "struct": T("struct", a, T(r.choice(SCALARS))), "emptylist": T("list", T("struct")),
                                       "emptymap": T("map", T("struct"), T("struct")), "tags": T("union", T("struct"), T("struct"), T("struct")),
                                       "last": T("struct", T("struct"), T("struct", T("boolean")), a)}.get(k) or schema(r, 2)
        m = r.choice([300, 500, 700])
        p = Prog("ls%d" % i, t, stride=r.choice([-1, 0, 50, 130]), **codec_cfg(r))
        how = r.randrange(3)                      # runs, noise, or nulls in long and short stretches
        if i % 5 == 4:
            # a stream of a byte a row, and one of a run that is worth a few rows
            k = ["decimal", "decimal", "string", "timestamp", "binary", "union", "list"][i // 5 % 7]
            t = {"union": T("union", T("struct"), T("float")), "list": T("list", T("struct"))}.get(k) or T(k)
            m, how = 1200, 3
            p = Prog("ll%d" % i, t, stride=r.choice([-1, 0]), **codec_cfg(r))

        def pick(c, ty, q):
            if how == 3:
                one = {"decimal": lambda: str(r.randrange(-64, 64)), "string": lambda: C.hexs(r.choice("abcd")), "binary": lambda: C.hexs(r.choice("abcd")),
                       "timestamp": lambda: "%d:0" % (1420070400 + r.randrange(-64, 64)), "union": lambda: str(r.choice("0001")), "list": lambda: "1"}
                return [one[ty[0]]() if ty[0] in one else "1" if ty[0] == "struct" else C.value(ty, r, "small") for _ in range(q)]
            if how == 0:
                v = C.column(ty, max(1, q), r, null=False, style="small")[0]
                return [v] * q
            cs = C.column(ty, q, r, big=True, null=False, style="small" if how == 1 else "any")
            if how == 2:
                j = 0
                while j < q:
                    j += r.choice([1, 3, 8, 24, 30, 100])
                    e = j + r.choice([1, 2, 9, 24, 60])
                    cs[j:e] = [NULL] * len(cs[j:e])
                    j = e
            return cs
        cells = fill(t, pick(0, t, m), pick)
        cols = flatten(t)
        p.stripe = r.choice([r.randrange(20, 200), r.randrange(60, 400), r.randrange(200, 1200)]) if how < 3 else r.randrange(250, 600)
        # the cells of a batch of every column
        at = [0] * len(cols)
        rows = 0
        while rows < m:
            b = min(m - rows, r.choice([1, 1, 1, 2, 3]) if how < 3 else 1)
            need = [0] * len(cols)
            need[0] = b
            for c, (ty, par, o) in enumerate(cols):
                if par >= 0:
                    need[c] = 0
                    for x in cells[par][at[par] - need[par]:at[par]]:
                        if x != NULL:
                            pk = cols[par][0][0]
                            need[c] += 1 if pk == "struct" else (int(x) == o) if pk == "union" else int(x)
                p.w(c, cells[c][at[c]:at[c] + need[c]])
                at[c] += need[c]
            p.b(b)
            rows += b
        yield [p.f()]


def fam_empty(r):
    """Files, stripes and batches without rows; one row; groups that end with the stripe."""
    i = 0
    for codec in (dict(codec="NONE"), dict(codec="SNAPPY", block=16), dict(codec="ZSTD")):
        for t in [T("long"), T("struct"), T("struct", T("string"), T("list", T("double"))), T("union", T("boolean"), T("decimal"))]:
            for sizes in ([], [0], [0, 0], [1], [0, 1], [1, 0], [1, 0, 1], [2, 2], [4], [3, 0, 1]):
                p = Prog("em%d" % i, t, stride=r.choice([0, 1, 2, 4]), stripe=r.choice([0, -1]), **codec)
                i += 1
                yield [batches(p, t, sizes, r).f()]


def fam_strides(r, n):
    """Row counts around multiples of the stride."""
    for i in range(n):
        s = r.choice([1, 2, 3, 4, 5, 8, 10, 20])
        real = s + r.choice([0, 0, 0, 0, 0, 256, 65536, 2 ** 24])   # the high bits count as well
        t = r.choice([T(r.choice(SCALARS)), T("struct", T(r.choice(SCALARS)), T(r.choice(SCALARS))),
                      T("struct", T("list", T("long")), T("boolean")), T("list", T("struct", T("long"))), schema(r, 2)])
        k = r.randrange(0, 5)
        m = max(0, k * s + r.choice([-1, 0, 0, 1]))
        p = Prog("sd%d" % i, t, stride=real, stripe=r.choice([-1, -1, 0, 50]), **codec_cfg(r))
        batches(p, t, split(m, r, r.choice([1, s, s + 1, 2 * s, None])), r)
        yield [p.f()]


# ------------------------------------------------------------------ large

def fam_big(r, only=None):
    """Sizes beyond what one byte, two bytes or the default limits hold."""
    def want(k):
        return only is None or k in only
    if want("stripes"):
        p = Prog("big_stripes", T("long"), stripe=0, stride=2)
        for i in range(300):
            p.w(0, [str(i)] if i % 3 else [NULL]).b(1)
        yield [p.f()]
    if want("columns"):
        t = T("struct", *[T(SCALARS[i % len(SCALARS)]) for i in range(300)])
        p = Prog("big_columns", t, codec="ZSTD", stride=2)
        batches(p, t, [2, 1], r)
        yield [p.f()]
    if want("union"):
        t = T("union", *[T("struct") for _ in range(256)])
        p = Prog("big_union", t, stride=100)
        tags = [0, 127, 128, 255, 254, 129] + [r.randrange(256) for _ in range(20)] + [255] * 4
        p.w(0, tags)
        for v in range(256):
            p.w(v + 1, ["1"] * tags.count(v))
        yield [p.b(len(tags)).f()]
    if want("deep"):
        t = T("long")
        for i in range(48):
            t = [T("struct", t), T("list", t), T("map", T("boolean"), t), T("union", t, T("struct"))][i % 4]
        p = Prog("big_deep", t, codec="SNAPPY", block=32, stride=2)
        cells = fill(t, ["1" if t[0] != "union" else "0"] * 3,
                     lambda c, ty, n: C.column(ty, n, r, null=False, style="small") if ty[0] not in ("list", "map", "union")
                     else [{"union": "0"}.get(ty[0], "1")] * n)
        yield [p.rows(cells, 3).f()]
    if want("wider") and only is not None:       # more than 65 536 columns, in a file without rows
        t = T("struct", T("struct", *[T("boolean") for _ in range(66000)]), T("date"))
        yield [Prog("big_wider", t, codec=r.choice(["NONE", "SNAPPY"])).f()]
    if want("text"):
        p = Prog("big_text", T("string"), codec="SNAPPY", block=-1, stride=1)
        vals = [C.hexs("q" * 20000), C.hexs("zy" * 9000), "x", C.hexs("\u00e9" * 300)]
        yield [p.w(0, vals).b(4).f()]
        p = Prog("big_text2", T("binary"), codec="NONE", stride=2)
        yield [p.w(0, ["x" + "00" * 17000, "x01", "x" + "fe" * 128, "x" + "03" * 127]).b(4).f()]
    if want("block"):
        for c, b in (("SNAPPY", 0x7fffff), ("ZSTD", 0x7fffff)):
            p = Prog("big_block_" + c, T("binary"), codec=c, block=b, stride=-1)
            yield [p.w(0, [C.hexs(comp_bytes(3000, r, 1)), C.hexs(comp_bytes(300, r, 0))]).b(2).f()]
    if want("default"):
        # the default stride of 10 000 rows
        for m in (10000, 10001, 20000):
            p = Prog("big_stride%d" % m, T("boolean"), codec="ZSTD")
            yield [p.w(0, ["1"] * (m - 1) + ["0"]).b(m).f()]
        p = Prog("big_rows", T("long"), codec="SNAPPY", stride=5000)
        yield [p.w(0, ["7"] * 6000 + [NULL] * 5000 + ["9"] * 1500).b(12500).f()]
    if want("list"):
        p = Prog("big_list", T("list", T("boolean")), codec="ZSTD", stride=2)
        yield [p.w(0, ["9000", "0", "300"]).w(1, ["1"] * 9000 + ["0"] * 300).b(3).f()]


def extremes(r):
    """Programs beyond 255 in one dimension each: stripes, columns, depth, variants, batches, rows."""
    for g in fam_big(r, ("stripes", "columns", "deep", "union")):
        yield g[0]
    t = T("struct", T("timestamp"), T("decimal", p=38, s=5), T("string"))
    p = Prog("big_batches", t, codec="SNAPPY", stride=r.choice([7, -1]))
    batches(p, t, [1] * 300, r)
    yield p.f()
    t = T("struct", T("timestamp"), T("list", T("decimal", p=18, s=2)))
    p = Prog("big_cells", t, codec=r.choice(["NONE", "ZSTD"]), stride=100)
    batches(p, t, [1300], r)
    yield p.f()
    t = T("struct", T("boolean"), T("union", T("timestamp"), T("list", T("decimal"))), T("map", T("char"), T("float")))
    p = Prog("big_stripes2", t, codec=r.choice(["NONE", "SNAPPY"]), stripe=0, stride=r.choice([0, 1, -1]))
    batches(p, t, [1] * 290, r)
    yield p.f()


def fam_extremes(r):
    for p in extremes(r):
        yield [p]


def fam_xsinks(r, per=7):
    """The extreme programs into sinks that take parts and are interrupted."""
    for b in extremes(r):
        b.tag = "twin"
        grp = [b]
        for j in range(per):
            s = r.choice(SCRIPTS) if j % 2 else "c:" + ",".join(str(r.choice(["i", r.randrange(1, 300), r.randrange(1, 30)])) for _ in range(r.randrange(3, 20))) + ",a"
            grp.append(b.copy("%s_%d" % (b.id, j), tag="sink", ref=b.id, sink=s + " log"))
        yield grp


def fam_xfaults(r, e, n):
    """A sink that fails at some places of the extreme programs."""
    for b in extremes(r):
        b.tag = "twin"
        L, W = e.length(b), e.writes(b)
        grp = [b]
        for j in range(n):
            at = r.choice([r.randrange(L + 1), L - 1 - r.randrange(min(L, 400)), r.randrange(min(L, 300))])
            grp.append(b.copy("%s_f%d" % (b.id, j), tag="fault", ref=b.id, sink="%s@%d%s log" % (r.choice("Ffz"), at, fail_kind(r))))
            k = r.choice([r.randrange(W), W - 1 - r.randrange(min(W, 30))])
            grp.append(b.copy("%s_s%d" % (b.id, j), tag="fault", ref=b.id, sink="s:%s%s%s log" % ("a," * k, r.choice("e0"), fail_kind(r))))
        grp.append(b.copy(b.id + "_flush", tag="fault", ref=b.id, sink="flush log"))
        yield grp


def fam_xways(r, closes):
    """The extreme programs interleaved and batched otherwise."""
    for b in extremes(r):
        b.tag = "twin"
        grp, cl = [b], closes(b)
        for j, way in enumerate(("", "twin", "thread")):
            q = rebatch(b, r, cl) if j != 0 else b
            q = interleave(q, r) if j != 1 else q
            grp.append(q.copy("%s_%d" % (b.id, j), tag="same", ref=b.id, shadow=way))
        yield grp


def fam_xentry(r):
    """The extreme programs through the alternative entry points."""
    for b in extremes(r):
        yield [b, alt(b, r).copy(b.id + "_a", tag="same", ref=b.id), alt(b, r, True).copy(b.id + "_b", tag="same", ref=b.id)]


HUGE = ("rows", "group", "list", "string", "block", "blockz", "plain", "binaries", "footer", "names")
HUGER = ("manyblocks", "megabyte")            # only where asked for


def fam_huge(r, only=None):
    """Sizes beyond 16 bits and beyond the default block."""
    def want(k):
        return k in (HUGE if only is None else only)
    noise = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    if want("rows"):                       # rows, runs and groups beyond 65 535
        p = Prog("huge_rows", T("boolean"), codec="NONE", stride=66000)
        yield [p.w(0, ["1"] * 69998 + [NULL, "0"]).b(70000).f()]
        p = Prog("huge_rows2", T("long"), codec="SNAPPY", stride=0)
        yield [p.w(0, ["5"] * 35000).b(35000).w(0, ["5"] * 34999 + [NULL]).b(35000).f()]
    if want("group"):                      # several default groups and a stripe of its own afterwards
        p = Prog("huge_group", T("struct", T("date"), T("boolean")), codec="ZSTD", stripe=200)
        for m in (10000, 10001, 9999):
            p.w(0, ["1"] * m).w(1, ["3"] * (m - 1) + [NULL]).w(2, ["0"] * m).b(m)
        yield [p.f()]
    if want("list"):
        p = Prog("huge_list", T("list", T("boolean")), codec="ZSTD", stride=40000)
        yield [p.w(0, ["70000", "0", NULL, "3"]).w(1, ["1"] * 70003).b(4).f()]
        p = Prog("huge_map", T("map", T("boolean"), T("struct")), codec="NONE", stride=60000)
        yield [p.w(0, ["66000", "1"]).w(1, ["1"] * 66001).w(2, ["1"] * 66001).b(2).f()]
    if want("string"):
        p = Prog("huge_string", T("string"), codec="SNAPPY", stride=1)
        yield [p.w(0, [C.hexs("k" * 70000), C.hexs("k" * 69999 + "l"), C.hexs("k" * 1500), C.hexs("k" * 1025 + "j")]).b(4).f()]
    if want("block"):
        p = Prog("huge_block", T("binary"), codec="SNAPPY", stride=1)
        yield [p.w(0, [C.hexs(noise(100000)), C.hexs(noise(100000)), C.hexs(noise(100000)), "x01"]).b(4).f()]
        p = Prog("huge_block2", T("binary"), codec="SNAPPY", stride=1, block=262145)
        yield [p.w(0, [C.hexs(b"abcdefgh" * 33000), C.hexs(noise(300)), C.hexs(b"q" * 4000)]).b(3).f()]
    if want("blockz"):
        p = Prog("huge_blockz", T("binary"), codec="ZSTD", level=r.choice([1, 3, 9]), stride=1)
        yield [p.w(0, [C.hexs(noise(262144)), C.hexs(noise(60000) * 2), "x01"]).b(3).f()]
        p = Prog("huge_blockz2", T("binary"), codec="ZSTD", level=22, stride=1, block=100000)
        yield [p.w(0, [C.hexs(bytes(r.choice(b"abcd") for _ in range(199999))), "x01"]).b(2).f()]
    if want("plain"):
        p = Prog("huge_plain", T("struct", T("binary"), T("double")), codec="NONE", stride=1)
        yield [p.rows([["1"] * 3, [C.hexs(noise(262143)), C.hexs(noise(2)), C.hexs(noise(70000))], [C.dbl(1.5)] * 3], 3).f()]
    if want("binaries"):                   # single bytes up to and over the default block
        p = Prog("huge_longs", T("long"), codec="SNAPPY", stride=7000)
        yield [p.w(0, [str(r.getrandbits(62)) for _ in range(30000)]).b(30000).f()]
    if want("footer"):                     # a metadata section beyond 64 KiB
        t = T("struct", *[T(SCALARS[i % len(SCALARS)]) for i in range(40)])
        for c in ("NONE", "SNAPPY"):
            p = Prog("huge_footer" + c, t, codec=c, stripe=0, stride=-1)
            for i in range(125):
                p.rows(any_rows(t, 1, r), 1)
            yield [p.f()]
    if want("manyblocks"):                 # more than 65 536 blocks in a stream
        p = Prog("huge_manyblocks", T("double"), codec=r.choice(["SNAPPY", "ZSTD"]), block=1, stride=r.choice([8191, 8195, 4000]))
        yield [p.w(0, [C.dbl(i / 4) for i in range(8200)]).b(8200).f()]
        p = Prog("huge_manyblocks2", T("binary"), codec="SNAPPY", block=r.choice([1, 3]), stride=1)
        yield [p.w(0, ["x" + "61" * 200000, "x62", "x"]).b(3).f()]
    if want("megabyte"):                   # values that fill many blocks
        for c, b in (("SNAPPY", -1), ("ZSTD", r.choice([-1, 2 ** 20, 0x7fffff]))):
            p = Prog("huge_mb" + c, r.choice([T("binary"), T("string")]), codec=c, block=b, stride=1)
            yield [p.w(0, [C.hexs(b"z" * r.choice([2 ** 20 + 1, 1300000])), "x61", C.hexs(b"y" * 600000)]).b(3).f()]
    for k in [k for k in (only or ()) if k.startswith("groups:")]:      # more than 65 535 row groups
        t = T(k[7:]) if k[7:] in SCALARS else T("list", T("struct")) if k[7:] == "list" else T("struct")
        m = r.choice([65536, 65540, 65600])
        cells = C.column(t, 50, r, style="small") if k[7:] in SCALARS else ["0"] * 49 + [NULL] if k[7:] == "list" else ["1"] * 50
        yield [Prog("huge_g" + k[7:], t, stride=1, codec="NONE").w(0, (cells * (m // 50 + 1))[:m]).b(m).f()]
    if want("names"):                      # a footer of more than one default block
        t = T("struct", *[T("boolean") for _ in range(5)], names=["%d%s" % (i, "\u00e9" * 33000) for i in range(5)])
        for c in ("SNAPPY", "NONE"):
            yield [Prog("huge_names" + c, t, codec=c).rows([["1"]] * 6, 1).f()]


def fam_large(r, n):
    """Runs recorded by number of cells (spec/Large.tla): stripes around the default size, sections
    beyond 24 bits, for n >= 0 streams beyond 16 bits, and for n > 0 files beyond 32 bits."""
    M = 1 << 20

    def prog(t, k, batches, **kw):
        p = Prog("lg", t, tag="large", **kw)
        for m, width in batches:
            for c, (ty, _, _) in enumerate(flatten(t)):
                p.ops.append(("N", c, m, {"struct": 0, "double": 8, "float": 4}.get(ty[0], width)))
            p.b(m)
        return p.f()
    # the default stripe size: 64 MiB exactly, and a little more
    yield [prog(T("binary"), 1, [(63, M), (1, M - 1), (0, 0), (1, 1), (1, 1), (2, M)])]
    yield [prog(T("binary"), 1, [(1, r.randrange(1, M))] + [(8, M)] * 20, codec="SNAPPY")]
    yield [prog(T("struct", T("double"), T("float")), 2, [(M, 0)] * 13)]
    # every stream beyond 16 bits
    def noisy(t, batches, **kw):
        p = Prog("ln", t, tag="large", **kw)
        for m in batches:
            p.ops.append(("R", m, 2 * r.randrange(1 << 40) + (len(batches) > 1)))
            p.b(m)
        return p.f()
    kinds = [T(k) for k in SCALARS] + [T("list", T("boolean")), T("map", T("boolean"), T("short")), T("union", T("boolean"), T("struct")), T("struct", T("decimal", p=10, s=2))]
    for i, t in enumerate(kinds):
        if n < 0:
            break
        m = 560000 if i % 3 else 700000
        yield [noisy(t, [m], codec="NONE", stride=r.choice([100, 90, 110]) if i % 2 else r.choice([-1, 9999, 120]))]
    if n >= 0:
        yield [prog(T("decimal"), 1, [(3000000, 1)], codec="NONE")]
        yield [noisy(T("struct", *[T(k) for k in SCALARS[:7]]), [r.randrange(9000, 15000) for _ in range(4)], codec="SNAPPY", stripe=1 << 20)]
        # a stripe footer beyond 16 bits
        yield [noisy(T("struct", *[T(SCALARS[i % len(SCALARS)]) for i in range(2600)]), [40, 3], codec="NONE", stripe=r.choice([0, -1]), stride=r.choice([-1, 7]))]
        yield [noisy(T("list", T("union", T("map", T("string"), T("double")), T("binary"))), [66000, 70000, 3], codec="NONE", stripe=r.choice([0, 1 << 19, -1]))]
    # other sizes beyond 16 and 24 bits
    yield [prog(T("binary"), 1, [(1, 70000)] * 60, stripe=r.choice([2 ** 21, 2 ** 20 + 70000]))]
    yield [prog(T("binary"), 1, [(5, 4 * M)] * 9, stripe=2 ** 25)]
    if n:
        yield [prog(T("binary"), 1, [(40, M)] * 110 + [(1, 3)], stripe=r.choice([-1, 100 * M]))]


# ------------------------------------------------------------------ configurations

def vary(c, r):
    """Another value of the same sort for the numbers in a configuration call of MC_Config."""
    other = {("block", 0): [0], ("block", 8388608): [2 ** 23, 2 ** 23 + 1, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 7, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40 + 100, 2 ** 63, 2 ** 64 - 1],
             ("block", 1): [1, 1, 2, 3], ("block", 8388607): [2 ** 23 - 1, 2 ** 23 - 1, 2 ** 23 - 2],
             ("level", 23): [23, 23, 24, 100, 256 + 3, 65536 + 3, 2 ** 31 - 1], ("level", -1): [-1, -1, -5, -100, -2 ** 31],
             ("level", 0): [0], ("level", 1): [1], ("level", 22): [22, 22, 21]}
    if c[0] == "comp":
        return ["comp", c[1], [[k, r.choice(other.get((k, v), [4, 16, 50, 129, 300, 65536] if k == "block" else list(range(1, 23))))] for k, v in c[2]]]
    return [c[0], r.choice([1, 2, 3, 4, 5, 8, 10, 0, 64, 10000, 2 ** 24 + 1] if c[0] == "stride" else [0, 1, 4, 16, 40, 100, 300, 2 ** 31, 2 ** 63 - 1])]


CONF_TYPES = [T("long"), T("string"), T("struct", T("long"), T("string")), T("struct", T("binary"), T("boolean"), T("double")), T("decimal", p=10, s=2),
              T("struct", T("timestamp"))]


def fam_confs(r, n, confs):
    for i, calls in enumerate(confs if n >= len(confs) else r.sample(confs, n)):
        t = r.choice(CONF_TYPES)
        m = r.choice([0, 1, 2, 5, 12, 30])
        p = Prog("cf%d" % i, t)
        p.conf = [vary(c, r) for c in calls]
        yield [batches(p, t, split(m, r), r).f()]


def fam_levels(r):
    """Every level of Zstandard, on both sides of the permitted range, with every sort of block."""
    t = T("struct", T("string"), T("long"))
    for level in list(range(-2, 26)) + [31, 127, 255, 256 + 5, 32768, 65536 + 9]:
        for block in (None, r.choice([1, 60, 1000])):
            p = Prog("lv%d" % level, t, stride=3)
            p.conf = [["comp", "ZSTD", ([["block", block]] if block else []) + [["level", level]]]]
            if r.random() < .5:
                p.conf[0][2].reverse()
            p.conf.append(["stride", 3])
            yield [batches(p, t, [4, 4], r).f()]


def fam_bounds(r):
    """Block sizes on both sides of the permitted range."""
    t = T("struct", T("string"), T("long"))
    for codec in ("SNAPPY", "ZSTD"):
        for block in [0, 1, 2, 3, 2 ** 16 - 1, 2 ** 16, 2 ** 22, 2 ** 23 - 2, 2 ** 23 - 1, 2 ** 23, 2 ** 23 + 1, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1,
                      2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]:
            p = Prog("bd", t)
            p.conf = [["stripe", 30], ["comp", codec, [["block", block]]]]
            yield [batches(p, t, [4, 4], r).f()]


def fam_variants(r):
    """Unions around the limit, anywhere in the schema."""
    for k in [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513]:
        for where in range(5 if k in (255, 256, 257) else 2 if k < 200 else 3):
            u = T("union", *[T(r.choice(["boolean", "short", "struct"])) for _ in range(k)])
            t = [u, T("list", u), T("struct", T("long"), u), T("union", T("boolean"), u), T("map", T("short"), T("struct", u))][where if k > 200 else r.randrange(5)]
            p = Prog("un%d" % k, t, **codec_cfg(r))
            p.stride = r.choice([-1, 2, 3])

            def pick(c, ty, m):
                if ty is u:
                    return [str(x) for x in [k - 1, 0, max(0, k - 2), k // 2, min(k - 1, 254), min(k - 1, 255)] * m][:m] if k else ["~"] * m
                if ty[0] == "list":
                    return ["3"] * m
                if ty[0] == "map":
                    return ["2"] * m
                if ty[0] == "union":
                    return ["1"] * m
                return C.column(ty, m, r)
            n = r.choice([1, 6, 7])
            for _ in range(2):
                p.rows(fill(t, pick(0, t, n), pick), n)
            yield [p.f()]


# ------------------------------------------------------------------ misaligned calls

def runs(cols):
    return sum(len(c) for c in cols)


def perturb(p, r):
    """Change one call of an aligned program, mostly so that it no longer is aligned."""
    q = p.copy(p.id + "x")
    cols = flatten(p.t)
    bat = [i for i, o in enumerate(q.ops) if o[0] in "BF"]
    ws = [i for i, o in enumerate(q.ops) if o[0] == "W"]
    how = r.randrange(9)
    if how == 0 and ws:                       # a cell less
        i = r.choice(ws)
        o = q.ops[i]
        j = r.randrange(len(o[2]))
        q.ops[i] = (o[0], o[1], o[2][:j] + o[2][j + 1:])
        if not q.ops[i][2]:
            del q.ops[i]
    elif how in (1, 2):                       # a cell more, before any batch or the end
        c = r.randrange(len(cols))
        t = cols[c][0]
        one = C.column(t, 1, r, null=r.random() < .3)
        i = r.choice(bat)
        if one == ["0"] and t[0] == "union" and not t[5]:
            one = [NULL]
        q.ops.insert(i, ("W", c, one))
    elif how == 3:                            # another number of rows
        bs = [i for i in bat if q.ops[i][0] == "B"]
        if bs:
            i = r.choice(bs)
            q.ops[i] = ("B", max(0, q.ops[i][1] + r.choice([-1, 1, 1, 2])))
    elif how == 4 and ws:                     # a null instead of a value, or the other way round
        i = r.choice(ws)
        o = q.ops[i]
        j = r.randrange(len(o[2]))
        t = cols[o[1]][0]
        new = NULL if o[2][j] != NULL else C.column(t, 1, r, null=False)[0]
        if not (t[0] == "union" and not t[5]):
            q.ops[i] = (o[0], o[1], o[2][:j] + [new] + o[2][j + 1:])
    elif how == 5 and ws:                     # a longer or shorter list, another variant
        cand = [i for i in ws if cols[q.ops[i][1]][0][0] in ("list", "map", "union")]
        if cand:
            i = r.choice(cand)
            o = q.ops[i]
            j = r.randrange(len(o[2]))
            if o[2][j] != NULL:
                t = cols[o[1]][0]
                v = int(o[2][j])
                v = (v + 1) % max(1, len(t[5])) if t[0] == "union" else max(0, v + r.choice([-1, 1]))
                q.ops[i] = (o[0], o[1], o[2][:j] + [str(v)] + o[2][j + 1:])
    elif how == 6:                            # a batch announced twice, or not at all
        bs = [i for i in bat if q.ops[i][0] == "B"]
        if bs:
            i = r.choice(bs)
            if r.random() < .5:
                del q.ops[i]
            else:
                q.ops.insert(i, q.ops[i])
    elif how == 7:                            # two cells moved past a batch
        ws2 = [i for i in ws if any(b > i for b in bat[:-1])]
        if ws2:
            i = r.choice(ws2)
            o = q.ops.pop(i)
            b = min(j for j, x in enumerate(q.ops) if j >= i and x[0] == "B")
            q.ops.insert(b + 1, o)
    else:                                     # a tag without variant
        cand = [i for i in ws if cols[q.ops[i][1]][0][0] == "union"]
        if cand:
            i = r.choice(cand)
            o = q.ops[i]
            n = len(cols[o[1]][0][5])
            tag = r.choice([x for x in (n, n, n, n + 1, 255, 128) if n <= x <= 255] or [255])
            if n < 256:
                q.ops.insert(i, ("W", o[1], [str(tag)]))
        else:
            q.b(1)
    return q


def fam_wrong(r, n, base):
    """Programs with one call changed."""
    base = list(base)
    for i in range(n):
        p = r.choice(base)[0]
        if not p.ops:
            continue
        q = perturb(p, r)
        if r.random() < .15:
            q = perturb(q, r)
        q.id = "w%d" % i
        yield [q]


def fam_tags(r):
    """Every tag for every small union, alone and after valid tags."""
    i = 0
    for n in (1, 2, 3, 255):
        t = T("union", *[T("struct") for _ in range(n)])
        for tag in sorted({n - 1, n, n + 1, 127, 128, 254, 255, 256, 256 + n - 1, 65536, 2 ** 32, 2 ** 64 - 1}):
            for pre in (0, 1, 2):
                p = Prog("tag%d" % i, t, stride=r.choice([1, 2, -1]), stripe=r.choice([0, -1]))
                i += 1
                good = [str(r.randrange(n)) for _ in range(pre)]
                p.w(0, good + [str(tag)])
                rows = good + ([str(tag)] if tag < n else [])
                for v in range(n):
                    p.w(v + 1, ["1"] * rows.count(str(v)))
                p.b(len(rows))
                p.w(0, ["0", str(tag)]).w(1, ["1"])
                if tag < n:
                    p.w(tag + 1, ["1"])
                p.b(2 if tag < n else 1)
                yield [p.f()]


def fam_lengths(r):
    """Lengths and row counts whose sums wrap around, and others that are merely wrong."""
    top = 2 ** 64
    i = 0
    for k in ("list", "map"):
        for ls in ([2 ** 63, 2 ** 63], [top - 1, 1], [top - 1, 3], [1, top - 1, 2], [top - 2, 1, 1, 2], [top - 1], [2 ** 32], [2 ** 32 + 2],
                   [2 ** 31], [256], [258], [65536 + 1], [2 ** 63 + 1, 2 ** 63], [NULL, top - 1, NULL, 2]):
            n = sum(x for x in ls if x != NULL) % top
            for have in sorted({n if n < 50 else 0, sum(x for x in ls if x != NULL) % 2 ** 32 % 50, sum(x for x in ls if x != NULL) % 256 % 50}):
                t = T(k, T("struct")) if k == "list" else T(k, T("struct"), T("boolean"))
                p = Prog("ln%d" % i, t, stride=r.choice([-1, 1, 2]), stripe=r.choice([0, -1]))
                i += 1
                p.w(1, ["1"] * have)
                if k == "map":
                    p.w(2, ["1"] * have)
                p.w(0, ls).b(len(ls))
                yield [p.f()]
    for a in (1, 2, 255, 256):
        for b in (top - 1, top - a, top - a - 1, 2 ** 32 - a, 2 ** 32, 256):
            p = Prog("ln%d" % i, T("boolean"), stride=r.choice([-1, 1]), stripe=-1)
            i += 1
            yield [p.w(0, ["1"] * a).b(a).b(b).f()]


OFFBY = [256, 65536, 2 ** 24, 2 ** 31, 2 ** 32]


def fam_offby(r):
    """Numbers of cells that are wrong by a power of two, for every kind of column in every place."""
    kids = [T(k) for k in SCALARS] + [T("struct"), T("struct", T("boolean")), T("list", T("long")), T("map", T("boolean"), T("int")), T("union", T("date"), T("struct"))]
    i = 0

    def prog(t):
        nonlocal i
        i += 1
        return Prog("ob%d" % i, t, stride=r.choice([-1, 1, 3]), stripe=r.choice([-1, -1, 0]))

    def some(ty, n):
        """n cells without descendants"""
        return [NULL] * n if ty[0] in ("struct", "union") and ty[5] else ["0"] * n if ty[0] in ("list", "map") else C.column(ty, n, r)
    for c in kids:
        for d in OFFBY:
            k = r.choice([0, 1, 2, 3])
            # the lengths of a parent, and the rows announced, are too great
            yield [prog(T("list", c)).w(0, [str(d + k)]).w(1, some(c, k)).b(1).f()]
            for short in (0, 1, 2):
                t = T("map", c, T("struct")) if short == 0 else T("map", T("boolean"), c) if short == 1 else T("map", T("struct"), c)
                m = d + k
                other = 2 if short == 0 else 1
                p = prog(t).w(0, [str(m)])
                if m < 1000 or (m < 100000 and short == 1 and c[0] in ("long", "struct")):
                    p.w(other, ["1"] * m)
                yield [p.w(2 if other == 1 else 1, some(c, k)).b(1).f()]
            yield [prog(c).w(0, some(c, k)).b(d + k).f()]
            if d <= 65536 and (d == 256 or c[0] in SCALARS or not c[5]):
                yield [prog(T("struct", c)).w(0, ["1"] * (d + k)).w(1, some(c, k)).b(d + k).f()]
                yield [prog(T("union", T("struct"), c)).w(0, ["1"] * (d + k)).w(2, some(c, k)).b(d + k).f()]
                # too many cells
                yield [prog(T("list", c)).w(0, [str(k)]).w(1, [NULL] * (d + k)).b(1).f()]
                yield [prog(c).w(0, [NULL] * (d + k)).b(k).f()]
    # the keys are right and the values short, and the other way round
    for d in OFFBY[:2]:
        for c in [T(k) for k in SCALARS]:
            yield [prog(T("map", c, T("boolean"))).w(0, [str(d)]).w(2, ["1"] * d).b(1).f()]
            yield [prog(T("map", T("boolean"), c)).w(0, [str(d)]).w(1, ["1"] * d).b(1).f()]


# ------------------------------------------------------------------ other sinks

SCRIPTS = ["c:1", "c:2", "c:3", "c:7", "c:1,i", "c:i,a", "c:i,i,2", "c:1,a", "c:a,1", "s:1,1,1,1", "s:i", "s:a,i", "s:a,a,i,1",
           "c:5,4,3,2,1", "c:100,i", "c:1,2,i,64,a"]


SHAPES = [lambda r: T("map", T(r.choice(SCALARS)), T(r.choice(SCALARS))), lambda r: T("list", T(r.choice(SCALARS))),
          lambda r: T("union", T(r.choice(SCALARS)), T(r.choice(SCALARS))), lambda r: T("struct", T(r.choice(SCALARS)), T(r.choice(SCALARS))),
          lambda r: schema(r, 2), lambda r: T("struct", T("long"), T("map", T("string"), T("list", T("boolean")))),
          lambda r: T("struct", T("union", T("binary"), T("struct", T("float"))), T("boolean"))] + \
         [lambda r, k=k: T(k) for k in SCALARS]


def sink_base(r, i, small=False):
    """The shapes and the scalar kinds in turn, so that every place that writes to the sink occurs."""
    t = SHAPES[i % len(SHAPES)](r)
    m = r.choice([1, 2, 3] if small else [2, 4, 8, 20])
    p = Prog("k%d" % i, t, **codec_cfg(r))
    p.stride, p.stripe = r.choice([1, 2, -1]), r.choice([0, 0, 20, -1])
    batches(p, t, split(m, r, r.choice([1, 2, 3])), r)
    return p.f()


def fam_sinks(r, n, per=10):
    for i in range(n):
        base = sink_base(r, i)
        base.tag = "twin"
        grp = [base]
        for j in range(per):
            if j < len(SCRIPTS) and i == 0:
                s = SCRIPTS[j]
            elif r.random() < .5:
                s = r.choice(SCRIPTS)
            else:
                s = r.choice("sc") + ":" + ",".join(r.choice(["i", "a", str(r.randrange(1, 9)), str(r.randrange(1, 300))])
                                                     for _ in range(r.randrange(1, 30)))
                if set(s[2:].split(",")) == {"i"}:
                    s += ",a"
            grp.append(base.copy("%s_%d" % (base.id, j), tag="sink", ref=base.id, sink=s + " log"))
        yield grp


def fam_interrupt(r, lens, n):
    """One interruption at each place of a file; lens(prog) gives its length."""
    first = r.randrange(len(SHAPES))
    for i in range(n):
        base = sink_base(r, first + i, small=True)
        base.tag = "twin"
        L = lens(base)
        grp = [base]
        for at in range(L):
            grp.append(base.copy("%s_i%d" % (base.id, at), tag="sink", ref=base.id, sink="i@%d log" % at))
        yield grp


def fam_bigsinks(r):
    """Buffers beyond 64 KiB that a sink takes in parts or with interruptions."""
    noise = bytes(r.getrandbits(8) for _ in range(200000))
    mk = lambda i, t, cells, **kw: Prog("kb%d" % i, t, stride=2, tag="twin", **kw).w(0, cells).b(len(cells)).f()
    bases = [mk(0, T("binary"), [C.hexs(noise[:180000]), "x", "x01"], codec="NONE"),
             mk(1, T("binary"), [C.hexs(noise[:150000]), C.hexs(noise[:70000])], codec="SNAPPY"),
             mk(2, T("string"), [C.hexs("ab" * 70000)], codec="ZSTD", block=65537),
             mk(3, T("double"), [C.dbl(i / 8) for i in range(17000)], codec="NONE"),
             mk(4, T("struct", T("long"), names=["n" * 140000]), [], codec="NONE"),
             mk(5, T("binary"), [C.hexs(noise[:65536])], codec="NONE"),
             mk(6, T("binary"), [C.hexs(noise[:65537]), "x02"], codec="SNAPPY")]
    for b in bases:
        grp = [b]
        for j, k in enumerate(["c:50000", "c:65536", "c:65535,i", "c:90000,i", "c:i,a", "c:i,100000", "s:65537,i,1", "c:a,32768", "c:131072,i,1",
                               "i@%d" % r.choice([65536, 65537, 100000]), "i@70000"]):
            grp.append(b.copy("%s_%d" % (b.id, j), tag="sink", ref=b.id, sink=k + " log"))
        yield grp


def after_failure(p, r):
    """The same calls, with more of them before and after the end of the program."""
    q = p
    if r.random() < .7:
        cut = [i for i, o in enumerate(q.ops) if o[0] == "B"]
        if cut:
            i = r.choice(cut)
            q.ops.insert(i + 1, ("B", 0))
    return q


KINDS = ["other", "block", "pipe", "time", "eof", "zero", "perm", "full", "data", "input", "reset", "abort", "exists", "found", "none", "mem",
         "os5", "os11", "os27", "os28", "os32", "os104", "os122"]


def fail_kind(r):
    """Most failures are of no particular kind."""
    return "" if r.random() < .5 else " k:" + r.choice(KINDS)


def fam_faults(r, e, n, modes="FfzL", step=1, big=False, calls=40):
    """A sink that fails at each place of the file: for ever, once, by accepting nothing, when
    flushed, or at each call (at `calls` of them, if there are more)."""
    at = r.randrange(len(SHAPES))
    for i in range(n):
        base = after_failure(sink_base(r, at + i, small=not big), r)
        base.tag = "twin"
        L = e.length(base)
        W = e.writes(base)
        grp = [base]
        for m in modes:
            if m == "L":
                for k in range(W) if W <= calls else sorted(r.sample(range(W), calls)):
                    for x in "e0":
                        grp.append(base.copy("%s_s%d%s" % (base.id, k, x), tag="fault", ref=base.id,
                                             sink="s:" + ",".join(["a"] * k + [x]) + fail_kind(r) + " log"))
                grp.append(base.copy(base.id + "_flush", tag="fault", ref=base.id, sink="flush log"))
                grp += [base.copy("%s_flush%s" % (base.id, k), tag="fault", ref=base.id, sink="flush k:%s log" % k) for k in KINDS]
                grp.append(base.copy(base.id + "_flushp", tag="fault", ref=base.id, sink="c:3,i flush" + fail_kind(r) + " log"))
                for k in range(3):
                    grp.append(base.copy("%s_m%d" % (base.id, k), tag="fault", ref=base.id,
                                         sink="c:%d,i f@%d" % (r.randrange(1, 9), r.randrange(L + 1)) + fail_kind(r) + " log"))
            else:
                for at in range(r.randrange(step), L + 1, step):
                    grp.append(base.copy("%s_%s%d" % (base.id, m, at), tag="fault", ref=base.id, sink="%s@%d" % (m, at) + (fail_kind(r) if m in "fF" else "") + " log"))
        yield grp


def fam_faultcalls(r, e, n):
    """One failure at each call, for every shape and kind."""
    return fam_faults(r, e, n, modes="L", calls=80)


# ------------------------------------------------------------------ the same content in other ways

def interleave(p, r):
    """The same cells per column and batch, with the writes in another order and cut differently."""
    q = p.copy(p.id + "y")
    q.ops = []
    pend = {}

    def drain():
        queues = {c: list(v) for c, v in pend.items() if v}
        order = r.randrange(4)
        while queues:
            if order == 0:      # children before parents
                c = max(queues)
            elif order == 1:
                c = min(queues)
            else:
                c = r.choice(sorted(queues))
            k = len(queues[c]) if order < 2 and r.random() < .7 else r.choice([1, 1, 2, 3, len(queues[c])])
            q.w(c, queues[c][:k])
            queues[c] = queues[c][k:]
            if not queues[c]:
                del queues[c]
        pend.clear()
    for o in p.ops:
        if o[0] in "WV":
            pend.setdefault(o[1], []).extend(o[2])
        else:
            drain()
            q.ops.append(o)
    return q


def rebatch(p, r, closes):
    """Other batches with the same stripes: closes[i] tells whether the i-th batch ended a stripe."""
    q = p.copy(p.id + "b")
    q.ops, k, rows = [], 0, 0
    for o in p.ops:
        if o[0] == "B":
            rows += o[1]
            if closes[k] or r.random() < .4:
                q.b(rows)
                rows = 0
            k += 1
        else:
            if o[0] == "F" and rows > 0:
                q.b(rows)
                rows = 0
            q.ops.append(o)
    return q


WAYS = ["snappy", "zstd", "twin", "fresh", "", "thread", "zstd none twin", "drop", "none fresh"]


def fam_ways(r, n, closes, per=4):
    """Interleavings and batchings of the same content."""
    for i in range(n):
        t = schema(r, r.randrange(1, 4))
        m = r.choice([1, 2, 5, 9, 20])
        base = Prog("y%d" % i, t, tag="twin", **config(r, m))
        batches(base, t, split(m, r, r.choice([1, 1, 2, 5])), r)
        base.f()
        grp = [base]
        cl = closes(base)
        for j in range(per):
            q = base
            if j != 0:
                q = rebatch(q, r, cl)
            if j != 1:
                q = interleave(q, r)
            # the base runs undisturbed, the others among other writers or in a process of their own
            q = q.copy("y%d_%d" % (i, j), tag="same", ref=base.id, shadow=WAYS[(i + j) % len(WAYS)])
            grp.append(q)
        yield grp


def fam_bigways(r, n):
    """The same long content in few large and in many small batches."""
    kinds = [T(k) for k in SCALARS] + [T("list", T("long")), T("struct", T("string"), T("boolean")), T("map", T("int"), T("decimal")), T("union", T("date"), T("float"))]
    for i in range(n):
        t = kinds[i % len(kinds)]
        m = r.choice([1025, 1500, 2200, 4100])
        cfg = dict(stride=r.choice([-1, 0, 1000, 999]), **codec_cfg(r, False))
        cells = fill(t, C.column(t, m, r, big=True), lambda c, ty, q: C.column(ty, q, r, big=True))
        grp = []
        for j, b in enumerate(([m], [m // 3, m // 3, m - 2 * (m // 3)], [1, 1023, m - 1024], [100] * (m // 100) + [m % 100], [m - 1, 1])):
            p = Prog("yb%d_%d" % (i, j), t, tag="same" if j else "twin", **cfg)
            if j:
                p.ref = grp[0].id
            at = [0] * len(cells)
            cols = flatten(t)
            for rows in b:
                need = [0] * len(cols)
                need[0] = rows
                for c, (ty, par, o) in enumerate(cols):
                    if par >= 0:
                        pk = cols[par][0][0]
                        xs = [x for x in cells[par][at[par] - need[par]:at[par]] if x != NULL]
                        need[c] = len(xs) if pk == "struct" else sum(int(x) == o for x in xs) if pk == "union" else sum(map(int, xs))
                    p.w(c, cells[c][at[c]:at[c] + need[c]])
                    at[c] += need[c]
                p.b(rows)
            grp.append(p.f())
        yield grp


def alt(p, r, some=False):
    q = p.copy(p.id + "a")
    q.ops = [("V", o[1], o[2]) if o[0] == "W" and (not some or r.random() < .5) else o for o in q.ops]
    return q


def fam_entry(r, n, calls=None):
    """Each program once through the ordinary and twice through the alternative entry points."""
    for i in range(n):
        how = r.randrange(5)
        if how == 0:
            t = T("timestamp")
        elif how == 1:
            t = T("decimal", p=38, s=r.choice([0, 3, 38]))
        elif how == 2:
            t = T("struct", T("timestamp"), T("decimal", p=18, s=2), T("list", T("timestamp")))
        else:
            t = schema(r, 3)
        m = r.choice([1, 3, 8, 16])
        base = Prog("v%d" % i, t, **config(r, m))
        batches(base, t, split(m, r), r)
        base.f()
        yield [base, alt(base, r).copy("v%d_a" % i, tag="same", ref=base.id),
               alt(base, r, True).copy("v%d_b" % i, tag="same", ref=base.id)]


def fam_entry_sweep(r):
    """Every boundary timestamp and decimal through both entry points."""
    i = 0
    for k in ("timestamp", "decimal"):
        pool = pool_of(k)
        for at in range(0, len(pool), 30):
            t = T(k) if k == "timestamp" else T(k, p=38, s=4)
            base = Prog("vs%d" % i, t, stride=r.choice([1, 4, -1]), **codec_cfg(r))
            cs = pool[at:at + 30]
            base.w(0, cs).b(len(cs)).f()
            i += 1
            yield [base, alt(base, r).copy(base.id + "_a", tag="same", ref=base.id)]
