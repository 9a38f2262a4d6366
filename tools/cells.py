"""Random and boundary cells per type; everything derives from the given random.Random."""
import struct

NULL = "~"


def longs():
    v = {0, 1, -1, 2, 63, 64, -64, -65, 100, -100}
    for k in range(2, 64):
        for d in (-1, 0, 1):
            v |= {2 ** k + d, -2 ** k + d}
    for k in range(1, 19):
        v |= {10 ** k, -10 ** k, 10 ** k - 1, -10 ** k - 1}
    v |= {719162, -719162, -719163, 2932896, -141427, -141428, 16436, 1420070400, -1420070400, 86400, 86399, 1000003, 40000, -40000}
    return sorted(x for x in v if -2 ** 63 <= x < 2 ** 63)


def decimals():
    v = set(longs())
    for k in (63, 64, 69, 70, 76, 77, 83, 84, 90, 91, 97, 98, 104, 105, 111, 112, 118, 119, 125, 126, 127):
        for d in (-1, 0, 1):
            v |= {2 ** k + d, -2 ** k + d}
    for k in range(0, 39):
        v |= {10 ** k, -10 ** k, 10 ** k - 1, -10 ** k + 1}
    return sorted(x for x in v if -2 ** 127 <= x < 2 ** 127)


def nanos():
    v = {0, 1, 7, 99, 100, 101, 999, 1000, 1001, 999999, 1000000, 1000001, 999000000, 999999999, 999999998,
         2 ** 26, 2 ** 29 - 1, 2 ** 29, 2 ** 29 + 1, 2 ** 29 + 100, 805306369, 123456789, 12345678, 987654321}
    for z in range(0, 10):
        for d in (1, 7, 9, 11, 99, 101, 123, 999):
            v.add(d * 10 ** z)
        for y in range(0, 10):          # multiples of numbers next to the powers of ten
            v |= {(10 ** y - 1) * 10 ** z, (10 ** y + 1) * 10 ** z}
    return sorted(x for x in v if x <= 999999999)


SECS = [0, 1, -1, 59, -60, 86399, 1420070400, -1420070400, -1420070401, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40, -2 ** 40,
        9 * 10 ** 15, -9 * 10 ** 15, 86400, -86400, -1420070399, -62135596800, -62135596801, -12219292800, -12219292801, 253402300799, 253402300800,
        2 ** 32, -2 ** 32, 2 ** 33 - 1, -2 ** 31 - 1, 2 ** 31 - 1420070400, -2 ** 31 - 1420070400, 2147483647 - 1420070400, 2 ** 53 // 1000, -2 ** 53 // 1000,
        2 ** 52, -2 ** 52, 951782400, 1000, 999, -1000, -999]
LONGS, DECIMALS, NANOS = longs(), decimals(), nanos()
STRINGS = ["", "a", "b", "ab", "aa", "\u00e9", "\u20ac", "\U0001f600", "\x00", "\x7f", "zz", "\uffff", "\ud7ff", "Z" * 17, "ORC",
           "a ", " a", " ", "a\x00b", "a\x00", "\ufeffx", "e\u0301", "\r\n", "A", "\t", "\x01", "\ufffe", "\ue000", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\u00c5", "A\u030a", "-0", "0", "00", "-", "NaN",
           "null", "\"", "\\", "a" * 7, "a" * 8, "a" * 9, "I", "\u0130", "\u00df", "ss"]
F32 = [0, 0x80000000, 1, 0x80000001, 0x3f800000, 0xbf800000, 0x40490fdb, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000,
       0x00800000, 0x007fffff, 0x3dcccccd, 0x42280000, 0x4b800000, 0x4b800001, 0xcb800000, 0x5f000000, 0x4f000000, 0x33800000, 0x34000000]
F64 = [0, 1 << 63, 1, (1 << 63) + 1, 0x3ff0000000000000, 0xbff0000000000000, 0x400921fb54442d18, 0x7fefffffffffffff,
       0xffefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x0010000000000000, 0x000fffffffffffff, 0x4045000000000000, 0x4340000000000000, 0x4340000000000001, 0xc340000000000000,
       0x43e0000000000000, 0xc3e0000000000000, 0x41dfffffffc00000, 0x3cb0000000000000, 0x47efffffe0000000, 0x36a0000000000000, 0x3ff0000000000001]
NAN32 = [0x7fc00000, 0xffc00001, 0x7f800001, 0x7fffffff]
NAN64 = [0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001]


def hexs(s):
    return "x" + (s.encode() if isinstance(s, str) else bytes(s)).hex()


def dbl(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def flt(x):
    return "%08x" % struct.unpack(">I", struct.pack(">f", x))[0]


def value(ty, r, style="any"):
    """One non-null cell of a scalar type."""
    k = ty[0]
    if k == "boolean":
        return str(r.randrange(2))
    if k in ("short", "int", "long", "date"):
        lim = {"short": 2 ** 15, "int": 2 ** 31, "long": 2 ** 63, "date": 2 ** 31}[k]
        if style == "small":
            return str(r.randrange(-3, 4))
        while True:
            x = r.choice(LONGS) if r.random() < .7 else r.randrange(-lim, lim)
            if -lim <= x < lim:
                return str(x)
    if k == "float":
        if style != "any" or r.random() < .5:
            return flt(r.randrange(-4096, 4096) / 16.0)
        return "%08x" % (r.choice(F32 + (NAN32 if style == "nan" else [])))
    if k == "double":
        if style != "any" or r.random() < .5:
            return dbl(r.randrange(-4096, 4096) / 16.0)
        return "%016x" % (r.choice(F64))
    if k == "timestamp":
        if style == "small":
            return "%d:%d" % (r.randrange(-3, 4), r.randrange(0, 3) * 1000000)
        s = r.choice(SECS) if r.random() < .5 else r.randrange(-10 ** 9, 10 ** 9)
        n = r.choice(NANOS) if r.random() < .7 else r.randrange(10 ** 9)
        return "%d:%d" % (s, n)
    if k == "decimal":
        if style == "small":
            return str(r.randrange(-3, 4))
        p = r.random()
        return str(r.choice(DECIMALS) if p < .6 else r.randrange(-10 ** 6, 10 ** 6) if p < .8 else r.randrange(-2 ** 127, 2 ** 127))
    if k in ("string", "char", "varchar"):
        if style == "small":
            return hexs(r.choice("ab"))
        p = r.random()
        if p < .6:
            return hexs(r.choice(STRINGS))
        if p < .65:                 # equal up to some length
            return hexs("pq"[r.random() < .1] * r.choice([7, 8, 15, 16, 23, 31, 32, 63, 64, 127, 128, 255, 256]) + r.choice(["", "", "a", "b", "\u00e9"]))
        if style == "any" and p < .655:
            return hexs("p" * r.choice([511, 512, 1023, 1024, 2047]) + r.choice(["", "a", "b", "\u00e9"]))
        return hexs("".join(chr(r.choice([r.randrange(32, 127), r.randrange(0xa0, 0x2000)])) for _ in range(r.randrange(0, 30))))
    if k == "binary":
        b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 8, 20])))
        return hexs(b + b"\0" * r.choice([0, 0, 0, 1, 3]))
    raise ValueError(k)


def seglen(r, big):
    p = r.random()
    if big and p < .25:
        return r.choice([126, 127, 128, 129, 130, 131, 132, 133, 258, 262])
    return r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 9])


def values(ty, n, r, big=False, style="any"):
    """n non-null cells: runs, arithmetic sequences and literals."""
    k, out = ty[0], []
    while len(out) < n:
        m = min(seglen(r, big), n - len(out))
        v = value(ty, r, style)
        mode = r.randrange(3)
        if k in ("short", "int", "long", "date") and mode == 1:
            lim = {"short": 2 ** 15, "int": 2 ** 31, "long": 2 ** 63, "date": 2 ** 31}[k]
            d = r.choice([1, -1, 2, 127, 128, -128, -129, 5, 0])
            x = int(v)
            if k == "long":   # arithmetic may wrap around
                out += [str((x + i * d + 2 ** 63) % 2 ** 64 - 2 ** 63) for i in range(m)]
            else:
                x = max(-lim, min(lim - 1 - 129 * m, x)) if d > 0 else max(-lim + 129 * m, x)
                out += [str(x + i * d) if -lim <= x + i * d < lim else "0" for i in range(m)]
        elif k == "timestamp" and mode == 1:
            s, ns = v.split(":")
            d = r.choice([1, -1, 127, 128, -128, -129])
            e = r.choice([0, 1, -1, 15, 16, -16, -17, 100])
            out += ["%d:%d" % (int(s) + i * d, min(max(int(ns) + i * e, 0), 999999999)) for i in range(m)]
        elif mode == 0:
            out += [v] * m
        else:
            out += [value(ty, r, style) for _ in range(m)]
    return out[:n]


def nulls(n, r, big=False):
    """A null pattern: list of booleans, True = null."""
    p = r.choice([0, 0, .1, .5, .9, 1, -1, -1])
    if p >= 0:
        return [r.random() < p for _ in range(n)]
    out = []
    while len(out) < n:
        m = r.choice([8, 16, 24, 1, 7, 9, 3])
        if big and r.random() < .2:
            m = r.choice([1024, 1032, 1040, 1048])
        out += [r.random() < .5] * m
    return out[:n]


def column(ty, n, r, big=False, style="any", null=True, maxlen=3):
    """n cells of any type."""
    k = ty[0]
    nl = nulls(n, r, big) if null else [False] * n
    if k == "struct":
        vs = ["1"] * n
    elif k in ("list", "map"):
        vs = [str(r.choice([0, 0, 1, 1, 2, r.randrange(maxlen + 1)])) for _ in range(n)]
        if big and r.random() < .3:
            vs = [str(i % 3) for i in range(n)]
    elif k == "union":
        w = len(ty[5])
        if w == 0:
            nl = [True] * n
            vs = ["0"] * n
        else:
            vs, i = [], 0
            while len(vs) < n:
                vs += [str(r.randrange(w))] * seglen(r, big)
            vs = vs[:n]
    else:
        vs = values(ty, n, r, big, style)
    return [NULL if z else v for z, v in zip(nl, vs)]
