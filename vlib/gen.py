"""Seeded generators of types, values and payloads for the native (CPython) side of the
checks: replays of counterexamples, bounded stand-ins and cross-checks of the verifier."""
import ast
import functools
import glob
import os
import random
from collections import UserList, deque
from decimal import Decimal
from fractions import Fraction

from . import refabi as R

REPO = os.environ.get("VERIF_REPO", "/repo")


@functools.cache
def src_consts():
    """Integer constants (and lengths of string constants) in the source under test, with
    their neighbours: thresholds in the code become inputs."""
    out = set()
    for f in glob.glob(os.path.join(REPO, "eth_abi", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                out.add(abs(n.value))
            elif isinstance(n, ast.BinOp):
                try:
                    v = eval(compile(ast.Expression(n), "x", "eval"), {"__builtins__": {}})
                    if type(v) is int and abs(v) < 2**300:
                        out.add(abs(v))
                except Exception:
                    pass
    return sorted(out)


@functools.cache
def sizes():
    s = set()
    for c in src_consts():
        if c <= 5000:
            s |= {c - 1, c, c + 1}
    s |= {0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 255, 256, 257}
    return sorted(x for x in s if 0 <= x <= 5000)


@functools.cache
def small_sizes():
    return [x for x in sizes() if x <= 70]


def basic_types():
    out = []
    for n in range(8, 257, 8):
        out += [("b", "uint", n), ("b", "int", n)]
    for n in range(1, 33):
        out.append(("b", "bytes", n))
    out += [("b", b, None) for b in ("bytes", "string", "bool", "address")]
    for m in range(8, 257, 8):
        for n in range(1, 81):
            out += [("b", "fixed", (m, n)), ("b", "ufixed", (m, n))]
    return out


@functools.cache
def _basics():
    return basic_types()


def gen_basic(r):
    k = r.random()
    if k < 0.2:
        return ("b", r.choice(("uint", "int")), 8 * r.choice((1, 2, 3, 4, 8, 16, 20, 24, 31, 32, r.randint(1, 32))))
    if k < 0.4:
        return ("b", "bytes", None)
    if k < 0.55:
        return ("b", "string", None)
    if k < 0.65:
        return ("b", "bool", None)
    if k < 0.75:
        return ("b", "address", None)
    if k < 0.87:
        return ("b", "bytes", r.choice((1, 2, 31, 32, r.randint(1, 32))))
    return ("b", r.choice(("fixed", "ufixed")), (8 * r.randint(1, 32), r.choice((1, 2, 18, 79, 80, r.randint(1, 80)))))


def gen_wide(r):
    """Long tuples, long fixed arrays and deep nestings, of lengths near the constants of the source."""
    k = r.random()
    n = r.choice([x for x in (small_sizes() if r.random() < 0.8 else sizes()) if 1 <= x <= 300])
    static = ("b", "uint", 8)
    if k < 0.4:
        n = min(n, 40)
        cs = [r.choice((static, gen_basic(r))) if r.random() < 0.3 else static for _ in range(n)]
        if r.random() < 0.6:
            cs[r.choice((-1, r.randrange(n)))] = ("b", r.choice(("bytes", "string")), None)
        return ("t", tuple(cs))
    if k < 0.8:
        return ("a", r.choice((static, ("b", "bytes", None), ("b", "string", None), gen_basic(r))), n)
    t = r.choice((static, ("b", "bytes", None), gen_basic(r)))
    for _ in range(min(n, 12)):
        t = r.choice((("t", (t,)), ("a", t, 1), ("a", t, None), ("t", (static, t))))
    return t


def gen_type(r, depth=3):
    k = r.random()
    if depth and k < 0.012:
        return gen_wide(r)
    if depth == 0 or k < 0.35:
        return gen_basic(r)
    if k < 0.55:
        return ("a", gen_type(r, depth - 1), None)
    if k < 0.75:
        return ("a", gen_type(r, depth - 1), r.choice((1, 2, 3, r.randint(1, 4))))
    return ("t", tuple(gen_type(r, depth - 1) for _ in range(r.choice((1, 2, 2, 3, 3, 4)))))


def gen_types(r, depth=3, n=None):
    if n is None:
        n = r.choice((0, 1, 1, 2, 2, 3, 3, 4, 6)) if r.random() < 0.97 else r.randint(7, 20)
    return tuple(gen_type(r, depth) for _ in range(n))


def gen_int(r, lo, hi):
    k = r.random()
    if k < 0.25:
        return r.choice((lo, hi, lo + 1, hi - 1, max(lo, min(hi, 0)), max(lo, min(hi, 1)), max(lo, min(hi, -1))))
    if k < 0.45:
        c = r.choice(src_consts() or [0]) + r.choice((-1, 0, 1))
        c = r.choice((c, -c))
        if lo <= c <= hi:
            return c
    if k < 0.6:
        b = r.randint(0, 257)
        c = r.choice((1, -1)) * (2**b + r.choice((-1, 0, 1)))
        if lo <= c <= hi:
            return c
    if k < 0.7:
        b = r.randint(0, 256)
        c = r.choice((1, -1)) * r.getrandbits(b + 1)
        if lo <= c <= hi:
            return c
    return r.randint(lo, hi)


def gen_bytes(r, n):
    k = r.random()
    if k < 0.2:
        return bytes(n)
    if k < 0.35:
        return b"\xff" * n
    if k < 0.45:
        return (bytes(range(256)) * (n // 256 + 1))[:n]
    b = r.randbytes(n)
    if k < 0.6 and n:
        z = r.randint(0, n)
        b = b[:z] + bytes(n - z)
    return b


_TEXT = ["a", "Z", "0", "\0", "\x7f", "\x80", "é", "\u07ff", "\u0800", "€", "\ud7ff", "\ue000", "\uffff", "\ufeff", "\U00010000", "\U0010ffff", "𝒳", "0x", "\n"]


def gen_text(r, n):
    if r.random() < 0.2:
        return r.choice(("a", "\0", "é", "€", "\U00010000", "0", "1")) * n
    return "".join(r.choice(_TEXT) for _ in range(n))


def ranges(t):
    base, sub = t[1], t[2]
    if base == "uint":
        return 0, 2**sub - 1
    if base == "int":
        return -(2 ** (sub - 1)), 2 ** (sub - 1) - 1
    if base == "ufixed":
        return 0, 2 ** sub[0] - 1
    if base == "fixed":
        return -(2 ** (sub[0] - 1)), 2 ** (sub[0] - 1) - 1


def mkdec(n, places):
    return Decimal((0 if n >= 0 else 1, tuple(map(int, str(abs(n)))), -places))


def gen_hexaddr(r, n):
    h = "%040x" % n
    k = r.random()
    if k < 0.3:
        h = h.upper()
    elif k < 0.6:
        h = "".join(r.choice((c, c.upper())) for c in h)
    return r.choice(("0x", "", "0x")) + h


class MyInt(int):
    pass


class MyBytes(bytes):
    pass


class MyStr(str):
    pass


def gen_val(r, t, budget=None, plain=False):
    """A value in the domain of canonical type t."""
    if budget is None:
        budget = [2500]
    k = t[0]
    if k == "t":
        vs = [gen_val(r, c, budget, plain) for c in t[1]]
        return wrap(r, vs, plain)
    if k == "a":
        if t[2] is not None:
            n = t[2]
        else:
            p = r.random()
            n = r.choice((0, 1, 2, 3)) if p < 0.8 else r.choice(small_sizes() if p < 0.97 else sizes())
            per = 1 if t[1][0] == "b" else 6
            n = max(0, min(n, budget[0] // per))
        budget[0] -= n
        if n > 40 and t[1][0] == "b":
            pool = [gen_val(r, t[1], [64], plain) for _ in range(6)]
            vs = [r.choice(pool) for _ in range(n)]
        else:
            vs = [gen_val(r, t[1], budget, plain) for _ in range(n)]
        return wrap(r, vs, plain)
    base, sub = t[1], t[2]
    if base in ("uint", "int"):
        v = gen_int(r, *ranges(t))
        return MyInt(v) if not plain and r.random() < 0.02 else v
    if base in ("ufixed", "fixed"):
        n = gen_int(r, *ranges(t))
        v = mkdec(n, sub[1])
        if not plain and r.random() < 0.15 and n % 10 ** sub[1] == 0:
            return n // 10 ** sub[1]
        if not plain and r.random() < 0.1:
            z = r.choice((1, 5, 30, 200))
            return mkdec(n * 10**z, sub[1] + z)
        if not plain and r.random() < 0.03:
            return Decimal(r.choice(("-0", "-0.0", "-0E-90", "-0E+5", "0E+7", "0E-200")))
        if not plain and r.random() < 0.05:
            while n and n % 10 == 0:
                n //= 10
                sub = (sub[0], sub[1] - 1)
            return mkdec(n, sub[1])
        return v
    if base == "bool":
        return r.random() < 0.5
    if base == "address":
        n = gen_int(r, 0, 2**160 - 1)
        if r.random() < 0.4:
            b = n.to_bytes(20, "big")
            return bytearray(b) if not plain and r.random() < 0.2 else b
        return gen_hexaddr(r, n)
    if base == "bytes":
        if sub is not None:
            n = sub if r.random() < 0.6 else r.randint(0, sub)
        else:
            n = gen_len(r, budget)
        b = gen_bytes(r, n)
        return bytearray(b) if not plain and r.random() < 0.1 else b
    return gen_text(r, gen_len(r, budget))


def gen_len(r, budget):
    p = r.random()
    n = r.randint(0, 5) if p < 0.35 else r.choice(small_sizes()) if p < 0.85 else r.choice(sizes()) if p < 0.95 else r.randint(0, 300)
    n = max(0, min(n, budget[0] * 4))
    budget[0] -= n // 8
    return n


def wrap(r, vs, plain):
    if plain:
        return tuple(vs)
    k = r.random()
    if k < 0.45:
        return list(vs)
    if k < 0.9:
        return tuple(vs)
    if k < 0.95:
        return UserList(vs)
    return deque(vs)


def gen_vals(r, types, plain=False):
    b = [2500]
    return tuple(gen_val(r, t, b, plain) for t in types)


class Dummy:
    pass


class BadSeq:
    """Looks like a sequence but is not one."""

    def __len__(self):
        return 2

    def __getitem__(self, i):
        if i > 1:
            raise IndexError
        return 1


def junk(r):
    return r.choice(
        (
            None, True, False, 0, 1, -1, 5, 1.0, 0.5, float("nan"), 1j, "", "a", "0x", "true", "0", b"", b"\0", b"a" * 32, b"a" * 20, b"a" * 21,
            bytearray(b"ab"), memoryview(b"ab"), [], (), [1], (1, 2), {}, {1: 2}, {1}, frozenset(), range(3), Decimal("NaN"), Decimal("sNaN"),
            Decimal("Infinity"), Decimal("-Infinity"), Decimal("0"), Decimal("-0"), Decimal("1E+400"), Decimal("1E-400"), Decimal("-1E-400"), Decimal("1.5"), Fraction(1, 2), Fraction(2), 2**256, 2**255, -(2**255) - 1, 2**1024,
            -(2**1024), 10**5000, "\ud800", "\udfff", "a" * 40, "0x" + "0" * 40, "0x" + "0" * 39, "0x" + "0" * 41, "0x" + "g" * 40, "0x" + "０" * 40, " 0x" + "0" * 40,
            "0x" + "0" * 40 + "\n", Dummy(), Dummy, BadSeq(), len, iter([1]), (x for x in ()), [[]], [()], [None], "string", ["a", "b"], deque([1, 2]), UserList([1]), type, ..., NotImplemented,
        )
    )


def near(r, t):
    """A value just outside the domain of basic type t."""
    base, sub = t[1], t[2]
    if base in ("uint", "int"):
        lo, hi = ranges(t)
        return r.choice((lo - 1, hi + 1, lo - r.getrandbits(40) - 1, hi + r.getrandbits(300) + 1, hi + 2**sub, lo - 2**sub, -(2**255) - 1, 2**256, 2**264, float(hi), Decimal(hi), MyInt(hi + 1)))
    if base in ("ufixed", "fixed"):
        lo, hi = ranges(t)
        n = sub[1]
        v = gen_int(r, lo, hi)
        k = r.random()
        if k < 0.3:
            return mkdec(r.choice((lo - 1, hi + 1, lo - 10, hi + 10, hi + 2 ** sub[0])), n)
        if k < 0.7:
            x = r.choice((1, 2, 5, 60, 300, 1200))
            d = mkdec(v * 10**x + r.choice((1, 5, 9, 10 ** (x - 1), 10**x - 1)), n + x)
            return d
        if k < 0.8:
            return r.choice((hi // 10**n + 1, lo // 10**n - 1, 2**256, -(2**256), 10**81))
        return r.choice((mkdec(1, n + 1), mkdec(1, n + 900), mkdec(1, n + 2000), Decimal("1E-100000"), Decimal("1E+100000"), Decimal("1e999999999999"), mkdec(10 ** (n + 1) + 1, n + 1), float(1), Fraction(1, 10)))
    if base == "bool":
        return r.choice((0, 1, 2, "True", None, b"\1", 1.0))
    if base == "address":
        return r.choice((b"\0" * 19, b"\0" * 21, "0x" + "a" * 39, "0x" + "a" * 41, "a" * 39, "0x" + "z" * 40, 0, b"", "", "0x", "0x" + "a" * 38, "0y" + "a" * 40, "00" + "a" * 40))
    if base == "bytes" and sub is not None:
        return r.choice((b"\0" * (sub + 1), b"a" * (sub + 1), b"\0" * 33, b"\1" * 64, "a" * sub, bytearray(sub + 1), memoryview(bytes(sub)), [0] * sub, 0))
    if base == "bytes":
        return r.choice(("abc", memoryview(b"abc"), [1, 2], 7, None, ""))
    return r.choice((b"abc", "\ud800", "a\udfffb", 3, None, ["a"], "\ud83d", bytearray(b"x")))


def gen_bad(r, t):
    """Mostly outside the domain (the reference decides)."""
    k = t[0]
    if k == "b":
        return near(r, t) if r.random() < 0.6 else junk(r)
    if r.random() < 0.15:
        return junk(r)
    v = list(gen_val(r, t, [80]))
    m = r.random()
    if m < 0.25:
        return wrap(r, v + [gen_val(r, t[1] if k == "a" else t[1][-1], [20])], False)
    if m < 0.45:
        return wrap(r, v[:-1], False)
    if v:
        i = r.choice((0, len(v) - 1, r.randrange(len(v))))
        v[i] = gen_bad(r, t[1] if k == "a" else t[1][i])
    return wrap(r, v, False)


INTERESTING = [0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 161, 192, 224, 256, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 32, 2**128, 2**255 - 1, 2**255, 2**255 + 1, 2**256 - 1, 2**256 - 32, 2**256 - 31, 2**160, 2**160 - 1, 2**160 + 1]


def corrupt(r, data):
    """Variations of a valid payload."""
    d = bytearray(data)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.random()
        nw = len(d) // 32
        if k < 0.15:
            d = d[: r.randint(0, len(d))]
        elif k < 0.2:
            d += r.randbytes(r.choice((1, 31, 32, 33, 64)))
        elif k < 0.5 and nw:
            i = 32 * r.randrange(nw)
            w = int.from_bytes(d[i : i + 32], "big")
            c = r.choice(src_consts() or [0])
            w2 = r.choice((w + 1, w - 1, w + 32, w - 32, w + 31, w ^ (1 << r.randrange(256)), len(d), len(d) - 1, len(d) + 1, len(d) - 32, len(d) - i, len(d) - i - 32, r.choice(INTERESTING), r.choice(INTERESTING), 32 * r.randint(0, nw + 1), c, 32 * c, r.getrandbits(256))) % 2**256
            d[i : i + 32] = w2.to_bytes(32, "big")
        elif k < 0.8 and d:
            i = r.randrange(len(d))
            d[i] = r.choice((0, 1, 255, 128, d[i] ^ (1 << r.randrange(8)), r.randrange(256)))
        elif k < 0.9 and nw > 1:
            i, j = 32 * r.randrange(nw), 32 * r.randrange(nw)
            d[i : i + 32], d[j : j + 32] = d[j : j + 32], d[i : i + 32]
        elif d:
            i = r.randrange(len(d))
            del d[i : i + r.choice((1, 32))]
    return bytes(d)


def scatter(r, types, values):
    """A valid, but non-canonical layout of values: tails in random order with gaps."""

    def seq(ts, vs, gap):
        heads = []
        tails = []
        hs = sum(R.hsize(t) for t in ts)
        dyns = []
        for i, (t, v) in enumerate(zip(ts, vs)):
            e = one(t, v)
            if R.dyn(t):
                dyns.append((i, e))
                heads.append(None)
            else:
                heads.append(e)
        r.shuffle(dyns)
        pos = hs
        seen = {}
        for i, e in dyns:
            if e in seen and r.random() < 0.5:
                heads[i] = R.word(seen[e])
                continue
            g = r.choice((0, 0, 32, 1, 7, 64)) if gap else 0
            tails.append(r.randbytes(g))
            pos += g
            heads[i] = R.word(pos)
            seen[e] = pos
            tails.append(e)
            pos += len(e)
        return b"".join(heads) + b"".join(tails)

    def one(t, v):
        if t[0] == "t":
            return seq(t[1], v, True)
        if t[0] == "a":
            b = seq((t[1],) * len(v), v, True)
            return b if t[2] is not None else R.word(len(v)) + b
        return R.enc(t, v)

    return seq(types, values, True)


def rng(seed, salt=""):
    return random.Random(f"{seed}/{salt}")
