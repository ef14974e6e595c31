"""Independent reference for the contract ABI: type grammar, value domains, standard and
packed encodings, decoding.  Written from the Solidity ABI specification and the property
statements; shares no code with eth_abi (only exact rational arithmetic and bytes).

Types are plain tuples:
  ("b", base, sub)          basic, sub = None | int | (int, int)
  ("a", item, n | None)     array with n items / dynamic
  ("t", (c0, c1, ...))      tuple
"""
from collections.abc import Sequence
from decimal import Decimal
from fractions import Fraction

ALIASES = {
    "int": "int256",
    "uint": "uint256",
    "fixed": "fixed128x18",
    "ufixed": "ufixed128x18",
    "function": "bytes24",
    "byte": "bytes1",
}
ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = set("0123456789")


class Bad(Exception):
    pass


# ------------------------------------------------------------------ grammar
def parse(s):
    """Syntax only.  Raises Bad if `s` is not a type string of the grammar."""
    t, i = _type(s, 0)
    if i != len(s):
        raise Bad(s)
    return t


def _num(s, i):
    j = i
    while j < len(s) and s[j] in DIG:
        j += 1
    if j == i or s[i] == "0":
        return None, i
    return int(s[i:j]), j


def _type(s, i):
    if i < len(s) and s[i] == "(":
        comps = []
        i += 1
        while True:
            c, i = _type(s, i)
            comps.append(c)
            if i < len(s) and s[i] == ",":
                i += 1
                continue
            break
        if i >= len(s) or s[i] != ")":
            raise Bad(s)
        i += 1
        t = ("t", tuple(comps))
    else:
        j = i
        while j < len(s) and s[j] in ALPHA:
            j += 1
        if j == i:
            raise Bad(s)
        base = s[i:j]
        n, k = _num(s, j)
        sub = None
        if n is not None:
            sub = n
            if k < len(s) and s[k] == "x":
                m, k2 = _num(s, k + 1)
                if m is not None:
                    sub = (n, m)
                    k = k2
        i = k
        t = ("b", base, sub)
    while i < len(s) and s[i] == "[":
        if i + 1 < len(s) and s[i + 1] == "]":
            t = ("a", t, None)
            i += 2
            continue
        n, k = _num(s, i + 1)
        if n is None or k >= len(s) or s[k] != "]":
            raise Bad(s)
        t = ("a", t, n)
        i = k + 1
    return t, i


def show(t):
    if t[0] == "b":
        sub = t[2]
        if sub is None:
            return t[1]
        if isinstance(sub, tuple):
            return f"{t[1]}{sub[0]}x{sub[1]}"
        return f"{t[1]}{sub}"
    if t[0] == "a":
        return show(t[1]) + ("[]" if t[2] is None else f"[{t[2]}]")
    return "(" + ",".join(show(c) for c in t[1]) + ")"


def canon_type(t):
    if t[0] == "b":
        if t[2] is None and t[1] in ALIASES:
            return parse(ALIASES[t[1]])
        return t
    if t[0] == "a":
        return ("a", canon_type(t[1]), t[2])
    return ("t", tuple(canon_type(c) for c in t[1]))


def valid(t):
    """Is the (possibly aliased) type a valid ABI type?"""
    if t[0] == "a":
        return (t[2] is None or t[2] >= 1) and valid(t[1])
    if t[0] == "t":
        return len(t[1]) > 0 and all(valid(c) for c in t[1])
    base, sub = canon_type(t)[1:]
    if base in ("uint", "int"):
        return isinstance(sub, int) and 8 <= sub <= 256 and sub % 8 == 0
    if base in ("ufixed", "fixed"):
        return (
            isinstance(sub, tuple)
            and 8 <= sub[0] <= 256
            and sub[0] % 8 == 0
            and 1 <= sub[1] <= 80
        )
    if base == "bytes":
        return sub is None or (isinstance(sub, int) and 1 <= sub <= 32)
    return base in ("string", "bool", "address") and sub is None


def supported(s):
    try:
        return valid(parse(s))
    except Bad:
        return False


def dyn(t):
    if t[0] == "b":
        return t[1] in ("bytes", "string", "nil") and t[2] is None
    if t[0] == "a":
        return t[2] is None or dyn(t[1])
    return any(dyn(c) for c in t[1])


def hsize(t):
    """Bytes a value of t takes in the head of its container."""
    if dyn(t) or t[0] == "b":
        return 32
    if t[0] == "a":
        return t[2] * hsize(t[1])
    return sum(hsize(c) for c in t[1])


# ------------------------------------------------------------------ domain
def exact(v):
    """The exact rational value of an int or finite Decimal."""
    if v == 0:
        return Fraction(0)
    return Fraction(v)


def dom(t, v):
    """Is v in the domain of the canonical type t?"""
    k = t[0]
    if k in ("a", "t"):
        if isinstance(v, (str, bytes, bytearray)) or not isinstance(v, Sequence):
            return False
        if k == "t":
            return len(v) == len(t[1]) and all(dom(c, x) for c, x in zip(t[1], v))
        if t[2] is not None and len(v) != t[2]:
            return False
        return all(dom(t[1], x) for x in v)
    base, sub = t[1], t[2]
    if base == "uint":
        return type_int(v) and 0 <= v < 2**sub
    if base == "int":
        return type_int(v) and -(2 ** (sub - 1)) <= v < 2 ** (sub - 1)
    if base in ("ufixed", "fixed"):
        if not isinstance(v, (int, Decimal)):
            return False
        if isinstance(v, Decimal) and not v.is_finite():
            return False
        m, n = sub
        if isinstance(v, Decimal) and v != 0:
            if v.adjusted() > 80:  # above 2**256: cheap, and avoids giant integers
                return False
            if low_exp(v) < -n:
                return False
        x = exact(v) * 10**n
        if x.denominator != 1:
            return False
        if base == "ufixed":
            return 0 <= x < 2**m
        return -(2 ** (m - 1)) <= x < 2 ** (m - 1)
    if base == "bool":
        return isinstance(v, bool)
    if base == "address":
        if isinstance(v, (bytes, bytearray)):
            return len(v) == 20
        return isinstance(v, str) and addr_int(v) is not None
    if base == "bytes":
        if not isinstance(v, (bytes, bytearray)):
            return False
        return sub is None or len(v) <= sub
    if base == "string":
        return isinstance(v, str) and not any(0xD800 <= ord(c) <= 0xDFFF for c in v)
    raise AssertionError(t)


def type_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def low_exp(v):
    """Exponent of the last non-zero digit of a non-zero Decimal."""
    _, digits, e = v.as_tuple()
    i = len(digits)
    while digits[i - 1] == 0:
        i -= 1
        e += 1
    return e


def addr_int(s):
    h = s[2:] if s[:2] in ("0x", "0X") else s
    if len(h) != 40 or any(c not in "0123456789abcdefABCDEF" for c in h):
        return None
    return int(h, 16)


# ------------------------------------------------------------------ values
def canon(t, v):
    k = t[0]
    if k == "t":
        return tuple(canon(c, x) for c, x in zip(t[1], v))
    if k == "a":
        return tuple(canon(t[1], x) for x in v)
    base, sub = t[1], t[2]
    if base == "address":
        return "0x%040x" % addr_num(v)
    if base == "bytes":
        v = bytes(v)
        return v if sub is None else v + b"\0" * (sub - len(v))
    return v


def addr_num(v):
    return int.from_bytes(v, "big") if isinstance(v, (bytes, bytearray)) else addr_int(v)


def same(a, b):
    """Equality of canonical values including their kind."""
    if isinstance(a, tuple):
        return type(b) is tuple and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, Decimal)):
        return isinstance(b, (int, Decimal)) and exact(a) == exact(b)
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ encoding
def word(n):
    return (n % 2**256).to_bytes(32, "big")


def scaled(t, v):
    x = exact(v) * 10 ** t[2][1]
    assert x.denominator == 1
    return x.numerator


def pad32(b):
    return b + b"\0" * (-len(b) % 32)


def enc(t, v):
    k = t[0]
    if k == "t":
        return headtail(t[1], v)
    if k == "a":
        body = headtail((t[1],) * len(v), v)
        return body if t[2] is not None else word(len(v)) + body
    base, sub = t[1], t[2]
    if base in ("uint", "int", "bool"):
        return word(int(v))
    if base in ("ufixed", "fixed"):
        return word(scaled(t, v))
    if base == "address":
        return word(addr_num(v))
    if base == "string":
        v = v.encode("utf-8")
    if base == "bytes" and sub is not None:
        return pad32(bytes(v)) if len(v) else b"\0" * 32
    return word(len(v)) + pad32(bytes(v))


def headtail(types, values):
    heads, tails = [], []
    pos = sum(hsize(t) for t in types)
    for t, v in zip(types, values):
        e = enc(t, v)
        if dyn(t):
            heads.append(word(pos))
            tails.append(e)
            pos += len(e)
        else:
            heads.append(e)
    return b"".join(heads) + b"".join(tails)


def packed(t, v):
    k = t[0]
    if k == "t":
        return b"".join(packed(c, x) for c, x in zip(t[1], v))
    if k == "a":
        return b"".join(packed(t[1], x) for x in v)
    base, sub = t[1], t[2]
    if base in ("uint", "int"):
        return (v % 2**sub).to_bytes(sub // 8, "big")
    if base in ("ufixed", "fixed"):
        return (scaled(t, v) % 2 ** sub[0]).to_bytes(sub[0] // 8, "big")
    if base == "bool":
        return b"\1" if v else b"\0"
    if base == "address":
        return addr_num(v).to_bytes(20, "big")
    if base == "string":
        return v.encode("utf-8")
    v = bytes(v)
    return v if sub is None else v + b"\0" * (sub - len(v))


# ------------------------------------------------------------------ decoding
class DErr(Exception):
    """The reference refuses the data."""


class UErr(Exception):
    """The data holds text that is not UTF-8."""


def dec(types, data, lenient=False, check_pointers=True):
    """Decodes a tuple of `types`.  lenient=False: strict mode; lenient=True: missing or
    non-zero padding at the end of dynamic bytes and text is accepted everywhere.
    Returns (values, offsets) with offsets = the (container, target) pairs followed."""
    follow = []
    vals = _seq(types, data, 0, lenient, follow, check_pointers)
    return vals, follow


def _word(data, pos):
    if pos < 0 or pos + 32 > len(data):
        raise DErr("out of data")
    return int.from_bytes(data[pos : pos + 32], "big")


def _seq(types, data, base, lenient, follow, chk):
    head_end = base + sum(hsize(t) for t in types)
    ptrs = []
    pos = base
    # the static part of every head has to be there and valid, then the pointers
    for t in types:
        if dyn(t):
            w = _word(data, pos)
            ptrs.append(base + w)
        else:
            _one(t, data, pos, lenient, follow, chk)
        pos += hsize(t)
    if chk:
        for p in ptrs:
            if p < head_end or p >= len(data):
                raise DErr("pointer")
    out = []
    pos = base
    it = iter(ptrs)
    for t in types:
        if dyn(t):
            p = next(it)
            follow.append((base, head_end, p))
            out.append(_one(t, data, p, lenient, follow, chk))
        else:
            out.append(_one(t, data, pos, lenient, follow, chk))
        pos += hsize(t)
    return tuple(out)


def _one(t, data, pos, lenient, follow, chk):
    k = t[0]
    if k == "t":
        return _seq(t[1], data, pos, lenient, follow, chk)
    if k == "a":
        if t[2] is None:
            n = _word(data, pos)
            pos += 32
            if n > len(data) // 32:
                raise DErr("absurd array length")
        else:
            n = t[2]
        return _seq((t[1],) * n, data, pos, lenient, follow, chk)
    base, sub = t[1], t[2]
    if base == "nil":  # a custom dynamic type whose decoder reads nothing
        return pos
    w = _word(data, pos)
    if base == "uint":
        if w >= 2**sub:
            raise DErr("padding")
        return w
    if base in ("int", "fixed", "ufixed"):
        bits = sub if base == "int" else sub[0]
        if base != "ufixed" and w >= 2**255:
            w -= 2**256
        lo, hi = (0, 2**bits) if base == "ufixed" else (-(2 ** (bits - 1)), 2 ** (bits - 1))
        if not lo <= w < hi:
            raise DErr("padding")
        if base == "int":
            return w
        return Decimal((0 if w >= 0 else 1, tuple(map(int, str(abs(w)))), -sub[1]))
    if base == "bool":
        if w > 1:
            raise DErr("bool")
        return w == 1
    if base == "address":
        if w >= 2**160:
            raise DErr("padding")
        return "0x%040x" % w
    if base == "bytes" and sub is not None:
        d = data[pos : pos + 32]
        if any(d[sub:]):
            raise DErr("padding")
        return bytes(d[:sub])
    raw = data[pos + 32 : pos + 32 + w]
    pad = data[pos + 32 + w : pos + 32 + w + (-w % 32)]
    if not lenient:
        if len(raw) < w or len(pad) < -w % 32:
            raise DErr("out of data")
        if any(pad):
            raise DErr("padding")
    raw = bytes(raw)
    if base == "string":
        try:
            return raw.decode("utf-8")
        except UnicodeDecodeError:
            raise UErr("utf-8") from None
    return raw
