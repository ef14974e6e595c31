"""Replays the verifier's counter-models of the basic coders against the real code."""
import random
import re
from decimal import Decimal
from fractions import Fraction

from . import native as N
from . import refabi as R


def num(hint, stem):
    out = []
    for k, v in hint.items():
        if k.split("!")[0] == stem:
            out.append(Fraction(v))
    return out


def exact_decimal(f):
    """The Decimal equal to the fraction, or None."""
    d, e = f.denominator, 0
    while d % 10 == 0:
        d, e = d // 10, e + 1
    k = 0
    while d % 2 == 0:
        d, k = d // 2, k + 1
    m = 0
    while d % 5 == 0:
        d, m = d // 5, m + 1
    if d != 1:
        return None
    e += max(k, m)
    n = f.numerator * 10**e // f.denominator
    return Decimal((0 if n >= 0 else 1, tuple(map(int, str(abs(n)))), -e))


def values(t, hint):
    base, sub = t[1], t[2]
    out = []
    for f in num(hint, "x"):
        if f.denominator == 1:
            out.append(int(f))
    scale = sub[1] if isinstance(sub, tuple) else 0
    for f in num(hint, "y") + num(hint, "s"):
        d = exact_decimal(f / 10**scale)
        if d is not None:
            out.append(-abs(d) if d == 0 and any(v == "True" for k, v in hint.items() if k.startswith("minus_zero")) else d)
            if d == 0 and str(out[-1])[0] != "-":
                out.append(Decimal("-0"))
    for f in num(hint, "n"):
        if f.denominator == 1 and 0 <= f <= 10**6:
            n = int(f)
            r = random.Random(n)
            for b in (bytes(n), b"\xff" * n, r.randbytes(n)):
                out += [b, bytearray(b)]
    return out


def data_of(hint):
    """(data, position) of a decoder's counter-model"""
    n = [int(v) for k, v in hint.items() if k == "data.len"]
    if not n or n[0] > 10**6:
        return None
    buf = bytearray(n[0])
    rest = {}
    for k, v in hint.items():
        m = re.match(r"data\.be(\d+)\((\*|\d+)\)$", k)
        if m:
            rest.setdefault(int(m[1]), {})[m[2]] = int(v)
    pos = [int(f) for f in num(hint, "p") if f.denominator == 1]
    p = pos[0] if pos else 0
    for w in sorted(rest, reverse=True):
        d = rest[w]
        at = {int(a): x for a, x in d.items() if a != "*"}
        if w == 32:
            at.setdefault(p, d.get("*", 0))
        for a, x in sorted(at.items()):
            if 0 <= a and a + w <= len(buf):
                buf[a:a + w] = (x % 256**w).to_bytes(w, "big")
    return bytes(buf), p


def check_decode(t, s, d):
    dyn = R.dyn(t)
    full = (32).to_bytes(32, "big") + d if dyn else d
    for strict in (True, False):
        st, got = N.outcome(N.DECODE, [s], full, strict=strict)
        rs, want = N.ref_dec((t,), full, not strict)
        if rs == "ok" and st == "ok" and not R.same(want, got):
            raise N.Fail("value read", f"decode([{s!r}], 0x{full.hex()[:3000]}, strict={strict}) = {N.short(got)}, expected {N.short(want)}", N.dec_code([s], full, f", strict={strict}"))
        if (rs == "ok") != (st == "ok"):
            raise N.Fail("accepted or refused", f"decode([{s!r}], 0x{full.hex()[:3000]}, strict={strict}) gives {N.short(got)}, expected {N.short(want)}", N.dec_code([s], full, f", strict={strict}"))
        if st == "exc" and not isinstance(got, N.DECERR):
            raise N.Fail("decoding error", f"decode([{s!r}], 0x{full.hex()[:3000]}, strict={strict}) raises {got!r}", N.dec_code([s], full, f", strict={strict}"))


def leaf(params, prop, hints, seed, budget):
    s = params["type"]
    t = R.canon_type(R.parse(s))
    try:
        for hint in hints:
            if "codec" in params:
                for v in values(t, hint):
                    if N.odd(t, v):
                        continue
                    if prop == "C05":
                        N.check_encodable(N.PACKED if params["codec"] == "packed" else N.DEFAULT, params["codec"], s, v)
                    elif prop == "C01":
                        if R.dom(t, v):
                            N.check_roundtrip((t,), [s], (v,))
                    else:
                        N.check_domain(t, s, v, params["codec"] == "packed")
            else:
                dp = data_of(hint)
                if dp:
                    check_decode(t, s, dp[0][dp[1]:])
    except N.Fail as e:
        return {"law": e.law, "desc": "the verifier's counter-model, replayed: " + e.desc, "code": e.code}
    return None
