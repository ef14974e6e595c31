"""Native (CPython) side of the checks: searches for concrete inputs of the real code that
contradict a property.  It supplies the failing input for an obligation the verifier could
not discharge, it cross-checks the verifier, and it is the bounded stand-in (labelled so) for
the code the verifier cannot reach.  Oracle: vlib/refabi.py."""
import copy
import decimal
import functools
import io
import os
import pickle
import signal
import sys
import time
import traceback
from collections import UserList
from decimal import Decimal
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import gen as G  # noqa: E402
from vlib import refabi as R  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import eth_abi  # noqa: E402
import eth_abi.abi  # noqa: E402
import eth_abi.packed  # noqa: E402
from eth_abi import base as M_base, codec as M_codec, decoding as D, encoding as E, exceptions as X, grammar as Gr, registry as Rg  # noqa: E402
from eth_abi.utils import numeric as Nu  # noqa: E402

assert os.path.realpath(eth_abi.__file__).startswith(os.path.realpath(REPO)), eth_abi.__file__


class Fail(Exception):
    """A concrete contradiction of a property."""

    def __init__(self, law, desc, code=""):
        super().__init__(desc)
        self.law, self.desc, self.code = law, desc, code


def short(x, n=2000):
    try:
        s = repr(x)
    except Exception as e:  # huge ints
        s = f"<{type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def outcome(f, *a, **k):
    """('ok', value) or ('exc', exception)"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", e


def ref_dec(ts, d, lenient=False):
    try:
        return "ok", R.dec(ts, d, lenient)[0]
    except R.DErr as e:
        return "derr", e
    except R.UErr as e:
        return "uerr", e


ENCODE = eth_abi.encode
DECODE = eth_abi.decode
PACK = eth_abi.packed.encode_packed
DECERR = (X.DecodingError, UnicodeDecodeError)


# ---------------------------------------------------------------- known finding
def excess_negative(t, v):
    """The region of the known finding: a negative Decimal with more fractional digits than
    the signed fixed type has, within the bounds of the type."""
    if t[0] != "b" or t[1] != "fixed" or not isinstance(v, Decimal) or not v.is_finite() or v >= 0:
        return False
    m, n = t[2]
    if v.adjusted() > 80:
        return False
    if R.low_exp(v) >= -n:
        return False
    if v.adjusted() < -n - 400:
        return True
    x = R.exact(v) * 10**n
    return -(2 ** (m - 1)) <= x


def known(t, v):
    """Does v contain a leaf in the region of the known finding, everything else being in the
    domain?"""
    if t[0] == "b":
        return excess_negative(t, v)
    if not R_seq(v):
        return False
    ts = t[1] if t[0] == "t" else (t[1],) * len(v)
    if t[0] == "t" and len(v) != len(ts) or t[0] == "a" and t[2] is not None and len(v) != t[2]:
        return False
    if not any(known(c, x) for c, x in zip(ts, v)):
        return False
    return all(R.dom(c, x) or known(c, x) for c, x in zip(ts, v))


def R_seq(v):
    from collections.abc import Sequence

    return isinstance(v, Sequence) and not isinstance(v, (str, bytes, bytearray))


def odd(t, v):
    """Values about which the properties say nothing: booleans for fixed types."""
    if t[0] == "b":
        return t[1] in ("fixed", "ufixed") and isinstance(v, bool)
    if not R_seq(v):
        return False
    ts = t[1] if t[0] == "t" else (t[1],) * len(v)
    return any(odd(c, x) for c, x in zip(ts, v))


def finding_present():
    try:
        ENCODE(["fixed8x1"], [Decimal("-1.23")])
        return True
    except X.EncodingError:
        return False


# ---------------------------------------------------------------- cases
ALIAS_OF = {R.parse(v): k for k, v in R.ALIASES.items()}


def show_alias(r, t):
    """A type string for canonical type t, aliases used at random."""
    if t[0] == "b":
        if t in ALIAS_OF and r.random() < 0.5:
            return ALIAS_OF[t]
        return R.show(t)
    if t[0] == "a":
        return show_alias(r, t[1]) + ("[]" if t[2] is None else f"[{t[2]}]")
    return "(" + ",".join(show_alias(r, c) for c in t[1]) + ")"


def boundary_vals(t):
    """All the corner values of a basic type."""
    base, sub = t[1], t[2]
    out = []
    if base in ("uint", "int", "fixed", "ufixed"):
        lo, hi = G.ranges(t)
        ns = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 255, 256, -128, -129, 127, 128}
        for b in range(0, 257, 8):
            ns |= {2**b - 1, 2**b, -(2**b), 2**b // 2, -(2**b // 2)}
        for c in G.src_consts():
            ns |= {c, -c}
        ns = [n for n in ns if lo <= n <= hi]
        if base in ("uint", "int"):
            return ns
        out = [G.mkdec(n, sub[1]) for n in ns]
        out += [n // 10 ** sub[1] for n in ns if n % 10 ** sub[1] == 0]
        out += [Decimal(x) for x in ("-0", "-0.0", "-0E-90", "-0E+5", "0E+7", "0E-200")]
        return out
    if base == "bool":
        return [True, False]
    if base == "address":
        for n in (0, 1, 2**160 - 1, 0xABCDEF << 100, 0x5AAEB6053F3E94C9B9A09F33669435E7EF1BEAED):
            out += ["0x%040x" % n, "%040x" % n, "0x%040X" % n, "0X%040x" % n, n.to_bytes(20, "big"), bytearray(n.to_bytes(20, "big"))]
        return out
    if base == "bytes" and sub is not None:
        for n in range(sub + 1):
            out += [bytes(n), b"\xff" * n, b"\x01" * n, bytearray(b"a" * n)]
        return out
    for n in G.sizes():
        if n <= 1100:
            out.append(bytes(n) if base == "bytes" else "\0" * n)
            out.append(b"\xff" * n if base == "bytes" else "é" * n)
    return out


def big_shape(r):
    """Unusual shapes: very wide, very deep or very long."""
    k = r.random()
    if k < 0.3:
        n = r.choice([x for x in G.sizes() if 5 <= x <= 300] or [40])
        ts = tuple(G.gen_basic(r) for _ in range(n))
        if r.random() < 0.5:
            ts = (("t", ts),)
    elif k < 0.7:
        t = G.gen_basic(r)
        for _ in range(r.randint(3, 7)):
            q = r.random()
            t = ("a", t, None) if q < 0.35 else ("a", t, r.randint(1, 2)) if q < 0.6 else ("t", (t,) if q < 0.8 else (G.gen_basic(r), t))
        ts = (t,)
    else:
        n = r.choice([x for x in G.sizes() if 3 <= x <= 600] or [40])
        t = G.gen_type(r, 1)
        ts = (("a", t, r.choice((None, n))),)
        vs = ([G.gen_val(r, t, [30]) for _ in range(n)],)
        return ts, vs
    return ts, G.gen_vals(r, ts)


def case(r):
    k = r.random()
    if k < 0.04:
        return big_shape(r)
    if k < 0.15:
        ts = G.gen_types(r, depth=r.choice((4, 5)), n=r.choice((1, 2)))
    elif k < 0.3:
        ts = G.gen_types(r, depth=1, n=r.randint(1, 12))
    else:
        ts = G.gen_types(r)
    return ts, G.gen_vals(r, ts)


def leaf_case(r, types=None):
    t = r.choice(types or G._basics())
    return t


def strs(r, ts):
    return [show_alias(r, t) if r.random() < 0.2 else R.show(t) for t in ts]


def ts_of(ts, r=None):
    return [R.show(t) for t in ts]


def call_code(fn, ss, vs, kw=""):
    return f"import eth_abi, eth_abi.packed\nfrom decimal import Decimal\nfrom collections import UserList, deque\nprint({fn}({ss!r}, {short(vs, 6000)}{kw}))"


# ---------------------------------------------------------------- C01 C02 C03
def check_roundtrip(ts, ss, vs):
    st, b = outcome(ENCODE, ss, vs)
    if st == "exc":
        raise Fail("round trip", f"encode({ss}, {short(vs)}) refuses values of the domain: {b!r}", call_code("eth_abi.encode", ss, vs))
    want = tuple(R.canon(t, v) for t, v in zip(ts, vs))
    for strict in (True, False):
        st, got = outcome(DECODE, ss, b, strict=strict)
        if st == "exc" or not R.same(want, got):
            raise Fail("round trip", f"decode({ss}, encode({ss}, {short(vs)}), strict={strict}) = {short(got)}, expected {short(want)}", call_code("eth_abi.encode", ss, vs))


def law_c01(r):
    ts, vs = case(r)
    check_roundtrip(ts, strs(r, ts), vs)


def law_c01_leaf(r):
    t = leaf_case(r)
    for v in boundary_vals(t) if r.random() < 0.3 else [G.gen_val(r, t) for _ in range(8)]:
        check_roundtrip((t,), [R.show(t)], (v,))


def check_enc(ts, ss, vs):
    st, b = outcome(ENCODE, ss, vs)
    want = R.headtail(ts, vs)
    if st == "exc" or type(b) is not bytes or b != want:
        raise Fail("ABI bytes", f"encode({ss}, {short(vs)}) = {short(b)}, the ABI specification prescribes {want.hex()[:4000]}", call_code("eth_abi.encode", ss, vs))


def law_c02(r):
    ts, vs = case(r)
    check_enc(ts, strs(r, ts), vs)


def law_c02_leaf(r):
    t = leaf_case(r)
    for v in boundary_vals(t) if r.random() < 0.3 else [G.gen_val(r, t) for _ in range(8)]:
        check_enc((t,), [R.show(t)], (v,))


def check_packed(ts, ss, vs):
    st, b = outcome(PACK, ss, vs)
    want = b"".join(R.packed(t, v) for t, v in zip(ts, vs))
    if st == "exc" or b != want:
        raise Fail("packed bytes", f"encode_packed({ss}, {short(vs)}) = {short(b)}, expected {want.hex()[:4000]}", call_code("eth_abi.packed.encode_packed", ss, vs))


def law_c03(r):
    ts, vs = case(r)
    check_packed(ts, strs(r, ts), vs)


def law_c03_leaf(r):
    t = leaf_case(r)
    for v in boundary_vals(t) if r.random() < 0.3 else [G.gen_val(r, t) for _ in range(8)]:
        check_packed((t,), [R.show(t)], (v,))


# ---------------------------------------------------------------- C04
def check_domain(t, s, v, packed=False):
    if odd(t, v):
        return
    fn = PACK if packed else ENCODE
    st, b = outcome(fn, [s], [v])
    name = "encode_packed" if packed else "encode"
    code = call_code("eth_abi.packed.encode_packed" if packed else "eth_abi.encode", [s], [v])
    if R.dom(t, v):
        if st == "exc":
            raise Fail("domain accepted", f"{name}([{s!r}], [{short(v)}]) refuses a value of the domain: {b!r}"[:3000], code)
        want = R.packed(t, v) if packed else R.headtail((t,), (v,))
        if b != want:
            raise Fail("exact", f"{name}([{s!r}], [{short(v)}]) alters the value: {b.hex()[:2000]} instead of {want.hex()[:2000]}", code)
        return
    if known(t, v):
        if st == "exc" and isinstance(b, X.EncodingError):
            return
        if st == "ok" and t[0] == "b" and len(v.as_tuple().digits) < 900 and v.adjusted() > -900:
            x = R.exact(v) * 10 ** t[2][1]
            n = -((-x.numerator) // x.denominator)  # towards zero
            m = t[2][0]
            want = (n % 2**m).to_bytes(m // 8, "big") if packed else R.word(n)
            if n == 0 and v < 0:
                return
            if b != want:
                raise Fail("known finding changed", f"{name}([{s!r}], [{short(v)}]) = {b.hex()}", code)
        elif st == "exc":
            raise Fail("refusal", f"{name}([{s!r}], [{short(v)}]) raises {b!r}"[:3000], code)
        return
    if st == "ok":
        raise Fail("outside the domain refused", f"{name}([{s!r}], [{short(v)}]) accepts a value outside the domain: {short(b)}", code)
    if not isinstance(b, X.EncodingError):
        raise Fail("refused with an encoding error", f"{name}([{s!r}], [{short(v)}]) raises {type(b).__name__} instead of an encoding error: {b!r}"[:3000], code)


def law_c04(r):
    t = G.gen_type(r, r.choice((0, 0, 1, 2, 3)))
    v = G.gen_bad(r, t)
    check_domain(t, R.show(t), v, r.random() < 0.3)


def law_c04_leaf(r):
    t = leaf_case(r)
    s = R.show(t)
    for _ in range(6):
        check_domain(t, s, G.near(r, t) if r.random() < 0.6 else G.junk(r), r.random() < 0.3)
    for _ in range(2):
        check_domain(t, s, G.gen_val(r, t), r.random() < 0.3)


def law_c04_count(r):
    ts, vs = case(r) if r.random() < 0.7 else big_shape(r)
    ss = strs(r, ts)
    if all(R.dom(t, v) for t, v in zip(ts, vs)):
        st, b = outcome(ENCODE, ss, list(vs))
        if st == "exc":
            raise Fail("values of the domain are encoded", f"encode({ss}, {short(vs)}) raises {b!r}"[:5000], call_code("eth_abi.encode", ss, list(vs)))
    k = r.random()
    if k < 0.5 and len(vs):
        vs = vs[: r.randrange(len(vs))]
    else:
        vs = tuple(vs) + tuple(r.choice((0, None, b"")) for _ in range(r.choice((1, 1, 2, 5))))
    for name, fn in (("encode", ENCODE), ("encode_packed", PACK)):
        st, b = outcome(fn, ss, list(vs))
        if st == "ok" or not isinstance(b, X.EncodingError):
            raise Fail("count", f"{name}({ss}, {short(vs)}): {len(ss)} types, {len(vs)} values: {short(b)}", call_code("eth_abi." + name if name == "encode" else "eth_abi.packed.encode_packed", ss, list(vs)))


# ---------------------------------------------------------------- C05
def type_strings(r):
    """Type strings, valid or not."""
    k = r.random()
    if k < 0.35:
        return show_alias(r, G.gen_type(r, r.choice((0, 1, 2, 3))))
    if k < 0.7:
        s = show_alias(r, G.gen_type(r, r.choice((0, 0, 1, 2))))
        for _ in range(r.choice((1, 1, 2))):
            i = r.randrange(len(s) + 1)
            q = r.random()
            c = r.choice("()[],x0123456789ab uintefy \n\t-._")
            s = s[:i] + c + s[i:] if q < 0.4 else s[:i] + s[i + 1:] if q < 0.8 else s[:i] + c + s[i + 1:]
        return s
    b = r.choice(("uint", "int", "bytes", "string", "bool", "address", "function", "byte", "fixed", "ufixed", "hash", "real", "foo", "Uint", "uints", "tuple", "char", ""))
    n = r.choice((0, 1, 2, 7, 8, 9, 12, 16, 24, 31, 32, 33, 64, 80, 81, 128, 160, 248, 255, 256, 257, 264, 512, r.randint(0, 300)))
    m = r.choice((0, 1, 18, 79, 80, 81, 100, r.randint(0, 100)))
    s = b + r.choice(("", str(n), str(n), f"{n}x{m}", f"{n}x{m}", f"{n}x", f"x{m}", f"0{n}", f"{n}X{m}"))
    if r.random() < 0.3:
        s = r.choice((s + "[]", s + f"[{r.choice((0, 1, 2, '01', 3))}]", f"({s})", f"({s},int)", f"({s}", f"{s})", f"({s})[]", f"()", "(" + s + ",)", s + "[", s + "]", "[]" + s, s + "[-1]", s + "[ 1]"))
    return s


def safe_type(s):
    """Sizes small enough to try."""
    return not any(c.isdigit() for c in s) or all(int(x) < 3000 for x in _nums(s))


def _nums(s):
    import re

    return re.findall(r"[0-9]+", s)


def registry_of(codec):
    from eth_abi.registry import BaseRegistry

    return next(v for v in vars(codec).values() if isinstance(v, BaseRegistry))


def check_encodable(codec, name, s, v, where="", has=None):
    st1, enc = outcome(registry_of(codec).get_encoder, s)
    st2, ie = outcome(codec.is_encodable, s, v)
    st3, it = outcome(codec.is_encodable_type, s)
    code = f"from eth_abi.abi import default_codec\nprint(default_codec.is_encodable_type({s!r}), default_codec.is_encodable({s!r}, {short(v)}))\nprint(default_codec.encode([{s!r}], [{short(v)}]))"
    ok_type = st1 == "ok"
    if st3 == "exc" or it is not ok_type:
        raise Fail("type check", f"{name}: is_encodable_type({s!r}) gives {short(it)}, get_encoder gives {short(enc)} {where}", code)
    st4, b = outcome(codec.encode, [s], [v])
    if st4 == "exc" and ok_type and not isinstance(b, X.EncodingError):
        if st2 == "exc" and type(ie) is type(b):
            pass
        # the refusal of encode itself is C04's; is_encodable must not disagree
    if st2 == "exc":
        raise Fail("encodability check never raises", f"{name}: is_encodable({s!r}, {short(v)}) raises {ie!r} {where}"[:3000], code)
    if ie is not (st4 == "ok"):
        raise Fail("encodability check agrees", f"{name}: is_encodable({s!r}, {short(v)}) is {ie}, but encode gives {short(b, 400)} {where}", code)


class _Pk(M_codec.ABIEncoder):
    pass


PACKED = eth_abi.packed.default_encoder_packed if hasattr(eth_abi.packed, "default_encoder_packed") else M_codec.ABIEncoder(Rg.registry_packed)
DEFAULT = eth_abi.abi.default_codec


def law_c05(r):
    t = G.gen_type(r, r.choice((0, 0, 1, 2, 3)))
    v = G.gen_bad(r, t) if r.random() < 0.7 else G.gen_val(r, t, [100])
    s = show_alias(r, t)
    check_encodable(*((DEFAULT, "standard") if r.random() < 0.6 else (PACKED, "packed")), s, v)


def law_c05_leaf(r):
    t = leaf_case(r)
    s = R.show(t)
    c = (DEFAULT, "standard") if r.random() < 0.6 else (PACKED, "packed")
    for _ in range(5):
        check_encodable(*c, s, r.choice((G.near, lambda r, t: G.junk(r), G.gen_val))(r, t))


def law_c05_types(r):
    s = type_strings(r)
    if not safe_type(s):
        return
    check_encodable(*((DEFAULT, "standard") if r.random() < 0.6 else (PACKED, "packed")), s, G.junk(r))


def law_c05_custom(r):
    w = custom_world(r)
    for _ in range(4):
        t = custom_type(r, w, r.choice((0, 1, 2, 2, 3)))
        v = custom_bad(r, w, t) if r.random() < 0.5 else custom_val(r, w, t)
        check_encodable(w.codec, "custom", R.show(t), v, where=f"with custom coders {w.desc()}")


# ---------------------------------------------------------------- decoding laws
def payload(r):
    """(types, data, canonical?)"""
    ts, vs = case(r) if r.random() < 0.7 else (lambda t: ((t,), (G.gen_val(r, t),)))(leaf_case(r))
    k = r.random()
    if k < 0.15:
        return ts, R.headtail(ts, vs)
    if k < 0.3:
        return ts, G.scatter(r, ts, vs)
    if k < 0.42:
        return ts, G.corrupt(r, G.scatter(r, ts, vs))
    if k < 0.5:
        n = r.choice((0, 1, 31, 32, 33, 64, 96, 128, 160, 192, r.randint(0, 400)))
        if r.random() < 0.5:
            return ts, b"".join(R.word(r.choice((0, 1, 2, 32, 64, 96, 128, 160, r.choice(G.INTERESTING), len(ts) * 32))) for _ in range(n // 8))[: n * 4]
        return ts, r.randbytes(n)
    if k < 0.58:
        return ts, retype(r, ts, vs)
    return ts, G.corrupt(r, R.headtail(ts, vs))


def retype(r, ts, vs):
    """The encoding of other values: wrong counts and shapes."""
    vs = list(vs)
    b = R.headtail(ts, vs)
    ts2 = G.gen_types(r, 2)
    return b[: 32 * r.randint(0, len(b) // 32)] + R.headtail(ts2, G.gen_vals(r, ts2))


def dec_code(ss, d, kw=""):
    return f"import eth_abi\nprint(eth_abi.decode({ss!r}, bytes.fromhex({bytes(d).hex()!r}){kw}))"


def decode_law(kinds, prop_desc, static_only=False):
    def law_decode(r):
        ts, d = payload(r)
        if static_only:
            ts = tuple(t for t in ts if not R.dyn(t)) or (leaf_case(r),)
            if R.dyn(ts[0]):
                return
            n = sum(R.hsize(t) for t in ts)
            if len(d) < n:
                d = d + bytes(n - len(d))
        ss = ts_of(ts)
        st, got = outcome(DECODE, ss, d)
        if st == "exc":
            return
        rs, want = ref_dec(ts, d)
        if rs == "derr" and str(want) in kinds:
            raise Fail(prop_desc, f"decode({ss}, 0x{d.hex()[:3000]}) = {short(got)}, but the data must be refused: {want}", dec_code(ss, d))
        if static_only and rs == "ok":
            n = sum(R.hsize(t) for t in ts)
            s2, b = outcome(ENCODE, ss, got)
            if s2 == "exc" or b != d[:n]:
                raise Fail("re-encodes to what was read", f"decode({ss}, 0x{d.hex()[:3000]}) = {short(got)}, which re-encodes to {short(b)}", dec_code(ss, d))

    return law_decode


law_c06 = decode_law(("padding", "bool"), "canonical words only")
law_c06_static = decode_law(("padding", "bool"), "canonical words only", True)
law_c07 = decode_law(("pointer",), "offsets behind the head and inside the data")


def law_c06_words(r):
    """Every non-canonical single word."""
    t = leaf_case(r)
    for _ in range(6):
        v = G.gen_val(r, t)
        b = bytearray(R.headtail((t,), (v,)))
        lo = 32 if R.dyn(t) else 0
        if R.dyn(t):
            i = r.choice((len(b) - 1, r.randrange(64, max(65, len(b))))) if len(b) > 64 else 63
        else:
            i = lo + r.randrange(32)
        if i < len(b):
            b[i] ^= 1 << r.randrange(8)
        if r.random() < 0.2:
            b += r.randbytes(r.choice((1, 31, 32)))
        ss = [R.show(t)]
        st, got = outcome(DECODE, ss, bytes(b))
        rs, want = ref_dec((t,), bytes(b))
        if st == "ok" and (rs == "derr" and str(want) in ("padding", "bool")):
            raise Fail("canonical words only", f"decode({ss}, 0x{b.hex()[:3000]}) = {short(got)}, but: {want}", dec_code(ss, b))
        if st == "ok" and rs == "ok" and not R.dyn(t) and not R.same(want, got):
            raise Fail("value of a canonical word", f"decode({ss}, 0x{b.hex()}) = {short(got)}, expected {short(want)}", dec_code(ss, b))


def law_c07_ptr(r):
    """Every pointer of a valid payload moved to the critical places."""
    ts, vs = case(r)
    if r.random() < 0.5:
        ts = tuple(r.choice((("a", G.gen_basic(r), r.randint(1, 4)), ("t", tuple(G.gen_basic(r) for _ in range(r.randint(1, 4)))), G.gen_basic(r), ("b", "bytes", None), ("a", ("b", "uint", 8), None))) for _ in range(r.randint(1, 5)))
        if r.random() < 0.5:
            ts = (r.choice((("t", ts), ("a", ("t", ts), None), ("a", ("t", ts), 2))),)
        vs = G.gen_vals(r, ts)
    ss = ts_of(ts)
    d = R.headtail(ts, vs)
    st, got = outcome(DECODE, ss, d)
    if st == "exc" and isinstance(got, X.InvalidPointer):
        raise Fail("valid encodings are not rejected", f"decode({ss}, 0x{d.hex()[:3000]}) raises {got!r}", dec_code(ss, d))
    nw = len(d) // 32
    if not nw:
        return
    for _ in range(6):
        i = 32 * r.randrange(nw)
        b = bytearray(d)
        w = int.from_bytes(b[i:i + 32], "big")
        heads = sum(R.hsize(t) for t in ts)
        b[i:i + 32] = (r.choice((0, 32, heads, heads - 1, heads - 32, heads + 1, len(d), len(d) - 1, len(d) + 1, len(d) - i, len(d) - 1 - i, w + 1, w - 1, w - 32, w + 32, 32 * r.randint(0, nw), 2**256 - 32, 2**255, 2**64, 2**63)) % 2**256).to_bytes(32, "big")
        st, got = outcome(DECODE, ss, bytes(b))
        if st == "exc":
            if not isinstance(got, DECERR):
                raise Fail("bad offsets give a decoding error", f"decode({ss}, 0x{b.hex()[:3000]}) raises {got!r}", dec_code(ss, b))
            rs, want = ref_dec(ts, bytes(b))
            if rs == "ok" and isinstance(got, X.InvalidPointer):
                raise Fail("good offsets are not rejected", f"decode({ss}, 0x{b.hex()[:3000]}) raises {got!r}", dec_code(ss, b))
            continue
        rs, want = ref_dec(ts, bytes(b))
        if rs == "derr" and str(want) == "pointer":
            raise Fail("offsets behind the head and inside the data", f"decode({ss}, 0x{b.hex()[:3000]}) = {short(got)}", dec_code(ss, b))


def law_c07_lenient(r):
    ts, d = payload(r)
    ss = ts_of(ts)
    st, got = outcome(DECODE, ss, d, strict=False)
    if st == "ok":
        rs, want = ref_dec(ts, d, True)
        if rs == "derr" and str(want) == "pointer":
            raise Fail("offsets behind the head and inside the data", f"decode({ss}, 0x{d.hex()[:3000]}, strict=False) = {short(got)}", dec_code(ss, d, ", strict=False"))


def nil_codec():
    """A codec with a dynamic type `nil` whose decoder reads nothing: no later read can stand in
    for the check of an offset."""
    reg = Rg.registry.copy()

    def dec(stream):
        return stream.tell()

    dec.is_dynamic = True

    def enc(v):
        return b""

    enc.is_dynamic = True
    enc.validate_value = lambda v: None
    reg.register("nil", enc, dec, label="nil")
    return M_codec.ABICodec(reg)


NIL_CODE = """from eth_abi.registry import registry
from eth_abi.codec import ABICodec
def dec(stream): return stream.tell()
dec.is_dynamic = True
def enc(v): return b""
enc.is_dynamic = True
reg = registry.copy(); reg.register("nil", enc, dec)
print(ABICodec(reg).decode(%r, bytes.fromhex(%r)))
"""


def law_c07_nil(r):
    N = ("b", "nil", None)
    U = ("b", "uint", 8)

    def mk(d):
        x = r.random()
        if d == 0 or x < 0.35:
            return N if r.random() < 0.75 else U
        if x < 0.65:
            return ("a", mk(d - 1), r.choice((None, 1, 2, 3)))
        return ("t", tuple(mk(d - 1) for _ in range(r.randint(1, 3))))

    ts = tuple(mk(r.randint(0, 3)) for _ in range(r.randint(1, 3)))
    ss = ts_of(ts)
    c = nil_codec()
    nw = r.randint(1, 8)
    for _ in range(12):
        d = b"".join((r.choice((0, 1, 1, 2, 32, 64, 32 * nw, 32 * nw - 1, 32 * nw + 1, 32 * r.randint(0, nw), r.randint(0, 32 * nw))) % 2**256).to_bytes(32, "big") for _ in range(nw))
        st, got = outcome(c.decode, ss, d)
        rs, want = ref_dec(ts, d)
        code = NIL_CODE % (ss, d.hex())
        if st == "exc" and not isinstance(got, DECERR):
            raise Fail("bad offsets give a decoding error", f"decode({ss}, 0x{d.hex()}) raises {got!r}", code)
        if st == "ok" and rs == "derr" and str(want) == "pointer":
            raise Fail("offsets behind the head and inside the data", f"decode({ss}, 0x{d.hex()}) = {short(got)}", code)
        if rs == "ok" and st == "exc" and isinstance(got, X.InvalidPointer):
            raise Fail("good offsets are not rejected", f"decode({ss}, 0x{d.hex()}) raises {got!r}", code)
        if rs == "ok" and st == "ok" and got != want:
            raise Fail("the offset is followed to its place", f"decode({ss}, 0x{d.hex()}) = {short(got)}, expected {short(want)}", code)


def law_c07_long(r):
    """Long arrays and tuples: the head ends behind the last of many slots."""
    N = ("b", "nil", None)
    big = [n for n in G.sizes() if 1 <= n <= (5000 if r.random() < 0.05 else 600)]
    n = r.choice(big)
    kind = r.choice(("dyn", "sized", "tuple"))
    t = ("a", N, None) if kind == "dyn" else ("a", N, n) if kind == "sized" else ("t", (N,) * n)
    if r.random() < 0.4:
        t = ("a", t, 1)
    ts = (t,)
    ss = ts_of(ts)
    c = nil_codec()
    words = [32] * (2 if t[0] == "a" and t[2] == 1 and t[1] is not N and kind != "x" and t[1][0] in "at" else 1)
    if kind == "dyn":
        words.append(n)
    first = len(words)
    total = 32 * (first + n + 1)
    words += [32 * n] * n + [0]
    own = 32 * n + 32
    for _ in range(8):
        w = list(words)
        for _ in range(r.choice((1, 1, 2))):
            w[first + r.choice((0, n - 1, r.randrange(n)))] = r.choice((32 * n - 32, 32 * n - 1, 32 * n, 32 * n + 31, own, own - 1, 32 * r.randint(0, n), 32 * r.choice(big), 0, total, 32 * n - 64)) % 2**256
        d = b"".join(x.to_bytes(32, "big") for x in w)
        st, got = outcome(c.decode, ss, d)
        rs, want = ref_dec(ts, d)
        code = NIL_CODE % (ss, d.hex())
        if st == "exc" and not isinstance(got, DECERR):
            raise Fail("bad offsets give a decoding error", f"decode({short(ss)}, 0x{d.hex()[:3000]}) raises {got!r}", code)
        if st == "ok" and rs == "derr" and str(want) == "pointer":
            raise Fail("offsets behind the head and inside the data", f"decode({short(ss)}, 0x{d.hex()[:3000]}) = {short(got)}", code)
        if rs == "ok" and st == "exc":
            raise Fail("good offsets are not rejected", f"decode({short(ss)}, 0x{d.hex()[:3000]}) raises {got!r}", code)
        if rs == "ok" and st == "ok" and got != want:
            raise Fail("the offset is followed to its place", f"decode({short(ss)}, 0x{d.hex()[:3000]}) = {short(got)}, expected {short(want)}", code)


def law_c08(r):
    ts, d = payload(r)
    ss = ts_of(ts)
    for strict in (True, False):
        st, got = outcome(DECODE, ss, d, strict=strict)
        kw = "" if strict else ", strict=False"
        if st == "exc":
            if not isinstance(got, DECERR):
                raise Fail("value or decoding error", f"decode({ss}, 0x{d.hex()[:3000]}{kw}) raises {type(got).__name__}: {got}"[:5000], dec_code(ss, d, kw))
            continue
        if type(got) is not tuple or len(got) != len(ts):
            raise Fail("one value per type", f"decode({ss}, 0x{d.hex()[:3000]}{kw}) = {short(got)}", dec_code(ss, d, kw))
        rs, want = ref_dec(ts, d, not strict)
        if rs == "derr" and str(want) in ("out of data", "absurd array length"):
            raise Fail("missing data is never made up", f"decode({ss}, 0x{d.hex()[:3000]}{kw}) = {short(got)}", dec_code(ss, d, kw))
        if rs == "uerr":
            raise Fail("text must be UTF-8", f"decode({ss}, 0x{d.hex()[:3000]}{kw}) = {short(got)}", dec_code(ss, d, kw))


def law_c08_trunc(r):
    """Every truncation of a valid payload, and absurd words at every place."""
    ts, vs = case(r)
    ss = ts_of(ts)
    d = R.headtail(ts, vs)
    for _ in range(8):
        b = d[: r.randint(0, len(d))] if r.random() < 0.5 else d
        if len(b) >= 32 and b is d:
            i = 32 * r.randrange(len(b) // 32)
            b = b[:i] + R.word(r.choice(G.INTERESTING + [2**63 - 1 - len(d), 2**63 - 33, 2**63 - 32, 10**30])) + b[i + 32:]
        st, got = outcome(DECODE, ss, b, strict=r.random() < 0.7)
        if st == "exc" and not isinstance(got, DECERR):
            raise Fail("value or decoding error", f"decode({ss}, 0x{b.hex()[:3000]}) raises {type(got).__name__}: {got}", dec_code(ss, b))
        if st == "ok":
            rs, want = ref_dec(ts, b, True)
            if rs == "derr" and str(want) in ("out of data", "absurd array length"):
                raise Fail("missing data is never made up", f"decode({ss}, 0x{b.hex()[:3000]}) = {short(got)}", dec_code(ss, b))


class CountStream(D.ContextFramesBytesIO):
    reads = 0

    def read(self, *a):
        type(self).reads += 1
        return super().read(*a)


class CountCodec(M_codec.ABICodec):
    stream_class = CountStream


COUNT = CountCodec(Rg.registry)


def law_c08_work(r):
    """Elements read for a flat array are bounded by the data."""
    it = r.choice((("b", "uint", 256), ("b", "bytes", None), ("b", "string", None), ("b", "bool", None), ("t", (("b", "uint", 8), ("b", "int", 8))), ("a", ("b", "uint", 8), 2)))
    n = r.choice((0, 1, 2, 5, 31, r.randint(0, 40)))
    vs = [G.gen_val(r, it, [10]) for _ in range(n)]
    d = bytearray(R.headtail((("a", it, None),), (vs,)))
    d[32:64] = R.word(r.choice((n, n + 1, 2**20, 2**64, 2**256 - 1, 10**6)))
    CountStream.reads = 0
    st, got = outcome(COUNT.decode, [R.show(("a", it, None))], bytes(d))
    bound = 40 + 12 * (len(d) // 32 + 1)
    if CountStream.reads > bound:
        raise Fail("work bounded by the data", f"decode of {R.show(it)}[] from {len(d)} bytes makes {CountStream.reads} reads", dec_code([R.show(("a", it, None))], d))


def law_c09(r):
    ts, d = payload(r)
    if r.random() < 0.5:
        # short of padding at the end
        ts, vs = case(r)
        d = R.headtail(ts, vs)
        d = d[: len(d) - r.randint(0, 33)] if r.random() < 0.5 else G.corrupt(r, d)
    ss = ts_of(ts)
    s1, a = outcome(DECODE, ss, d)
    s2, b = outcome(DECODE, ss, d, strict=False)
    kw = ", strict=False"
    if s1 == "ok" and (s2 == "exc" or not R.same(a, b)):
        raise Fail("strict success carries over", f"decode({ss}, 0x{d.hex()[:3000]}): strict {short(a)}, non-strict {short(b)}", dec_code(ss, d, kw))
    rs, want = ref_dec(ts, d, True)
    if s2 == "ok":
        if rs in ("derr", "uerr"):
            raise Fail("only padding is relaxed", f"decode({ss}, 0x{d.hex()[:3000]}, strict=False) = {short(b)}, but: {want}", dec_code(ss, d, kw))
        if rs == "ok" and not R.same(want, b):
            raise Fail("only padding is relaxed", f"decode({ss}, 0x{d.hex()[:3000]}, strict=False) = {short(b)}, expected {short(want)}", dec_code(ss, d, kw))
    if s1 == "ok":
        rs, want = ref_dec(ts, d)
        if rs == "derr" and str(want) in ("padding", "out of data"):
            raise Fail("strict mode is strict", f"decode({ss}, 0x{d.hex()[:3000]}) = {short(a)}, but: {want}", dec_code(ss, d))


def law_c09_top(r):
    """At the top level, missing and non-zero padding of bytes and text is accepted."""
    t = ("b", r.choice(("bytes", "string")), None)
    v = G.gen_val(r, t)
    d = bytearray(R.headtail((t,), (v,)))
    n = len(v if t[1] == "bytes" else v.encode())
    pad = -n % 32
    if not pad:
        return
    if r.random() < 0.5:
        d = d[: len(d) - r.randint(1, pad)]
    else:
        d[-r.randint(1, pad)] = r.randint(1, 255)
    ss = [R.show(t)]
    s1, a = outcome(DECODE, ss, bytes(d))
    s2, b = outcome(DECODE, ss, bytes(d), strict=False)
    if s1 == "ok":
        raise Fail("strict mode is strict", f"decode({ss}, 0x{d.hex()[:3000]}) = {short(a)}", dec_code(ss, d))
    if s2 == "exc" or b != (R.canon(t, v),):
        raise Fail("padding is relaxed", f"decode({ss}, 0x{d.hex()[:3000]}, strict=False) = {short(b)}, expected {short(v)}", dec_code(ss, d, ", strict=False"))


def law_c09_text(r):
    """Text that is not utf-8 is refused in either mode."""
    body = bytearray(("aé€😀xyz" * r.randint(1, 6))[: r.randint(1, 12)].encode())
    k = r.randint(0, len(body))
    body[k:k] = r.choice((b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xf8", b"\xe2\x82"))
    try:
        body.decode()
        return
    except UnicodeDecodeError:
        pass
    n = len(body)
    tail = R.word(n) + bytes(body) + bytes(-n % 32)
    ss, d = r.choice(((["string"], R.word(32) + tail), (["(string)"], R.word(32) * 2 + tail), (["string[]"], R.word(32) + R.word(1) + R.word(32) + tail)))
    for kw in ({}, {"strict": False}):
        st, got = outcome(DECODE, ss, d, **kw)
        if st == "ok":
            raise Fail("only padding is relaxed", f"decode({ss}, 0x{d.hex()}, {kw}) = {short(got)}, but the text is not utf-8", dec_code(ss, d, ", strict=False" if kw else ""))


class LooseBytes(D.ByteStringDecoder):
    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def law_c09_leak(r):
    """Histories of strict and non-strict calls, also with custom decoders."""
    reg = Rg.registry.copy()
    inst = D.ByteStringDecoder()
    reg.register("blob", E.ByteStringEncoder, r.choice((inst, inst, LooseBytes)), label="blob")
    if r.random() < 0.3:
        reg.unregister_decoder("bytes")
        reg.register_decoder(Rg.BaseEquals("bytes", with_sub=False), inst, label="bytes")
    codec = M_codec.ABICodec(reg)
    shapes = ["bytes", "string", "blob", "blob[]", "(blob,uint8)", "bytes[2]", "(string,bytes)[]", "blob[2]"]
    log = []
    bad = R.word(32) + R.word(1) + b"a" + b"\0" * 30 + b"\1"
    bads = {
        "bytes": bad, "string": bad, "blob": bad,
        "blob[]": R.word(32) + R.word(1) + bad, "(blob,uint8)": R.word(32) + R.word(64) + R.word(3) + bad[32:],
        "bytes[2]": R.word(32) + R.word(64) + R.word(64) + bad[32:], "(string,bytes)[]": R.word(32) + R.word(1) + R.word(32) + R.word(64) + R.word(64) + bad[32:],
        "blob[2]": R.word(32) + R.word(64) + R.word(64) + bad[32:],
    }
    first = {}
    for _ in range(r.randint(2, 9)):
        s = r.choice(shapes)
        strict = r.random() < 0.5
        via = r.random()
        if via < 0.2:
            outcome(reg.get_decoder, s, strict=strict) if r.random() < 0.5 else outcome(reg.get_decoder, s, strict)
            log.append(("get_decoder", s, strict))
            continue
        if via < 0.3:
            outcome(DECODE, [s], bads[s], strict=strict)
            log.append(("default decode", s, strict))
            continue
        log.append(("decode", s, strict))
        st, got = outcome(codec.decode, [s], bads[s], strict=strict)
        res = (st, type(got).__name__ if st == "exc" else got)
        if strict and st == "ok":
            raise Fail("strict mode does not leak", f"history {log}: strict decode of {s} with non-zero padding gives {short(got)}", f"# history: {log}")
        if not strict and s in ("bytes", "string", "blob") and st == "exc":
            raise Fail("strict mode does not leak", f"history {log}: non-strict decode of {s} with non-zero padding gives {got!r}", f"# history: {log}")
        st, got = outcome(D.ByteStringDecoder(), D.ContextFramesBytesIO(bad[32:]))
        if st == "ok":
            raise Fail("strict mode does not leak", f"history {log}: a new ByteStringDecoder() is not strict", f"# history: {log}")
        if first.setdefault((s, strict), res) != res:
            raise Fail("calls do not influence each other", f"history {log}: {res} instead of {first[s, strict]}", f"# history: {log}")


def law_c10(r):
    ts, vs = case(r)
    ss = ts_of(ts)
    d = G.scatter(r, ts, vs) if r.random() < 0.7 else R.headtail(ts, vs)
    rs, want = ref_dec(ts, d)
    st, got = outcome(DECODE, ss, d)
    if rs != "ok":
        return
    if st == "exc" or not R.same(want, got):
        raise Fail("values are read in their own frame", f"decode({ss}, 0x{d.hex()[:3000]}) = {short(got)}, expected {short(want)}", dec_code(ss, d))
    d2 = d + r.randbytes(r.choice((1, 31, 32, 33, 64, 100)))
    st, got2 = outcome(DECODE, ss, d2)
    if st == "exc" or not R.same(got, got2):
        raise Fail("trailing bytes do not matter", f"decode({ss}, 0x{d2.hex()[:3000]}) = {short(got2)}, without the trailing bytes {short(got)}", dec_code(ss, d2))
    st, got3 = outcome(DECODE, ss, bytearray(d))
    if st == "exc" or not R.same(got, got3):
        raise Fail("bytes and bytearray", f"decode({ss}, bytearray) = {short(got3)}, bytes gives {short(got)}", dec_code(ss, d).replace("bytes.fromhex", "bytearray.fromhex"))


def law_c10_any(r):
    ts, d = payload(r)
    ss = ts_of(ts)
    s1, a = outcome(DECODE, ss, d)
    if s1 == "ok":
        rs, want = ref_dec(ts, d)
        if rs == "ok" and not R.same(want, a):
            raise Fail("values are read in their own frame", f"decode({ss}, 0x{d.hex()[:3000]}) = {short(a)}, expected {short(want)}", dec_code(ss, d))
        d2 = d + r.choice((r.randbytes(r.choice((1, 31, 32, 33, 64, 100))), b"\1" * 32, bytes(64)))
        s2, b = outcome(DECODE, ss, d2)
        if s2 == "exc" or not R.same(a, b):
            raise Fail("trailing bytes do not matter", f"decode({ss}, 0x{d2.hex()[:3000]}) = {short(b)}, without the trailing bytes {short(a)}", dec_code(ss, d2))
    s3, c = outcome(DECODE, ss, bytearray(d))
    if s1 != s3 or s1 == "ok" and not R.same(a, c) or s1 == "exc" and type(a) is not type(c):
        raise Fail("bytes and bytearray", f"decode({ss}, bytearray.fromhex({d.hex()[:3000]!r})) = {short(c)}, bytes gives {short(a)}", dec_code(ss, d))


# ---------------------------------------------------------------- C11
def gen_syntax(r, depth=3):
    """Any type of the grammar (not only valid ones)."""
    k = r.random()
    if depth == 0 or k < 0.5:
        base = r.choice(("uint", "int", "fixed", "ufixed", "function", "byte", "bytes", "string", "bool", "address", "a", "Zx", "x", "uintx", "INT", "inty", "bint", "bytefunction", "ints", "ufixedfixed", "hash", "real", "ureal"))
        if r.random() < 0.15:
            base = "".join(r.choice("abcxXyZintueby") for _ in range(r.randint(1, 8)))
        sub = r.choice((None, None, None, r.randint(1, 300), r.choice((8, 16, 256, 10**30)), (r.randint(1, 300), r.randint(1, 99)), (128, 18), (1, 1)))
        if base[-1:] == "x" and False:
            sub = None
        return ("b", base, sub)
    if k < 0.75:
        return ("a", gen_syntax(r, depth - 1), r.choice((None, None, 1, 2, 10, r.randint(1, 1000))))
    return ("t", tuple(gen_syntax(r, depth - 1) for _ in range(r.randint(1, 4))))


def shape(abi):
    """The structure of a parsed type of the real code."""
    if isinstance(abi, Gr.TupleType):
        t = ("t", tuple(shape(c) for c in abi.components))
    else:
        t = ("b", abi.base, abi.sub)
    for dim in abi.arrlist or ():
        t = ("a", t, dim[0] if len(dim) else None)
    return t


def law_c11(r):
    if r.random() < 0.6:
        s = R.show(gen_syntax(r, r.choice((0, 1, 2, 3, 4))))
    else:
        s = type_strings(r)
    check_c11(s)


def check_c11(s):
    try:
        want = R.parse(s)
    except R.Bad:
        want = None
    st, abi = outcome(Gr.parse, s)
    code = f"from eth_abi import grammar\nt = grammar.parse({s!r})\nprint(t, t.to_type_str(), grammar.normalize({s!r}))"
    if want is None:
        if st == "ok":
            raise Fail("grammar", f"parse({s!r}) accepts what is not a type string: {short(shape(abi))}", code)
        if not isinstance(abi, (X.ParseError, ValueError)):
            raise Fail("grammar", f"parse({s!r}) raises {abi!r}", code)
        return
    if st == "exc":
        raise Fail("grammar", f"parse({s!r}) refuses a type string: {abi!r}", code)
    if shape(abi) != want:
        raise Fail("grammar", f"parse({s!r}) = {shape(abi)}, expected {want}", code)
    if abi.to_type_str() != s:
        raise Fail("printing", f"parse({s!r}).to_type_str() = {abi.to_type_str()!r}", code)
    if Gr.parse(s) != abi:
        raise Fail("equality", f"parse({s!r}) is not equal to itself", code)
    t, a = want, abi
    while t[0] == "a":
        if not a.is_array:
            raise Fail("item type", f"parse({s!r}): {a.to_type_str()} is not an array", code)
        a = a.item_type
        t = t[1]
        if shape(a) != t or a.to_type_str() != R.show(t):
            raise Fail("item type", f"item type of a dimension of {s!r} is {a.to_type_str()}, expected {R.show(t)}", code)
    if a.is_array or outcome(lambda: a.item_type)[0] == "ok":
        raise Fail("item type", f"{a.to_type_str()} has an item type", code)
    n = Gr.normalize(s)
    if n != R.show(R.canon_type(want)):
        raise Fail("normalisation", f"normalize({s!r}) = {n!r}, expected {R.show(R.canon_type(want))!r}", code)
    if Gr.normalize(n) != n:
        raise Fail("normalisation is idempotent", f"normalize({n!r}) = {Gr.normalize(n)!r}", code)


def law_c11_alias(r):
    t = G.gen_type(r, r.choice((0, 1, 2)))

    def plant(t):
        if t[0] == "b":
            return r.choice(list(ALIAS_OF)) if r.random() < 0.6 else t
        if t[0] == "a":
            return ("a", plant(t[1]), t[2])
        return ("t", tuple(plant(c) for c in t[1]))

    t = plant(t)

    def alias(t):
        if t[0] == "b":
            return ALIAS_OF.get(t) or R.show(t)
        if t[0] == "a":
            return alias(t[1]) + ("[]" if t[2] is None else f"[{t[2]}]")
        return "(" + ",".join(alias(c) for c in t[1]) + ")"

    a, c = alias(t), R.show(t)
    v = G.gen_val(r, t, [60]) if r.random() < 0.7 else G.gen_bad(r, t)
    for name, fn in (("encode", ENCODE), ("encode_packed", PACK)):
        s1, x = outcome(fn, [a], [v])
        s2, y = outcome(fn, [c], [v])
        if s1 != s2 or (s1 == "ok" and x != y) or (s1 == "exc" and type(x) is not type(y)):
            raise Fail("alias", f"{name}: {a!r} gives {short(x)}, {c!r} gives {short(y)} for {short(v)}", call_code("eth_abi.encode", [a], [v]))
    if R.dom(t, v):
        d = G.corrupt(r, R.headtail((t,), (v,))) if r.random() < 0.5 else R.headtail((t,), (v,))
        s1, x = outcome(DECODE, [a], d)
        s2, y = outcome(DECODE, [c], d)
        if s1 != s2 or (s1 == "ok" and not R.same(x, y)) or (s1 == "exc" and type(x) is not type(y)):
            raise Fail("alias", f"decode: {a!r} gives {short(x)}, {c!r} gives {short(y)} for 0x{d.hex()[:2000]}", dec_code([a], d))


# ---------------------------------------------------------------- C12
def is_dyn_attr(c):
    return bool(getattr(c, "is_dynamic", False))


def check_c12(s):
    want = R.supported(s)
    code = f"from eth_abi.registry import registry, registry_packed\nprint(registry.has_encoder({s!r}), registry.get_encoder({s!r}), registry.get_decoder({s!r}))"
    for reg, kind in ((Rg.registry, "enc"), (Rg.registry, "dec"), (Rg.registry_packed, "enc")):
        st, c = outcome(reg.get_encoder if kind == "enc" else reg.get_decoder, s)
        if (st == "ok") != want:
            raise Fail("supported types", f"{'valid' if want else 'invalid'} type {s!r} {'is refused' if want else 'is supported'} ({kind}): {c!r}", code)
        if isinstance(c, X.MultipleEntriesFound):
            raise Fail("supported types", f"{s!r}: {c!r}", code)
    h, p = Rg.registry.has_encoder(s), Rg.registry_packed.has_encoder(s)
    if h is not want or p is not want:
        raise Fail("supported types", f"has_encoder({s!r}) = {h} / {p}, valid: {want}", code)
    if not want:
        return
    t = R.canon_type(R.parse(s))
    e, d = Rg.registry.get_encoder(s), Rg.registry.get_decoder(s)
    a = Gr.parse(Gr.normalize(s))
    if is_dyn_attr(e) is not R.dyn(t) or is_dyn_attr(d) is not R.dyn(t) or a.is_dynamic is not R.dyn(t):
        raise Fail("dynamic", f"{s!r}: encoder {is_dyn_attr(e)}, decoder {is_dyn_attr(d)}, type {a.is_dynamic}, expected {R.dyn(t)}", code)
    if Gr.parse(s).is_dynamic is not R.dyn(t):
        raise Fail("dynamic", f"parse({s!r}).is_dynamic = {Gr.parse(s).is_dynamic}", code)


def check_width(t):
    """The coders of a basic type have its width: probes at the edges."""
    s = R.show(t)
    base, sub = t[1], t[2]
    probes = []
    if base in ("uint", "int", "fixed", "ufixed"):
        lo, hi = G.ranges(t)
        for n in (lo, hi, lo - 1, hi + 1):
            probes.append(n if base in ("uint", "int") else G.mkdec(n, sub[1]))
        if base in ("fixed", "ufixed"):
            probes += [G.mkdec(1, sub[1]), G.mkdec(1, sub[1] + 1)]
    elif base == "bytes" and sub is not None:
        probes = [bytes(sub), b"\1" * sub, b"\1" * (sub + 1)]
    for v in probes:
        for packed in (False, True):
            check_domain(t, s, v, packed)
        if R.dom(t, v):
            check_roundtrip((t,), [s], (v,))


def law_c12(r):
    s = type_strings(r)
    if safe_type(s):
        check_c12(s)


def law_c12_width(r):
    check_width(leaf_case(r))


def enum_c12(part, parts):
    """All basic type strings with small suffixes."""
    k = 0
    bases = ("uint", "int", "bytes", "string", "bool", "address", "function", "byte", "hash")
    for b in bases:
        for n in [None] + list(range(0, 300)):
            k += 1
            if k % parts == part:
                check_c12(b if n is None else f"{b}{n}")
                yield 1
    for b in ("fixed", "ufixed"):
        for n in range(0, 268):
            for m in range(0, 84) if n % 8 == 0 else (1, 18):
                k += 1
                if k % parts == part:
                    check_c12(f"{b}{n}x{m}")
                    yield 1
    for i, t in enumerate(G._basics()):
        if i % parts == part:
            check_width(t)
            yield 1


# ---------------------------------------------------------------- C13
class Fn:
    """A predicate compared by identity."""

    def __init__(self, name, matches):
        self.name, self.matches = name, matches

    def __call__(self, s):
        return s in self.matches

    def __repr__(self):
        return self.name


class Coder:
    def __init__(self, n):
        self.n = n

    def __call__(self, v):
        return b""

    def __repr__(self):
        return f"coder{self.n}"


QUERIES = ["foo", "bar", "baz", "uint8", "uint", "bytes", "bytes4", "foo[]", "(foo,bar)", "bar[2]", "(foo)[]", "foo8"]


def lookup_key(l):
    if isinstance(l, str):
        return ("eq", l)
    if isinstance(l, Rg.Equals):
        return ("eq", l.value)
    if isinstance(l, Rg.BaseEquals):
        return ("be", l.base, l.with_sub)
    return ("id", id(l))


def ref_match(l, q):
    if isinstance(l, str):
        return l == q
    if isinstance(l, Rg.Equals):
        return l.value == q
    if isinstance(l, Rg.BaseEquals):
        try:
            t = R.parse(q)
        except R.Bad:
            return False
        if t[0] != "b" or t[1] != l.base:
            return False
        return l.with_sub is None or l.with_sub == (t[2] is not None)
    if l is Rg.has_arrlist:
        try:
            return R.parse(q)[0] == "a"
        except R.Bad:
            return False
    if l is Rg.is_base_tuple:
        try:
            return R.parse(q)[0] == "t"
        except R.Bad:
            return False
    return l(q)


class RefMap:
    """What a predicate mapping has to do."""

    def __init__(self, live=()):
        self.live = list(live)  # (key, lookup, value, label)

    def add(self, l, v, label):
        if isinstance(l, str):
            label = l
        k = lookup_key(l)
        if any(e[0] == k for e in self.live) or label is not None and any(e[3] == label for e in self.live):
            return ValueError
        self.live.append((k, l, v, label))
        return None

    def remove(self, l):
        if isinstance(l, str):
            hit = [e for e in self.live if e[3] == l]
        else:
            k = lookup_key(l)
            hit = [e for e in self.live if e[0] == k]
        if not hit:
            return KeyError
        self.live.remove(hit[0])
        return None

    def find(self, q):
        hit = [e[2] for e in self.live if ref_match(e[1], q)]
        if len(hit) == 1:
            return hit[0]
        return X.NoEntriesFound if not hit else X.MultipleEntriesFound

    def copy(self):
        return RefMap(self.live)


def gen_lookup(r, fns):
    k = r.random()
    if k < 0.3:
        return r.choice(QUERIES)
    if k < 0.45:
        return Rg.Equals(r.choice(QUERIES))
    if k < 0.7:
        return Rg.BaseEquals(r.choice(("foo", "bar", "uint", "bytes")), with_sub=r.choice((None, True, False)))
    if k < 0.78:
        return r.choice((Rg.has_arrlist, Rg.is_base_tuple))
    return r.choice(fns)


def check_find(get, ref, q, log):
    want = ref.find(q)
    st, got = outcome(get, q)
    if isinstance(want, type):
        if st == "ok" or not isinstance(got, want):
            raise Fail("lookup", f"history {log}: lookup of {q!r} gives {short(got)}, expected {want.__name__}", f"# {log}")
    elif st == "exc" or got is not want:
        raise Fail("lookup", f"history {log}: lookup of {q!r} gives {short(got)}, expected {want!r}", f"# {log}")


def law_c13(r):
    """Histories of one registry (encoder side, decoder side, or a bare mapping)."""
    kind = r.choice(("encoder", "decoder", "mapping"))
    fns = [Fn(f"p{i}", set(r.sample(QUERIES, r.randint(0, 4)))) for i in range(3)]
    labels = [None, None, "L1", "L2", "foo", "bar", ""]
    ref = RefMap()
    log = []
    if kind == "mapping":
        m = Rg.PredicateMapping("m")
        add = lambda l, v, lab: m.add(Rg.Equals(l) if isinstance(l, str) else l, v, l if isinstance(l, str) else lab)  # noqa: E731
        rem, get = m.remove, m.find
    else:
        m = Rg.ABIRegistry()
        add = lambda l, v, lab: getattr(m, "register_" + kind)(l, v, label=lab)  # noqa: E731
        rem, get = getattr(m, "unregister_" + kind), getattr(m, "get_" + kind)
    fill = r.choice([x for x in G.sizes() if x <= 300]) if r.random() < 0.01 else 0
    for i in range(fill):
        add(f"fill{i}", f"coder of fill{i}", None)
        ref.add(f"fill{i}", f"coder of fill{i}", None)
    if fill:
        log.append(f"{fill} registrations of other types")
    for i in range(r.randint(3, 25)):
        k = r.random()
        if k < 0.5:
            l, lab, v = gen_lookup(r, fns), r.choice(labels), Coder(i)
            log.append(f"register({l!r}, {v!r}, label={lab!r})")
            want = ref.add(l, v, lab)
            st, got = outcome(add, l, v, lab)
        elif k < 0.8:
            l = r.choice(["L1", "L2", "foo", "bar", "nope", ""]) if r.random() < 0.5 else gen_lookup(r, fns)
            if r.random() < 0.4 and ref.live:
                e = r.choice(ref.live)
                l = e[3] if e[3] is not None and r.random() < 0.5 else e[1] if not isinstance(e[1], str) else Rg.Equals(e[1])
                if isinstance(l, Rg.BaseEquals):
                    l = Rg.BaseEquals(l.base, with_sub=l.with_sub)
            log.append(f"unregister({l!r})")
            want = ref.remove(l)
            st, got = outcome(rem, l)
        else:
            q = r.choice(QUERIES)
            log.append(f"get({q!r})")
            check_find(get, ref, q, log)
            if kind == "encoder":
                w = ref.find(q)
                s2, h = outcome(m.has_encoder, q)
                if w is X.MultipleEntriesFound:
                    if s2 == "ok" or not isinstance(h, X.MultipleEntriesFound):
                        raise Fail("has_encoder", f"history {log}: has_encoder({q!r}) = {h!r}", f"# {log}")
                elif s2 == "exc" or h is not (w is not X.NoEntriesFound):
                    raise Fail("has_encoder", f"history {log}: has_encoder({q!r}) = {h!r}", f"# {log}")
            continue
        if want is None and st == "exc" or want is not None and (st == "ok" or not isinstance(got, want)):
            raise Fail("register / unregister", f"history {log}: the last step gives {short(got)}, expected {want}", f"# {log}")
    for q in QUERIES:
        check_find(get, ref, q, log + [f"get({q!r})"])
    # everything live can be removed, and registered again
    for e in list(ref.live):
        l = e[3] if e[3] is not None and r.random() < 0.5 else (Rg.Equals(e[1]) if isinstance(e[1], str) else e[1])
        st, got = outcome(rem, l)
        log.append(f"unregister({l!r})")
        if st == "exc":
            raise Fail("register / unregister", f"history {log}: the last step gives {got!r}", f"# {log}")
        ref.remove(l)
        st, got = outcome(add, e[1], e[2], e[3])
        log.append(f"register({e[1]!r}, {e[2]!r}, label={e[3]!r})")
        ref.add(e[1], e[2], e[3])
        if st == "exc":
            raise Fail("register / unregister", f"history {log}: the last step gives {got!r}", f"# {log}")
    q = r.choice(QUERIES)
    check_find(get, ref, q, log + [f"get({q!r})"])


def law_c13_pair(r):
    """register / unregister act on both sides."""
    m = Rg.ABIRegistry()
    refe, refd = RefMap(), RefMap()
    fns = [Fn(f"p{i}", set(r.sample(QUERIES, r.randint(0, 4)))) for i in range(2)]
    log = []
    for i in range(r.randint(2, 10)):
        k = r.random()
        l, lab = gen_lookup(r, fns), r.choice((None, "L1", "L2"))
        if k < 0.6:
            a, b = Coder(2 * i), Coder(2 * i + 1)
            log.append(f"register({l!r}, {a!r}, {b!r}, label={lab!r})")
            w = refe.add(l, a, lab)
            if w is None:
                w = refd.add(l, b, lab)
            st, got = outcome(m.register, l, a, b, label=lab)
        else:
            l = r.choice(("L1", "L2", l))
            log.append(f"unregister({l!r})")
            w = refe.remove(l)
            if w is None:
                w = refd.remove(l)
            st, got = outcome(m.unregister, l)
        if (w is None) != (st == "ok") or w is not None and not isinstance(got, w):
            raise Fail("register / unregister", f"history {log}: the last step gives {short(got)}, expected {w}", f"# {log}")
    for q in QUERIES:
        check_find(m.get_encoder, refe, q, log + [f"get_encoder({q!r})"])
        check_find(m.get_decoder, refd, q, log + [f"get_decoder({q!r})"])


class UserLookup(Rg.Predicate):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, s):
        return s == self.a

    def __str__(self):
        return f"{self.a} {self.b}"


class UserLookup2(UserLookup):
    __slots__ = ("c",)

    def __init__(self, a, b):
        self.a, self.b, self.c = a, b, None


def law_c13_pred(r):
    """The predicates themselves."""
    s = type_strings(r) if r.random() < 0.7 else r.choice(QUERIES)
    l = r.choice((Rg.has_arrlist, Rg.is_base_tuple, Rg.Equals(r.choice(QUERIES)), Rg.BaseEquals(r.choice(("uint", "int", "bytes", "foo", "fixed", "string")), with_sub=r.choice((None, True, False)))))
    st, got = outcome(l, s)
    want = ref_match(l, s)
    if st == "exc" or bool(got) is not bool(want):
        raise Fail("predicate", f"{l!r}({s!r}) = {short(got)}, expected {want}", f"# {l!r}({s!r})")
    a = Rg.BaseEquals("a", with_sub=None)
    for x, y, eq in ((Rg.Equals("a"), Rg.Equals("a"), True), (Rg.Equals("a"), Rg.Equals("b"), False), (a, Rg.BaseEquals("a"), True), (a, Rg.BaseEquals("a", with_sub=False), False), (Rg.BaseEquals("a", with_sub=True), Rg.BaseEquals("a", with_sub=False), False), (Rg.Equals("a"), a, False)):
        if (x == y) is not eq or (x in {y: 1}) is not eq:
            raise Fail("predicate equality", f"{x!r} == {y!r} is {x == y}", "")
    vs = [r.choice(("a", "b", "c", None, 1, True, "")) for _ in range(4)]
    for A, B in ((UserLookup, UserLookup), (UserLookup, UserLookup2)):
        x, y = A(*vs[:2]), B(*(vs[2:] if r.random() < 0.5 else r.choice((vs[1::-1], vs[:2]))))
        eq = A is B and (x.a, x.b) == (y.a, y.b)
        if (x == y) is not eq or (x in {y: 1}) is not eq:
            raise Fail("predicate equality", f"{A.__name__}{x.a, x.b} == {B.__name__}{y.a, y.b} is {x == y}, in a dict {x in {y: 1}}", "# two subclasses of eth_abi.registry.Predicate with slots a, b")


# ---------------------------------------------------------------- C14
class TagEnc:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, v):
        return self.tag.to_bytes(32, "big")

    def __repr__(self):
        return f"TagEnc({self.tag})"


class TagDec:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, stream):
        stream.read(32)
        return self.tag

    def __repr__(self):
        return f"TagDec({self.tag})"


BASES = ["foo", "bar", "uint", "bytes4", "string"]


def law_c14_empty(r):
    """Histories over a registry that starts out empty, and its copies."""
    regs, log = [(Rg.ABIRegistry(), {})], []
    for n in range(r.randint(2, 14)):
        i = r.randrange(len(regs))
        reg, st = regs[i]
        k, b, side = r.random(), r.choice(("foo", "bar")), r.choice(("encoder", "decoder"))
        if k < 0.25:
            regs.append((reg.copy() if r.random() < 0.7 else copy.copy(reg), dict(st)))
            log.append(f"r{len(regs) - 1} = r{i}.copy()")
            continue
        if k < 0.6:
            c = TagEnc(n) if side == "encoder" else TagDec(n)
            log.append(f"r{i}.register_{side}({b!r}, {c!r})")
            s, e = outcome(getattr(reg, "register_" + side), b, c)
            good = (s == "exc") == ((side, b) in st)
            st.setdefault((side, b), c)
        elif k < 0.75:
            log.append(f"r{i}.unregister_{side}({b!r})")
            s, e = outcome(getattr(reg, "unregister_" + side), b)
            good = (s == "ok") == ((side, b) in st)
            st.pop((side, b), None)
        else:
            log.append(f"r{i}.get_{side}({b!r})")
            s, e = outcome(getattr(reg, "get_" + side), b)
            want = st.get((side, b))
            good = (s == "exc") if want is None else (s == "ok" and (e is want or type(e) is type(want) and e.tag == want.tag))
        if not good:
            raise Fail("copies are independent", f"r0 = ABIRegistry(); {log}: the last step gives {e!r}", f"# r0 = ABIRegistry(); {log}")


def law_c14_overlap(r):
    """A registration that overlaps one whose coders have been looked up already makes the lookup
    ambiguous at once, whatever its label, and its removal makes the lookup succeed again."""
    reg = Rg.registry.copy()
    cases = {"uint256": Rg.BaseEquals("uint", with_sub=True), "bytes4": Rg.Equals("bytes4"), "string": Rg.Equals("string"), "(uint256,bool)": Rg.Equals("(uint256,bool)"), "bool[2]": lambda s: s == "bool[2]"}
    t = r.choice(list(cases))
    l = cases[t]
    outer = r.choice((t, t + "[]", f"({t},address)", f"({t}[2],bool)[]"))
    side = r.choice(("encoder", "decoder"))
    get = getattr(reg, "get_" + side)
    label = r.choice((None, "", "", "zz", t + "!", "other label", "0"))
    c = TagEnc(1) if side == "encoder" else TagDec(1)
    for q in (t, outer):
        get(q)
    steps = f"get_{side}({outer!r}); register_{side}({l!r}, {c!r}, label={label!r})"
    if r.random() < 0.5:
        getattr(reg, "register_" + side)(l, c, label=label)
    else:
        getattr(reg, "register_" + side)(l, c, label)
    for q in (t, outer):
        st, e = outcome(get, q)
        if st == "ok" or not isinstance(e, X.MultipleEntriesFound):
            raise Fail("lookups reflect the live registrations", f"{steps}; get_{side}({q!r}) gives {e!r} instead of MultipleEntriesFound", f"# {steps}; get_{side}({q!r})")
    by = label if label is not None and r.random() < 0.5 else l
    st, e = outcome(getattr(reg, "unregister_" + side), by)
    st, e = outcome(get, outer) if st == "ok" else (st, e)
    if st != "ok":
        raise Fail("lookups reflect the live registrations", f"{steps}; unregister_{side}({by!r}); get_{side}({outer!r}): {e!r}", f"# {steps}; unregister_{side}({by!r}); get_{side}({outer!r})")


def law_c14(r):
    """Random histories over a registry and its copies: each lookup is answered as by a fresh
    registry with the live registrations."""
    regs = []
    root = Rg.registry.copy()
    live0 = {"foo": None, "bar": None}
    regs.append((root, {}))
    log = []
    cnt = 0
    codecs = [M_codec.ABICodec(root)]
    defaults_before = (ENCODE(["uint8", "string"], [7, "x"]), DECODE(["uint8"], R.word(7)))
    builtin = {"uint": Rg.BaseEquals("uint"), "string": Rg.BaseEquals("string"), "bytes4": None}
    for _ in range(r.randint(4, 22)):
        i = r.randrange(len(regs))
        reg, st = regs[i]
        k = r.random()
        if k < 0.3:
            b = r.choice(("foo", "bar"))
            side = r.choice(("encoder", "decoder"))
            cnt += 1
            c = TagEnc(cnt) if side == "encoder" else TagDec(cnt)
            log.append(f"r{i}.register_{side}({b!r}, {c!r})")
            s, e = outcome(getattr(reg, "register_" + side), b, c)
            if (side, b) in st:
                if s == "ok":
                    raise Fail("stale", f"{log}: registering twice succeeds", f"# {log}")
            else:
                if s == "exc":
                    raise Fail("copies are independent", f"{log}: {e!r}", f"# {log}")
                st[side, b] = cnt
        elif k < 0.5:
            b = r.choice(("foo", "bar"))
            side = r.choice(("encoder", "decoder"))
            by = b if r.random() < 0.5 else Rg.Equals(b)
            log.append(f"r{i}.unregister_{side}({by!r})")
            s, e = outcome(getattr(reg, "unregister_" + side), by)
            if ((side, b) in st) != (s == "ok"):
                raise Fail("copies are independent", f"{log}: {e!r}", f"# {log}")
            st.pop((side, b), None)
        elif k < 0.6:
            how = r.random()
            cpy = reg.copy() if how < 0.6 else copy.copy(reg) if how < 0.8 else copy.deepcopy(reg)
            regs.append((cpy, dict(st)))
            codecs.append(M_codec.ABICodec(cpy))
            log.append(f"r{len(regs) - 1} = r{i}.copy()")
        elif k < 0.66:
            # replace a built-in type
            if ("encoder", "uint") not in st:
                cnt += 1
                log.append(f"r{i}: uint encoder replaced by TagEnc({cnt})")
                reg.unregister_encoder("uint")
                reg.register_encoder(Rg.BaseEquals("uint"), TagEnc(cnt), label="uint")
                st["encoder", "uint"] = cnt
            else:
                log.append(f"r{i}: uint encoder restored")
                reg.unregister_encoder("uint")
                reg.register_encoder(Rg.BaseEquals("uint"), E.UnsignedIntegerEncoder, label="uint")
                del st["encoder", "uint"]
        else:
            i = r.randrange(len(regs))
            reg, st = regs[i]
            b = r.choice(("foo", "bar", "uint8"))
            shape = r.choice(("{}", "{}[2]", "({},{})", "{}[]", "({})[1]"))
            s = shape.format(b, b)
            key = "uint" if b == "uint8" else b
            if r.random() < 0.6 or b == "uint8":
                log.append(f"r{i}.encode({s})")
                tag = st.get(("encoder", key), 9 if b == "uint8" else None)
                arg = {"{}": 9, "{}[2]": (9, 9), "({},{})": (9, 9), "{}[]": (9,), "({})[1]": ((9,),)}[shape]
                o, e = outcome(codecs[i].encode, [s], [arg])
                he = outcome(reg.has_encoder, s)
                ie = outcome(codecs[i].is_encodable, s, arg)
                if he != ("ok", tag is not None) or ie != ("ok", tag is not None):
                    raise Fail("caches are never stale", f"{log}: has_encoder {he}, is_encodable {ie}, live registration: {tag}", f"# {log}")
                if tag is None:
                    if o == "ok" or not isinstance(e, X.NoEntriesFound):
                        raise Fail("caches are never stale", f"{log}: {short(e)}, no registration is live", f"# {log}")
                else:
                    w = tag.to_bytes(32, "big")
                    want = {"{}": w, "{}[2]": w * 2, "({},{})": w * 2, "{}[]": R.word(32) + R.word(1) + w, "({})[1]": w}[shape]
                    if o == "exc" or e != want:
                        raise Fail("caches are never stale", f"{log}: {short(e)}, live registration: {tag}", f"# {log}")
            else:
                log.append(f"r{i}.decode({s})")
                tag = st.get(("decoder", key))
                data = {"{}": R.word(5), "{}[2]": R.word(5) * 2, "({},{})": R.word(5) * 2, "{}[]": R.word(32) + R.word(1) + R.word(5), "({})[1]": R.word(5)}[shape]
                strict = r.random() < 0.7
                o, e = outcome(codecs[i].decode, [s], data, strict=strict)
                if tag is None:
                    if o == "ok" or not isinstance(e, X.NoEntriesFound):
                        raise Fail("caches are never stale", f"{log}: {short(e)}, no registration is live", f"# {log}")
                else:
                    want = {"{}": tag, "{}[2]": (tag, tag), "({},{})": (tag, tag), "{}[]": (tag,), "({})[1]": ((tag,),)}[shape]
                    if o == "exc" or e != (want,):
                        raise Fail("caches are never stale", f"{log}: {short(e)}, live registration: {tag}", f"# {log}")
    if defaults_before != (ENCODE(["uint8", "string"], [7, "x"]), DECODE(["uint8"], R.word(7))):
        raise Fail("copies are independent", f"{log}: the default registry changed", f"# {log}")
    if Rg.registry.has_encoder("foo") or Rg.registry.has_encoder("bar"):
        raise Fail("copies are independent", f"{log}: the default registry changed", f"# {log}")


# ---------------------------------------------------------------- C15
ROUND = [decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_05UP]


def gen_context(r):
    prec = r.choice((1, 2, 5, 9, 28, 50, 77, 78, 79, 100, 300, 999, 5000, r.randint(1, 200)))
    emax = r.choice((0, 1, 10, 80, 999999, decimal.MAX_EMAX))
    emin = -r.choice((0, 1, 10, 80, 999999, -decimal.MIN_EMIN))
    traps = r.choice(([], [decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow], [decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Underflow, decimal.Clamped], [decimal.FloatOperation], list(decimal.getcontext().traps)))
    return decimal.Context(prec=prec, rounding=r.choice(ROUND), Emin=emin, Emax=emax, capitals=r.choice((0, 1)), clamp=r.choice((0, 1)), traps=traps)


def ctx_state(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, {k: v for k, v in c.traps.items()})


def norm_out(o):
    st, v = o
    if st == "exc":
        return "exc", type(v).__name__
    if isinstance(v, tuple):
        return "ok", tuple(x.as_tuple() if isinstance(x, Decimal) else x for x in v)
    if isinstance(v, Decimal):
        return "ok", v.as_tuple()
    return "ok", v


def law_c15(r):
    t = ("b", r.choice(("fixed", "ufixed")), (8 * r.choice((1, 2, 16, 31, 32, r.randint(1, 32))), r.choice((1, 2, 18, 30, 79, 80, r.randint(1, 80)))))
    s = R.show(t)
    v = G.near(r, t) if r.random() < 0.4 else G.gen_val(r, t)
    if isinstance(v, Decimal) and v.is_finite() and v and (abs(v.adjusted()) > 2000):
        v = G.gen_val(r, t)
    dd = R.word(r.choice((G.gen_int(r, *G.ranges(t)), G.gen_int(r, 0, 2**256 - 1))))
    n = t[2][1]
    x = Decimal(G.gen_int(r, -(2**255), 2**256))
    ops = {
        f"encode([{s!r}], [{short(v)}])": lambda: ENCODE([s], [v]),
        f"is_encodable({s!r}, {short(v)})": lambda: eth_abi.is_encodable(s, v),
        f"encode_packed([{s!r}], [{short(v)}])": lambda: PACK([s], [v]),
        f"encode([{s}[2]], [[{short(v)}]*2])": lambda: ENCODE([s + "[2]"], [[v, v]]),
        f"decode([{s!r}], {dd.hex()})": lambda: DECODE([s], dd),
        f"scale_places({n})({x})": lambda: Nu.scale_places(n)(x),
    }
    amb = gen_context(r)
    saved = decimal.getcontext()
    for name, f in ops.items():
        with decimal.localcontext(decimal.Context(prec=28)):
            want = norm_out(outcome(f))
        c = amb.copy()
        decimal.setcontext(c)
        try:
            before = ctx_state(decimal.getcontext())
            got = norm_out(outcome(f))
            after = ctx_state(decimal.getcontext())
            same_obj = decimal.getcontext() is c
        finally:
            decimal.setcontext(saved)
        if got != want:
            raise Fail("independent of the decimal context", f"{name} under {amb!r}: {short(got)}, under the default context {short(want)}", f"import eth_abi, decimal\nfrom decimal import *\nfrom eth_abi.utils.numeric import scale_places\nfrom eth_abi import *\ndecimal.setcontext({amb!r})\nprint({name})")
        if before != after or not same_obj:
            raise Fail("context left as it was", f"{name} under {amb!r} changes the context to {after}", "")
    st, got = outcome(DECODE, [s], dd)
    if st == "ok":
        w = int.from_bytes(dd, "big")
        if t[1] == "fixed" and w >= 2**255:
            w -= 2**256
        if R.exact(got[0]) != Fraction(w, 10**n):
            raise Fail("decoded value is exact", f"decode([{s!r}], {dd.hex()}) = {got}", dec_code([s], dd))
    st, got = outcome(Nu.scale_places(n), x)
    if st == "exc" or R.exact(got) != R.exact(x) / 10**n:
        raise Fail("scaling is exact", f"scale_places({n})({x}) = {got}", "")
    if R.dom(t, v):
        st, got = outcome(ENCODE, [s], [v])
        if st == "exc" or got != R.enc(t, v):
            raise Fail("encoding is exact", f"encode([{s!r}], [{short(v)}]) = {short(got)}", call_code("eth_abi.encode", [s], [v]))


# ---------------------------------------------------------------- C16
def draws(strategy, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = []

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
    @given(strategy)
    def run(x):
        out.append(x)

    run()
    return out


def shape_ok(t, v):
    if t[0] == "t":
        return isinstance(v, tuple) and len(v) == len(t[1]) and all(shape_ok(c, x) for c, x in zip(t[1], v))
    if t[0] == "a":
        return isinstance(v, (list, tuple)) and (t[2] is None or len(v) == t[2]) and all(shape_ok(t[1], x) for x in v)
    return True


def law_c16(r):
    from eth_abi.tools import get_abi_strategy

    t = G.gen_type(r, r.choice((0, 0, 1, 2)))
    s = R.show(t)
    if R.hsize(t) > 32 * 40:
        return
    code = f"from eth_abi.tools import get_abi_strategy\nprint(get_abi_strategy({s!r}))"
    st, strat = outcome(get_abi_strategy, s)
    if st == "exc":
        raise Fail("strategy exists", f"get_abi_strategy({s!r}) raises {strat!r}", code)
    for v in draws(strat, 12, r.getrandbits(32)):
        if not R.dom(t, v) or not shape_ok(t, v) or not eth_abi.is_encodable(s, v):
            raise Fail("generated values are encodable", f"get_abi_strategy({s!r}) generates {short(v)}", code)


def law_c16_range(r):
    from eth_abi.tools import get_abi_strategy

    t = leaf_case(r)
    while t[1] not in ("uint", "int", "fixed", "ufixed"):
        t = leaf_case(r)
    check_c16_range(t, r.getrandbits(30))


def check_c16_range(t, seed):
    from eth_abi.tools import get_abi_strategy

    s = R.show(t)
    code = f"from eth_abi.tools import get_abi_strategy\nprint(get_abi_strategy({s!r}))"
    st, strat = outcome(get_abi_strategy, s)
    if st == "exc":
        raise Fail("strategy exists", f"get_abi_strategy({s!r}) raises {strat!r}", code)
    b = strategy_bounds(strat)
    lo, hi = G.ranges(t)
    k = 0 if t[1] in ("uint", "int") else t[2][1]
    want = (Fraction(lo, 10**k), Fraction(hi, 10**k))
    if b is not None:
        if b != want:
            raise Fail("whole range", f"get_abi_strategy({s!r}) has the bounds {b}, the type has {want}", code)
        return
    seen = set()
    for j in range(6):
        seen |= {R.exact(x) for x in draws(strat, 400, seed + j)}
        if not all(want[0] <= x <= want[1] for x in seen):
            raise Fail("whole range", f"get_abi_strategy({s!r}) leaves the range of the type: {min(seen)} .. {max(seen)}", code)
        if want[0] in seen and want[1] in seen:
            return
    raise Fail("whole range", f"get_abi_strategy({s!r}) does not reach the bounds of the type: {min(seen)} .. {max(seen)} in {len(seen)} draws", code)


def strategy_bounds(strat):
    """(lo, hi) of the values of a numeric strategy, read from the strategy object (trusted
    meaning of the hypothesis combinators), or None."""
    try:
        from hypothesis.strategies._internal.lazy import LazyStrategy, unwrap_strategies
        from hypothesis.strategies._internal.numbers import IntegersStrategy
        from hypothesis.strategies._internal.strategies import MappedStrategy, OneOfStrategy

        fs = []
        s = strat
        for _ in range(12):
            s = unwrap_strategies(s)
            if type(s) is MappedStrategy:
                fs.append(s.pack)
                s = s.mapped_strategy
                continue
            if type(s) is OneOfStrategy:
                live = [x for x in s.original_strategies if not x.is_empty]
                if len(live) == 1:
                    s = live[0]
                    continue
            break
        if type(s) is not IntegersStrategy:
            return None
        lo, hi = s.start, s.end
        for f in reversed(fs):
            lo, hi = f(lo), f(hi)
        return R.exact(lo), R.exact(hi)
    except Exception:
        return None


def enum_c16(part, parts):
    from eth_abi.tools import get_abi_strategy

    for i, t in enumerate(G._basics()):
        if i % parts != part:
            continue
        if t[1] in ("uint", "int", "fixed", "ufixed"):
            check_c16_range(t, 5)
            yield 1
        elif t[1] == "bytes" and t[2] is not None:
            for v in draws(get_abi_strategy(R.show(t)), 30, 7):
                if not isinstance(v, bytes) or len(v) != t[2]:
                    raise Fail("declared shape", f"get_abi_strategy({R.show(t)!r}) generates {v!r}", "")
            yield 1


# ---------------------------------------------------------------- C17, custom coders
class World:
    """A registry with custom types."""

    def __init__(self):
        self.reg = Rg.registry.copy()
        self.types = {}

    def desc(self):
        return {k: (v.kind, v.width if not v.dyn else "dynamic") for k, v in self.types.items()}


class CustomErr(Exception):
    pass


class Spec:
    """One custom type: how it is encoded."""

    def __init__(self, name, dyn, width, kind):
        self.name, self.dyn, self.width, self.kind = name, dyn, width, kind

    def ok(self, v):
        return type(v) is int and 0 <= v < 200

    def bytes(self, v):
        if not self.dyn:
            return bytes([v]) * self.width
        return R.word(v) + bytes([v]) * (self.width + 3 * (v % 5))

    def read(self, stream):
        if not self.dyn:
            b = stream.read(self.width)
            if len(b) != self.width:
                raise X.InsufficientDataBytes("custom")
            v = b[0] if b else 0
            if v == 0xEE:
                raise CustomErr("custom decoder")
            return ("v", self.name, v)
        b = stream.read(32)
        if len(b) != 32:
            raise X.InsufficientDataBytes("custom")
        v = int.from_bytes(b, "big")
        k = self.width + 3 * (v % 5)
        if stream.read(k) != bytes([v % 256]) * k:
            raise X.InsufficientDataBytes("custom")
        return ("v", self.name, v)

    def refuse(self, v):
        if not self.ok(v):
            raise X.EncodingTypeError(f"{self.name} refuses")


def make_enc(sp):
    if sp.kind == "callable":
        def enc(v):
            sp.refuse(v)
            return sp.bytes(v)

        if sp.dyn:
            enc.is_dynamic = True
        return enc

    class Enc(E.BaseEncoder):
        is_dynamic = sp.dyn

        def validate_value(self, v):
            sp.refuse(v)

        def encode(self, v):
            sp.refuse(v)
            return sp.bytes(v)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return Enc if sp.kind == "class" else Enc()


def make_dec(sp):
    if sp.kind == "callable":
        def dec(stream):
            return sp.read(stream)

        if sp.dyn:
            dec.is_dynamic = True
        return dec

    class Dec(D.BaseDecoder):
        is_dynamic = sp.dyn

        def decode(self, stream):
            return sp.read(stream)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return Dec if sp.kind == "class" else Dec()


def custom_world(r, nonzero=False):
    w = World()
    for name in r.sample(("foo", "bar", "baz", "qux"), r.randint(1, 3)):
        dyn = r.random() < 0.4
        width = r.choice((1, 2, 20, 31, 32, 33, 45, 64, 96, 100)) if not dyn else r.choice((0, 1, 29, 32, 40))
        sp = Spec(name, dyn, width, r.choice(("callable", "class", "instance")))
        w.reg.register(r.choice((name, Rg.BaseEquals(name))) if r.random() < 0.7 else Rg.Equals(name), make_enc(sp), make_dec(sp), label=name)
        w.types[name] = sp
    w.codec = M_codec.ABICodec(w.reg)
    return w


def custom_type(r, w, depth):
    k = r.random()
    if depth == 0 or k < 0.2:
        return ("b", r.choice(list(w.types)), None) if r.random() < 0.75 else G.gen_basic(r)
    if k < 0.45:
        return ("a", custom_type(r, w, depth - 1), None)
    if k < 0.65:
        return ("a", custom_type(r, w, depth - 1), r.randint(1, 3))
    return ("t", tuple(custom_type(r, w, depth - 1) for _ in range(r.randint(1, 4))))


def custom_val(r, w, t):
    if t[0] == "t":
        return tuple(custom_val(r, w, c) for c in t[1])
    if t[0] == "a":
        return [custom_val(r, w, t[1]) for _ in range(r.randint(0, 3) if t[2] is None else t[2])]
    if t[1] in w.types:
        return r.randint(0, 199)
    return G.gen_val(r, t, [20])


def custom_bad(r, w, t):
    if r.random() < 0.2:
        return G.junk(r)
    if t[0] in ("t", "a"):
        v = list(custom_val(r, w, t))
        if v and r.random() < 0.8:
            i = r.randrange(len(v))
            v[i] = custom_bad(r, w, t[1][i] if t[0] == "t" else t[1])
            return v
        return v + [1]
    if t[1] in w.types:
        return r.choice((-1, 200, None, "a", 3.0, [1]))
    return G.gen_bad(r, t)


def cdyn(w, t):
    if t[0] == "b":
        return w.types[t[1]].dyn if t[1] in w.types else R.dyn(t)
    if t[0] == "a":
        return t[2] is None or cdyn(w, t[1])
    return any(cdyn(w, c) for c in t[1])


def cenc(w, t, v):
    if t[0] == "b":
        return w.types[t[1]].bytes(v) if t[1] in w.types else R.enc(t, v)
    if t[0] == "t":
        return cht(w, t[1], v)
    b = cht(w, (t[1],) * len(v), v)
    return b if t[2] is not None else R.word(len(v)) + b


def cht(w, ts, vs):
    es = [cenc(w, t, v) for t, v in zip(ts, vs)]
    ds = [cdyn(w, t) for t in ts]
    pos = sum(32 if d else len(e) for d, e in zip(ds, es))
    h, tl = [], []
    for d, e in zip(ds, es):
        if d:
            h.append(R.word(pos))
            tl.append(e)
            pos += len(e)
        else:
            h.append(e)
    return b"".join(h) + b"".join(tl)


def ccanon(w, t, v):
    if t[0] == "b":
        return ("v", t[1], v) if t[1] in w.types else R.canon(t, v)
    if t[0] == "t":
        return tuple(ccanon(w, c, x) for c, x in zip(t[1], v))
    return tuple(ccanon(w, t[1], x) for x in v)


def law_c17(r):
    w = custom_world(r)
    for _ in range(3):
        ts = tuple(custom_type(r, w, r.choice((0, 1, 2, 2, 3))) for _ in range(r.randint(1, 4)))
        vs = tuple(custom_val(r, w, t) for t in ts)
        ss = ts_of(ts)
        want = cht(w, ts, vs)
        st, b = outcome(w.codec.encode, ss, vs)
        where = f"with custom types {w.desc()}"
        if st == "exc" or b != want:
            raise Fail("layout", f"encode({ss}, {short(vs)}) {where} = {short(b)}, expected {want.hex()[:3000]}", f"# {where}")
        st, got = outcome(w.codec.decode, ss, want)
        wv = tuple(ccanon(w, t, v) for t, v in zip(ts, vs))
        if st == "exc" or not R.same(wv, got):
            raise Fail("decoding", f"decode({ss}, {want.hex()[:3000]}) {where} = {short(got)}, expected {short(wv)}", f"# {where}")


def law_c17_err(r):
    """Errors of a custom coder propagate."""
    w = custom_world(r)

    class Boom(Exception):
        pass

    boom = Boom("custom")
    at = r.randint(0, 3)
    seen = [0]

    def enc(v):
        seen[0] += 1
        if v == "boom":
            raise boom
        return bytes(32)

    def dec(stream):
        b = stream.read(32)
        if b[:1] == b"\xee":
            raise boom
        return b

    w.reg.register("boom", enc, dec)
    s = r.choice(("boom", "boom[]", "boom[2]", "(boom,uint8)", "(uint8,boom)", "(uint8,(boom,string))[]"))
    v = {"boom": "boom", "boom[]": [1, "boom"], "boom[2]": [1, "boom"], "(boom,uint8)": ("boom", 1), "(uint8,boom)": (1, "boom"), "(uint8,(boom,string))[]": [(1, ("boom", "a"))]}[s]
    st, e = outcome(w.codec.encode, [s], [v])
    if st == "ok" or e is not boom:
        raise Fail("errors propagate", f"encode([{s!r}], [{v!r}]): the custom encoder's exception becomes {e!r}", "")
    x = b"\xee" + bytes(31)
    d = {"boom": x, "boom[]": R.word(32) + R.word(2) + bytes(32) + x, "boom[2]": bytes(32) + x, "(boom,uint8)": x + R.word(1), "(uint8,boom)": R.word(1) + x,
         "(uint8,(boom,string))[]": R.word(32) + R.word(1) + R.word(32) + R.word(1) + R.word(64) + x + R.word(64) + R.word(0)}[s]
    st, e = outcome(w.codec.decode, [s], d)
    if st == "ok" or e is not boom:
        raise Fail("errors propagate", f"decode([{s!r}], {d.hex()}): the custom decoder's exception becomes {e!r}", "")


# ---------------------------------------------------------------- table
LAWS = {
    "C01": [(law_c01, 3), (law_c01_leaf, 2)],
    "C02": [(law_c02, 3), (law_c02_leaf, 2)],
    "C03": [(law_c03, 3), (law_c03_leaf, 2)],
    "C04": [(law_c04, 3), (law_c04_leaf, 3), (law_c04_count, 1)],
    "C05": [(law_c05, 3), (law_c05_leaf, 2), (law_c05_types, 3), (law_c05_custom, 2)],
    "C06": [(law_c06, 3), (law_c06_static, 2), (law_c06_words, 2)],
    "C07": [(law_c07, 2), (law_c07_ptr, 3), (law_c07_nil, 3), (law_c07_long, 1), (law_c07_lenient, 1)],
    "C08": [(law_c08, 3), (law_c08_trunc, 2), (law_c08_work, 1)],
    "C09": [(law_c09, 3), (law_c09_text, 1), (law_c09_top, 1), (law_c09_leak, 2)],
    "C10": [(law_c10, 2), (law_c10_any, 2)],
    "C11": [(law_c11, 3), (law_c11_alias, 1)],
    "C12": [(law_c12, 3), (law_c12_width, 1)],
    "C13": [(law_c13, 4), (law_c13_pair, 1), (law_c13_pred, 1)],
    "C14": [(law_c14, 4), (law_c14_empty, 1), (law_c14_overlap, 1)],
    "C15": [(law_c15, 1)],
    "C16": [(law_c16, 1)],
    "C17": [(law_c17, 3), (law_c17_err, 1)],
}
ENUMS = {"C12": enum_c12, "C16": enum_c16}


class Hang(Exception):
    pass


def _alarm(sig, frm):
    raise Hang()


def search(prop, seed, budget, worker=0, workers=1, progress=None, step_limit=60):
    """Runs the laws of a property for `budget` seconds.  Returns (failure | None, stats)."""
    import warnings

    warnings.simplefilter("ignore")
    r = G.rng(seed, f"{prop}/{worker}")
    t0 = time.time()
    stats = {"evaluations": 0, "laws": {}, "enumerated": 0, "samples": []}
    signal.signal(signal.SIGALRM, _alarm)

    def guarded(f, *a):
        signal.setitimer(signal.ITIMER_REAL, step_limit)
        try:
            return f(*a)
        except Fail:
            raise
        except Hang:
            raise Fail("terminates", f"{f.__name__} did not come back within {step_limit} s", traceback.format_exc()[-3000:])
        except MemoryError:
            raise Fail("terminates", f"{f.__name__}: MemoryError", traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    try:
        if prop in ENUMS:
            it = ENUMS[prop](worker, workers)
            while True:
                st = guarded(next, it, None)
                if st is None:
                    break
                stats["enumerated"] += st
                if time.time() - t0 > budget * 4 + 60:
                    stats["enumeration_cut"] = True
                    break
        laws = [f for f, n in LAWS[prop] for _ in range(n)]
        t0 = time.time()
        while time.time() - t0 < budget:
            law = r.choice(laws)
            try:
                guarded(law, r)
            except Fail:
                raise
            except Exception as e:  # the law itself, not the code under test, is at odds
                errs = stats.setdefault("law_errors", {})
                errs[law.__name__] = errs.get(law.__name__, 0) + 1
                stats.setdefault("law_error_samples", [])
                if len(stats["law_error_samples"]) < 3:
                    stats["law_error_samples"].append(traceback.format_exc()[-800:])
                continue
            stats["evaluations"] += 1
            stats["laws"][law.__name__] = stats["laws"].get(law.__name__, 0) + 1
    except Fail as e:
        return {"law": e.law, "desc": e.desc, "code": e.code}, stats
    return None, stats


if __name__ == "__main__":
    import json

    prop, seed, budget, worker, workers = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    f, st = search(prop, seed, budget, worker, workers)
    print(json.dumps({"fail": f, "stats": st}))
