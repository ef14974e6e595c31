"""Models of the Python builtins and C library objects the verified code uses, and the assumed
contracts on the dependencies (see TRUSTED)."""
import ast
import builtins
import codecs
import copy as _copy
import decimal
import contextlib
import functools
import io
import itertools
import operator
import re
import types

from . import core
from .core import (
    A, Big, Blob, ExcVal, Lit, NotAligned, OpaqueText, Poison, PyExc, Rep, SBool, SBytes, SDec, SInt, SOpaque, SSIZE_MAX, Sym,
    Unsupported, W, drop_take, eq_formula, is_num, mkbool, mkbytes, mkint, norm, pieces_of, rlen, term, to_int, tsimp, z3, zint,
)
from .interp import (
    BoundMethod, BuiltinMethod, Closure, FrameObj, GenExp, GenObj, ITERS, Lazy, MapSeg, Model, SDict, SList, SObj, SRange, SeqConcat, SeqSlice, SeqV, SuperObj, SymSeq, seq_cut, seq_map,
    same_val, seq_concat, seq_get, seq_len,
)

import eth_utils  # noqa: E402
import eth_utils.toolz  # noqa: E402

curry_types = (eth_utils.toolz.curry,)

TRUSTED = [
    "CPython semantics of the modelled builtins (int.to_bytes/from_bytes/bit_length, bytes slicing/rjust/ljust/join/==, io.BytesIO read/seek/tell, zip/map/sum/any/all/accumulate, dict)",
    "eth_utils address helpers: is_address(v) iff v is 40 hex digits (optional 0x) text or 20 bytes; to_canonical_address gives their 20 bytes; to_normalized_address gives 0x + 40 lower-case digits, injective",
    "CPython utf-8 codec: strict encode fails exactly on text with surrogates, decode inverts encode",
    "decimal module: operations in a known context are correctly rounded to its precision, comparisons, int() and Decimal(int) are exact and context independent",
]

V = z3.DeclareSort("Val")


class SText(Sym):
    """Text identified by a term of sort Val."""

    pytype_ = str

    def __init__(self, t):
        self.t = t

    def valid(self):
        return z3.Function("utf8ok", V, z3.BoolSort())(self.t)

    def blob(self, ctx):
        n = z3.Function("utf8len", V, z3.IntSort())(self.t)
        ctx.fact(("utf8", n.get_id()), z3.And(n >= 0, n <= SSIZE_MAX // 2))
        return Blob("utf8", (self.t,), n, info=("utf8", self.t))

    def hexaddr(self):
        return z3.Function("hexaddr", V, z3.BoolSort())(self.t)

    def addrval(self, ctx):
        v = z3.Function("addrval", V, z3.IntSort())(self.t)
        ctx.fact(("addrval", v.get_id()), z3.And(v >= 0, v < 2**160))
        return v


class NormAddr(Sym):
    """'0x' + 40 lower case hex digits of an integer below 2**160."""

    pytype_ = str

    def __init__(self, v):
        self.v = v


class AbsVal(Sym):
    """An arbitrary Python value handed to / returned by an abstract component."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"AbsVal({self.t})"

    def sym_isinstance(self, I, T):
        raise Unsupported("type test on an abstract value")


class MemView(Sym):
    pytype_ = memoryview

    def __init__(self, p):
        self.p = p

    def sym_getattr(self, I, name):
        if name == "nbytes":
            return mkint(rlen(self.p))
        if name == "release":
            return Model(lambda I, a, k: None)
        raise Unsupported(f"memoryview.{name}")


class DecCtx(Sym):
    """The ambient decimal context (unknown)."""

    def sym_getattr(self, I, name):
        if name == "copy":
            return Model(lambda I, a, k: self)
        return z3_opaque(I, name)

    def sym_setattr(self, I, name, v):
        I.ctx.notes.add("ambient-decimal-context-modified")
        I.ctx.ambient_dirty = True


def approx_bool(I, name):
    I.ctx.approx = True
    return I.ctx.fresh_bool(name)


def z3_opaque(I, name):
    return mkint(I.ctx.fresh_int(f"ambient_{name}"))


AMBIENT = DecCtx()


class CtxMgr(Sym):
    def __init__(self, enter, exit_):
        self.enter, self.exit_ = enter, exit_


class GenCM(Sym):
    """What a function decorated with contextlib.contextmanager returns."""

    def __init__(self, gen):
        self.gen = gen


def m_gencm(I, args, kwargs):
    f, a, k = args
    return GenCM(lambda I: I.call(f, a, dict(dict_items(I, k))))


def context_manager(I, cm):
    if isinstance(cm, CtxMgr):
        return cm.enter, cm.exit_
    if isinstance(cm, SObj):
        ent = I.find_attr(cm.cls, "__enter__")
        ex = I.find_attr(cm.cls, "__exit__")
        if ent is None or ex is None:
            I.raise_(TypeError, "context manager")
        return (
            lambda: I.call(BoundMethod(ent, cm)),
            lambda e: I.truth(I.call(BoundMethod(ex, cm), (e.cls if e else None, e, None))),
        )
    if isinstance(cm, MemView):
        return (lambda: cm), (lambda e: False)
    raise Unsupported(f"with {cm!r}")


def m_suppress(I, args, kwargs):
    if not all(isinstance(a, type) for a in args):
        raise Unsupported("contextlib.suppress")
    return CtxMgr(lambda: None, lambda e: e is not None and issubclass(e.cls, args))


def m_re(name):
    """re.sub(p, ...) etc.: the method of the compiled pattern."""
    def m(I, args, kwargs):
        p = args[0]
        if not isinstance(p, (str, re.Pattern)) or "flags" in kwargs or len(args) > (3 if name == "sub" else 2):
            raise Unsupported("pattern")
        return call_native(I, getattr(p if isinstance(p, re.Pattern) else re.compile(p), name), tuple(args[1:]), kwargs)

    return m


# ------------------------------------------------------------ decimal
def dec_ctx(I):
    return I.ctx.heap.setdefault(0, {"dec": AMBIENT})["dec"]


def set_dec_ctx(I, c):
    I.ctx.heap.setdefault(0, {"dec": AMBIENT})
    I.ctx.put(0, "dec", c)


def m_localcontext(I, args, kwargs):
    c = args[0] if args else kwargs.pop("ctx", None)
    if c is None:
        c = dec_ctx(I)
    if isinstance(c, decimal.Context):
        c = c.copy()
        for k, v in kwargs.items():
            if isinstance(v, Sym):
                raise Unsupported("symbolic context setting")
            setattr(c, k, v)
    elif kwargs:
        # an unknown context with some known settings
        c = PartCtx(dict(kwargs))
    cell = {}

    def enter():
        cell["old"] = dec_ctx(I)
        set_dec_ctx(I, c)
        return CtxRef(c)

    def exit_(e):
        set_dec_ctx(I, cell["old"])
        return False

    return CtxMgr(enter, exit_)


class PartCtx(Sym):
    """Unknown context with some known settings: treated as unknown."""

    def __init__(self, known):
        self.known = known


class CtxRef(Sym):
    def __init__(self, c):
        self.c = c

    def sym_getattr(self, I, name):
        if isinstance(self.c, decimal.Context):
            v = getattr(self.c, name)
            if name in ("prec", "rounding", "Emin", "Emax", "clamp") or name in CONTEXT_OPS:
                return v
        raise Unsupported(f"context.{name}")

    def sym_setattr(self, I, name, v):
        if isinstance(self.c, decimal.Context) and not isinstance(v, Sym):
            setattr(self.c, name, v)
            return
        if self.c is AMBIENT:
            I.ctx.ambient_dirty = True
            return
        raise Unsupported("context setting")


def m_getcontext(I, args, kwargs):
    c = dec_ctx(I)
    return CtxRef(c) if isinstance(c, decimal.Context) else AMBIENT


def m_setcontext(I, args, kwargs):
    c = args[0]
    if isinstance(c, CtxRef):
        c = c.c
    if dec_ctx(I) is AMBIENT and c is not AMBIENT:
        I.ctx.notes.add("setcontext")
    set_dec_ctx(I, c)


def rat(x):
    """Exact real term of an int / SInt / Decimal / SDec."""
    if isinstance(x, SDec):
        return x.t
    if isinstance(x, decimal.Decimal):
        from fractions import Fraction

        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, (int, SInt, SBool)):
        t = term(x)
        return z3.RealVal(t) if isinstance(t, int) else z3.ToReal(t)
    raise Unsupported(f"number {x!r}")


def trunc_real(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def dec_round(I, x, ic=None):
    """Result of an operation with exact value x in the current context."""
    ctx = I.ctx
    c = dec_ctx(I)
    if not isinstance(c, decimal.Context):
        # unknown context: any result, or a trapped signal
        if c is not AMBIENT:
            ctx.approx = True
        if ctx.decide(ctx.fresh_bool("signal")):
            I.raise_(decimal.InvalidOperation)
        return SDec(ctx.fresh("ambient_result", z3.RealSort()))
    p = c.prec
    wide = c.Emin <= -100000 and c.Emax >= 100000
    if ic is not None:
        m, s = ic
        # m / 10**s is exact when m has at most p digits
        if s <= 10000 and wide and ctx.prove(z3.And(zint(m) > -(10**p), zint(m) < 10**p)):
            return SDec(x, ic)
    x = z3.simplify(x)
    B = 10 ** (p - 1)
    if not z3.is_rational_value(x) and ctx.prove_quick(z3.And(x == z3.ToReal(z3.ToInt(x)), x < B, x > -B)):
        k = ctx.fresh_int("whole")  # exact
        ctx.assume(z3.ToReal(k) == x)
        return SDec(z3.ToReal(k))
    r = ctx.fresh("rounded", z3.RealSort())
    ctx.approx = True  # r is only bounded: a refutation has to be replayed
    B = 10 ** (p - 1)
    ctx.assume(z3.Implies(z3.And(x == z3.ToReal(z3.ToInt(x)), x < B, x > -B), r == x))
    eps = z3.Q(1, 10 ** (p - 1))
    ctx.assume(z3.And(r - x <= eps * z3.If(x >= 0, x, -x), x - r <= eps * z3.If(x >= 0, x, -x)))
    if c.Emin <= -(10**15):
        ctx.assume(z3.And((x == 0) == (r == 0), (x > 0) == (r > 0)))
    else:
        ctx.assume(z3.And(z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0)))
    if not wide or c.Emax < 10**15:
        if ctx.decide(ctx.fresh_bool("overflow")):
            ctx.assume(z3.Or(x > 10**300, x < -(10**300)) if c.Emax >= 400 else True)
            I.raise_(decimal.Overflow)
    return SDec(r)


def is_decish(x):
    return isinstance(x, (SDec, decimal.Decimal))


def scaled(a, b, sign):
    """(m, s) with a * b**-sign == m / 10**s when b is a power of ten and a is known to be such a fraction."""
    if isinstance(b, Sym):
        return None
    sg, dg, ex = decimal.Decimal(b).as_tuple()
    if sg or dg[0] != 1 or set(dg[1:]) - {0}:
        return None
    s = (len(dg) - 1 + ex) * sign
    if isinstance(a, SInt):
        ic = (a.t, s)
    elif isinstance(a, SDec) and a.ic:
        ic = (a.ic[0], a.ic[1] + s)
    else:
        return None
    return (zint(ic[0]) * 10 ** -ic[1], 0) if ic[1] < 0 else ic


def dec_binop(I, op, a, b):
    ctx = I.ctx
    c = dec_ctx(I)
    for x in (a, b):
        if isinstance(x, (float, complex)) or not isinstance(x, (int, SInt, SBool, SDec, decimal.Decimal)):
            if isinstance(x, Sym) and not isinstance(x, (SBytes, OpaqueText, SText, SOpaque, SeqV, SList)):
                raise Unsupported("decimal operand")
            I.raise_(TypeError, "unsupported operand type(s)")
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(c, decimal.Context):
            with decimal.localcontext(c):
                try:
                    return PYOPS[op](a, b)
                except decimal.DecimalException as e:
                    I.raise_(type(e), *e.args)
        nonfinite = [x for x in (a, b) if isinstance(x, decimal.Decimal) and not x.is_finite()]
        if nonfinite:
            raise Unsupported("non-finite decimal arithmetic in an unknown context")
        return dec_round(I, z3.RealVal(0))
    for x in (a, b):
        if isinstance(x, decimal.Decimal) and not x.is_finite():
            raise Unsupported("non-finite decimal arithmetic")
    x, y = rat(a), rat(b)
    if op is ast.Add:
        return dec_round(I, x + y)
    if op is ast.Sub:
        return dec_round(I, x - y)
    if op is ast.Mult:
        if isinstance(a, Sym) and isinstance(b, Sym):
            raise Unsupported("product of symbolic decimals")
        f, w = (a, b) if isinstance(a, Sym) else (b, a)
        return dec_round(I, x * y, scaled(f, w, -1))
    if op in (ast.Div, ast.Mod, ast.FloorDiv):
        if isinstance(b, Sym):
            raise Unsupported("division by a symbolic decimal")
        if b == 0:
            raise Unsupported("division by zero")
        q = z3.simplify(x / y)
        if op is ast.Div:
            return dec_round(I, q, scaled(a, b, 1))
        ic = scaled(a, b, 1)
        t = zint(ic[0]) if ic and ic[1] == 0 else trunc_real(q)
        if isinstance(c, decimal.Context):
            if ctx.decide(z3.Or(t >= 10**c.prec, t <= -(10**c.prec))):
                I.raise_(decimal.InvalidOperation)
        if op is ast.FloorDiv:
            return dec_round(I, z3.ToReal(t), (t, 0))
        if ic and ic[1] == 0:
            return dec_round(I, z3.RealVal(0), (0, 0))
        return dec_round(I, x - z3.ToReal(t) * y)
    raise Unsupported(f"decimal {op.__name__}")


# ------------------------------------------------------------ operators
PYOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
    ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
DUNDER = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.BitOr: ("__or__", "__ror__"), ast.BitAnd: ("__and__", "__rand__")}


def is_intish(x):
    return isinstance(x, (SInt, SBool, int))


def iop(I, op, a, b):
    if isinstance(a, SList) and op is ast.Add:
        I.ctx.put(a.oid, "v", seq_concat(I.list_v(a), I.to_tuple(b)))
        return a
    return binop(I, op, a, b)


def masked(p, q):
    """p & q for a constant q: the sum over the runs of ones of q."""
    if q < 0:
        r = masked(p, ~q)
        return None if r is None else p - r
    out, lo = z3.IntVal(0), 0
    for _ in range(8):
        if q >> lo == 0:
            return out
        while not q >> lo & 1:
            lo += 1
        hi = lo
        while q >> hi & 1:
            hi += 1
        out = out + ((p / 2**lo if lo else p) % 2 ** (hi - lo)) * 2**lo
        lo = hi
    return out if q >> lo == 0 else None


def binop(I, op, a, b):
    ctx = I.ctx
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("use of a loop temporary")
    if is_decish(a) or is_decish(b):
        if op is ast.Mod and isinstance(a, str):
            return a % b
        if op is ast.Pow and not isinstance(a, Sym) and not isinstance(b, Sym):
            return dec_binop(I, op, a, b)
        return dec_binop(I, op, a, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return a + b
        if isinstance(a, (list, dict, set)) or isinstance(b, (list, dict, set)):
            if op is ast.Add:
                raise Unsupported("operation on a native container")
        if op is ast.Mod and isinstance(a, str):
            try:
                return a % b
            except (TypeError, ValueError):
                return OpaqueText()
        try:
            if op is ast.Mult and isinstance(a, (bytes, str)) and is_num(b) and b > 10**7:
                raise Unsupported("huge repetition")
            if op in (ast.Pow, ast.LShift) and is_intish(a) and is_intish(b) and abs(b) > 100000 and abs(a) > 1:
                raise Unsupported("huge power")
            return PYOPS[op](a, b)
        except Unsupported:
            raise
        except Exception as e:
            I.raise_(type(e), *e.args)
    if is_intish(a) and is_intish(b):
        x, y = term(a), term(b)
        if op is ast.Add:
            return mkint(x + y)
        if op is ast.Sub:
            return mkint(x - y)
        if op is ast.Mult:
            return mkint(x * y)
        if op in (ast.FloorDiv, ast.Mod):
            if isinstance(y, int):
                if y == 0:
                    I.raise_(ZeroDivisionError)
                if y < 0:
                    raise Unsupported("negative divisor")
            else:
                if ctx.decide(y == 0):
                    I.raise_(ZeroDivisionError)
                if not ctx.prove(y > 0):
                    raise Unsupported("divisor of unknown sign")
            return mkint(zint(x) / y if op is ast.FloorDiv else zint(x) % y)
        if op is ast.Pow:
            if isinstance(x, int) and not isinstance(y, int):
                u = ctx.unique(y)
                if u is not None and u >= 0:
                    return mkint(z3.IntVal(x**u))
            if isinstance(y, int) and 0 <= y <= 4:
                r = z3.IntVal(1)
                for _ in range(y):
                    r = r * x
                return mkint(r)
            raise Unsupported("symbolic power")
        if op is ast.LShift and isinstance(y, int) and y >= 0:
            return mkint(x * 2**y)
        if op is ast.RShift and isinstance(y, int) and y >= 0:
            return mkint(zint(x) / 2**y)
        if op is ast.LShift and isinstance(x, int):
            u = ctx.unique(y)
            if u is not None and u >= 0:
                return x << u
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return mkbool({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](tobool(a), tobool(b)))
            for p, q in ((x, y), (y, x)):
                if not isinstance(q, int):
                    q = ctx.unique(q)
                if isinstance(q, int):
                    m = masked(zint(p), q)
                    if m is not None:
                        return mkint({ast.BitAnd: m, ast.BitOr: zint(p) + q - m, ast.BitXor: zint(p) + q - 2 * m}[op])
        if op is ast.Div:
            raise Unsupported("float division")
        raise Unsupported(f"integer {op.__name__}")
    # bytes
    if op is ast.Add and isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
        t = a.pytype if isinstance(a, SBytes) else type(a)
        return mkbytes(ctx, pieces_of(a) + pieces_of(b), t)
    if op is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (bytes, bytearray)) and is_intish(y):
                if len(x) == 0:
                    return x
                n = term(y)
                if len(x) == 1:
                    if ctx.prove(zint(n) >= 0):
                        pass
                    elif ctx.decide(zint(n) < 0):
                        return type(x)()
                    ctx_alloc(I, n)
                    return mkbytes(ctx, [Rep(x[0], n)], type(x))
                u = ctx.unique(n)
                if u is not None:
                    return x * u
                raise Unsupported("repetition of bytes")
            if isinstance(x, (tuple, SList, str, SeqV)) and is_intish(y):
                u = ctx.unique(term(y))
                if u is None:
                    q = I.as_seq(x)
                    if isinstance(q, tuple) and len(q) == 1 and not isinstance(x, str):
                        n = term(y)
                        if ctx.decide(zint(n) < 0):
                            n = 0
                        return SymSeq(tsimp(n), lambda i: q[0])
                    raise Unsupported("repetition")
                if isinstance(x, str):
                    return x * u
                q = I.as_seq(x)
                r = ()
                for _ in range(max(0, u)):
                    r = seq_concat(r, q)
                return I.new_list(r) if isinstance(x, SList) else r
    if op is ast.Add:
        if isinstance(a, (tuple, SeqV)) and isinstance(b, (tuple, SeqV)):
            return seq_concat(a, b)
        if isinstance(a, SList) and isinstance(b, SList):
            return I.new_list(seq_concat(I.list_v(a), I.list_v(b)))
        ta, tb = core.text_pieces(a), core.text_pieces(b)
        if ta is not None and tb is not None:
            return core.mkstr(ctx, ta + tb)
        if isinstance(a, (OpaqueText, str, SText, NormAddr)) and isinstance(b, (OpaqueText, str, SText, NormAddr)):
            return OpaqueText()
    if op is ast.Mod and isinstance(a, (str, OpaqueText)):
        return OpaqueText()
    if op in DUNDER:
        for x, y, nm in ((a, b, DUNDER[op][0]), (b, a, DUNDER[op][1])):
            if isinstance(x, SObj):
                f = I.find_attr(x.cls, nm)
                if f is not None:
                    return I.call(BoundMethod(f, x), (y,))
    for x in (a, b):
        if isinstance(x, (AbsVal, SObj)) or type(x).__name__.startswith("Abs"):
            raise Unsupported(f"{op.__name__} on {x!r}")
    if isinstance(a, SymSet) or isinstance(b, SymSet):
        return set_binop(I, op, a, b)
    no_such_operation(I, PYOPS.get(op), a, b, op.__name__)


ORDER = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
SAMPLES = {int: 1, bool: True, str: "a", bytes: b"a", bytearray: bytearray(b"a"), tuple: (1,), list: [1], dict: {1: 1}, set: {1}, frozenset: frozenset({1}), type(None): None, decimal.Decimal: decimal.Decimal(1), float: 1.5, None: object()}


def no_such_operation(I, f, a, b, what):
    """TypeError if python has no such operation on operands of these types."""
    ta, tb = I.pytype(a), I.pytype(b)
    if f is None or ta not in SAMPLES or tb not in SAMPLES:
        raise Unsupported(f"{what} of {a!r} and {b!r}")
    try:
        f(SAMPLES[ta], SAMPLES[tb])
    except TypeError:
        I.raise_(TypeError, "unsupported operand type(s)")
    except Exception:
        pass
    raise Unsupported(f"{what} of {a!r} and {b!r}")


def set_binop(I, op, a, b):
    xs, ys = [x.xs if isinstance(x, SymSet) else tuple(x) if isinstance(x, (set, frozenset)) else None for x in (a, b)]
    if xs is None or ys is None or op not in (ast.Sub, ast.BitAnd, ast.BitOr):
        raise Unsupported(f"{op.__name__} of sets")
    if op is ast.Sub:
        return SymSet(tuple(x for x in xs if not I.truth(contains(I, ys, x))), I.pytype(a))
    if op is ast.BitAnd:
        return SymSet(tuple(x for x in xs if I.truth(contains(I, ys, x))), I.pytype(a))
    return SymSet(xs + ys, I.pytype(a))


def ctx_alloc(I, n):
    """Allocating n bytes: python refuses sizes beyond ssize_t."""
    if is_num(n):
        if n > SSIZE_MAX:
            I.raise_(OverflowError)
        return
    if not I.ctx.prove(zint(n) <= SSIZE_MAX):
        if I.ctx.decide(zint(n) > SSIZE_MAX):
            I.raise_(OverflowError)


def tobool(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


def unop(I, op, v):
    if isinstance(v, (SInt, SBool)):
        if op is ast.USub:
            return mkint(-zint(v))
        if op is ast.UAdd:
            return mkint(zint(v))
        if op is ast.Invert:
            return mkint(-zint(v) - 1)
    if isinstance(v, SDec):
        return dec_round(I, -v.t if op is ast.USub else v.t)
    if isinstance(v, decimal.Decimal):
        c = dec_ctx(I)
        if isinstance(c, decimal.Context):
            with decimal.localcontext(c):
                return -v if op is ast.USub else +v
        if v in (0, 1, 10) and v.is_finite():
            pass
        return dec_round(I, z3.RealVal(0))
    if isinstance(v, Sym):
        raise Unsupported(f"unary {op.__name__} on {v!r}")
    return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op](v)


def compare(I, op, a, b):
    ctx = I.ctx
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("use of a loop temporary")
    if op in (ast.Is, ast.IsNot):
        r = identical(I, a, b)
        if isinstance(r, bool):
            return r if op is ast.Is else not r
        return mkbool(r if op is ast.Is else z3.Not(r))
    if op in (ast.In, ast.NotIn):
        r = contains(I, b, a)
        if op is ast.In:
            return r
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    if op is ast.Eq:
        return equal(I, a, b)
    if op is ast.NotEq:
        r = equal(I, a, b)
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    # ordering
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return CMP[op](a, b)
        except Exception as e:
            I.raise_(type(e), *e.args)
    numlike = (SInt, SBool, SDec, int, decimal.Decimal)
    if isinstance(a, numlike) and isinstance(b, numlike):
        for x in (a, b):
            if isinstance(x, decimal.Decimal) and not x.is_finite():
                if x.is_nan():
                    raise Unsupported("order of NaN")
                pos = x > 0
                left = x is a
                lt = (not pos) if left else pos
                return {ast.Lt: lt, ast.LtE: lt, ast.Gt: not lt, ast.GtE: not lt}[op]
        if is_decish(a) or is_decish(b):
            return mkbool(CMP[op](rat(a), rat(b)))
        return mkbool(CMP[op](zint(a), zint(b)))
    if isinstance(a, (SOpaque, SBytes, SText, OpaqueText, SeqV, SList)) or isinstance(b, (SOpaque, SBytes, SText, OpaqueText, SeqV, SList)):
        if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)):
            raise Unsupported("order of bytes")
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            raise Unsupported("order of an unknown object")
        no_such_operation(I, ORDER[op], a, b, "order")
    raise Unsupported(f"comparison of {a!r} and {b!r}")


def identical(I, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SBool) and isinstance(y, bool):
            return x.t if y else z3.Not(x.t)
        if isinstance(x, SBool) and isinstance(y, SBool):
            return x.t == y.t
    if isinstance(a, (SObj, SList, SDict)) or isinstance(b, (SObj, SList, SDict)):
        return type(a) is type(b) and a.oid == b.oid
    if isinstance(a, Sym) or isinstance(b, Sym):
        for x in (a, b):
            h = getattr(x, "sym_is", None)
            if h is not None:
                return h(I, b if x is a else a)
        for x, y in ((a, b), (b, a)):
            if y is None or y is True or y is False or y is NotImplemented or y is Ellipsis or isinstance(y, (type, types.FunctionType, types.ModuleType)):
                if isinstance(x, AbsVal):
                    raise Unsupported("identity of an abstract value")
                return False
        if isinstance(a, AbsVal) and isinstance(b, AbsVal):
            return a.t == b.t
        raise Unsupported(f"identity of {a!r} and {b!r}")
    return a is b


def equal(I, a, b):
    ctx = I.ctx
    if isinstance(a, Sym) or isinstance(b, Sym):
        for x, y in ((a, b), (b, a)):
            h = getattr(x, "sym_eq", None)
            if h is not None:
                return h(I, y)
    numlike = (SInt, SBool, SDec, int, decimal.Decimal)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, numlike) and isinstance(b, numlike):
            for x in (a, b):
                if isinstance(x, decimal.Decimal) and not x.is_finite():
                    return False
            if is_decish(a) or is_decish(b):
                return mkbool(rat(a) == rat(b))
            return mkbool(zint(a) == zint(b))
        B = (SBytes, bytes, bytearray)
        if isinstance(a, B) and isinstance(b, B):
            try:
                f = eq_formula(ctx, pieces_of(a), pieces_of(b))
            except NotAligned as e:
                raise Unsupported(f"bytes equality: {e}")
            return f if isinstance(f, bool) else mkbool(f)
        if isinstance(a, core.SStr) or isinstance(b, core.SStr):
            ta, tb = core.text_pieces(a), core.text_pieces(b)
            if ta is not None and tb is not None:
                try:
                    f = eq_formula(ctx, ta, tb)
                except NotAligned as e:
                    raise Unsupported(f"text equality: {e}")
                return f if isinstance(f, bool) else mkbool(f)
            o = b if isinstance(a, core.SStr) else a
            if not isinstance(o, (OpaqueText, SText)) and I.pytype(o) not in (str, None):
                return False
        if isinstance(a, SText) and isinstance(b, SText):
            return mkbool(a.t == b.t)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SText) and isinstance(y, str) and y == "":
                return mkbool(z3.And(x.valid(), zint(x.blob(ctx).len) == 0))
        if isinstance(a, NormAddr) and isinstance(b, NormAddr):
            return mkbool(zint(a.v) == zint(b.v))
        if isinstance(a, AbsVal) and isinstance(b, AbsVal):
            return mkbool(a.t == b.t)
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj):
                    f = I.find_attr(x.cls, "__eq__")
                    if f is not None and f is not object.__eq__:
                        if not isinstance(f, types.FunctionType):
                            raise Unsupported("__eq__")
                        r = I.call(BoundMethod(f, x), (y,))
                        if r is not NotImplemented:
                            return r
            return isinstance(a, SObj) and isinstance(b, SObj) and a.oid == b.oid
        if isinstance(a, (SList, SDict)) and isinstance(b, (SList, SDict)):
            if type(a) is type(b) and a.oid == b.oid:
                return True
            if isinstance(a, SList) and isinstance(b, SList):
                return seq_equal(I, I.list_v(a), I.list_v(b))
            raise Unsupported("dict equality")
        if isinstance(a, SeqV) or isinstance(b, SeqV):
            if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)):
                return seq_equal(I, a, b)
        if isinstance(a, (SInt, SBool, SDec)) or isinstance(b, (SInt, SBool, SDec)):
            o = b if isinstance(a, (SInt, SBool, SDec)) else a
            if isinstance(o, (str, bytes, tuple, type(None), SBytes, SText, SList, SDict, OpaqueText, type)):
                return False
            raise Unsupported(f"equality with {o!r}")
        if isinstance(a, (BoundMethod, Closure)) or isinstance(b, (BoundMethod, Closure)):
            return same_val(a, b)
        if isinstance(a, B) or isinstance(b, B):
            o = b if isinstance(a, B) else a
            if isinstance(o, (str, int, type(None), tuple, SInt)):
                return False
        if (isinstance(a, OpaqueText) and isinstance(b, (str, OpaqueText, SText))) or (isinstance(b, OpaqueText) and isinstance(a, (str, SText))):
            ctx.approx = True
            return mkbool(ctx.fresh_bool("texteq"))
        ta, tb = I.pytype(a), I.pytype(b)
        if ta is not None and tb is not None and {ta, tb} <= {str, bytes, tuple, list, dict, type(None), int, bool} and ta is not tb:
            return False
        raise Unsupported(f"equality of {a!r} and {b!r}")
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_equal(I, a, b)
    try:
        return a == b
    except Exception as e:
        I.raise_(type(e), *e.args)


def seq_equal(I, a, b):
    ctx = I.ctx
    na, nb = seq_len(a), seq_len(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if na != nb:
            return False
        fs = []
        for x, y in zip(a, b):
            r = equal(I, x, y)
            if r is False:
                return False
            if isinstance(r, SBool):
                fs.append(r.t)
            elif r is not True:
                if not I.truth(r):
                    return False
        return mkbool(z3.And(*fs)) if fs else True
    raise Unsupported("equality of symbolic sequences")


def contains(I, c, x):
    if isinstance(c, SDict):
        r = dict_find(I, c, x)
        return r is not None
    if isinstance(c, (SList, tuple, SeqV)) or (isinstance(c, (list, set, frozenset, dict)) and isinstance(x, Sym)):
        q = I.as_seq(c)
        if not isinstance(q, tuple):
            raise Unsupported("membership in a symbolic sequence")
        for y in q:
            if identical_q(I, x, y) or I.truth(equal(I, x, y)):
                return True
        return False
    h = getattr(c, "sym_contains", None) if isinstance(c, Sym) else None
    if h is not None:
        return h(I, x)
    if isinstance(c, (range, SRange)) and isinstance(x, (SInt, int)) and not isinstance(x, bool):
        if isinstance(c, range) and not isinstance(x, Sym):
            return x in c
        lo, hi, st = (c.start, c.stop, c.step) if isinstance(c, range) else (c.lo, c.hi, 1)
        if st >= 1:
            t = zint(term(x))
            return mkbool(z3.And(t >= zint(lo), t < zint(hi), (t - zint(lo)) % st == 0 if st > 1 else True))
    if isinstance(c, Sym) or isinstance(x, Sym):
        if isinstance(c, OpaqueText) or isinstance(x, OpaqueText):
            return mkbool(approx_bool(I, "in"))
        if isinstance(c, SObj):
            f = I.find_attr(c.cls, "__contains__")
            if f is not None:
                return I.call(BoundMethod(f, c), (x,))
        raise Unsupported(f"{x!r} in {c!r}")
    try:
        return x in c
    except Exception as e:
        I.raise_(type(e), *e.args)


def identical_q(I, x, y):
    return x is y


# ------------------------------------------------------------ dicts
def hash_key(I, k):
    """Python computes hash(k); unhashable keys raise."""
    if isinstance(k, (SList, SDict, list, dict, set)) or (isinstance(k, SBytes) and k.pytype is bytearray):
        I.raise_(TypeError, "unhashable type")
    if isinstance(k, SObj):
        f = I.find_attr(k.cls, "__hash__")
        if f is None:
            I.raise_(TypeError, "unhashable type")


def map_index(I, seg, k):
    """position of key k in a MapSeg (or a slice of one) on this path, or None"""
    lo, hi, base = 0, seg.n, seg
    if isinstance(seg, SeqSlice):
        base, lo, hi = seg.base, seg.lo, seg.hi
    if not isinstance(base, MapSeg):
        raise Unsupported("lookup in a symbolic sequence of entries")
    t = base.keyterm(I, k)
    if t is None:
        return None
    i = base.index(I, t)
    if I.ctx.decide(z3.And(i >= zint(lo), i < zint(hi))):
        return tsimp(i - zint(lo))
    return None


def dict_find(I, d, k):
    hash_key(I, k)
    q = I.list_v(d)
    off = z3.IntVal(0)
    for p in (q.parts if isinstance(q, SeqConcat) else [q]):
        if isinstance(p, tuple):
            for n, (kk, _) in enumerate(p):
                if same_val(kk, k) or I.truth(equal(I, kk, k)):
                    return tsimp(off + n)
            off = off + len(p)
        else:
            n = map_index(I, p, k)
            if n is not None:
                return tsimp(off + zint(n))
            off = off + zint(seq_len(p))
    return None


def dict_get_at(I, d, n):
    return seq_get(I, I.list_v(d), n)[1]


def dict_del_at(I, d, n):
    q = I.list_v(d)
    if isinstance(q, tuple) and isinstance(n, int):
        r = q[:n] + q[n + 1:]
    else:
        r = seq_concat(seq_cut(I, q, 0, n), seq_cut(I, q, tsimp(zint(n) + 1), seq_len(q)))
    I.ctx.put(d.oid, "v", r)


def dict_set_at(I, d, n, v):
    q = I.list_v(d)
    if isinstance(q, tuple) and isinstance(n, int):
        r = q[:n] + ((q[n][0], v),) + q[n + 1:]
    else:
        e = (seq_get(I, q, n)[0], v)
        r = seq_concat(seq_concat(seq_cut(I, q, 0, n), (e,)), seq_cut(I, q, tsimp(zint(n) + 1), seq_len(q)))
    I.ctx.put(d.oid, "v", r)


def dict_items(I, d):
    if isinstance(d, SDict):
        q = I.list_v(d)
        if not isinstance(q, tuple):
            raise Unsupported("dict of symbolic size")
        return q
    if isinstance(d, dict):
        return tuple(d.items())
    raise Unsupported(f"items of {d!r}")


def zip_star(I, q):
    """tuple(zip(*q)) for a sequence of tuples of one length"""
    ctx = I.ctx
    n = seq_len(q)
    if ctx.decide(zint(n) <= 0):
        return ()
    x = seq_get(I, q, 0)
    if not isinstance(x, tuple):
        raise Unsupported("zip(*...) of a symbolic sequence")

    def nth(i, k):
        y = seq_get(I, q, i)
        if not isinstance(y, tuple) or len(y) != len(x):
            raise Unsupported("zip(*...) of a symbolic sequence")
        return y[k]

    return tuple(SymSeq(n, lambda i, k=k: nth(i, k)) for k in range(len(x)))


def getitem(I, o, k):
    ctx = I.ctx
    h = getattr(o, "sym_getitem", None) if isinstance(o, Sym) else None
    if h is not None:
        return h(I, k)
    if isinstance(o, SDict):
        n = dict_find(I, o, k)
        if n is None:
            I.raise_(KeyError, k)
        return dict_get_at(I, o, n)
    if isinstance(k, slice):
        if k.step is not None:
            if k.step == -1 and k.start is None and k.stop is None:
                if isinstance(o, (tuple, SList, SeqV)):
                    q = I.as_seq(Lazy("reversed", (o,)))
                    return I.new_list(q) if isinstance(o, SList) else q
            if not isinstance(o, Sym) and not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                return o[k]
            raise Unsupported("slice step")
        if isinstance(o, (SBytes, bytes, bytearray)):
            if not isinstance(o, Sym) and not isinstance(k.start, Sym) and not isinstance(k.stop, Sym):
                return o[k]
            n = rlen(pieces_of(o))
            lo, hi = slice_bounds(I, k, n)
            t = o.pytype if isinstance(o, SBytes) else type(o)
            if ctx.prove(zint(hi) <= zint(lo)):
                return t()
            if not ctx.prove(zint(lo) < zint(hi)):
                if ctx.decide(zint(lo) >= zint(hi)):
                    return t()
            return mkbytes(ctx, drop_take(ctx, pieces_of(o), lo, tsimp(zint(hi) - zint(lo))), t)
        if isinstance(o, (SList, tuple, SeqV)):
            q = I.as_seq(o)
            if isinstance(q, tuple) and not isinstance(k.start, SInt) and not isinstance(k.stop, SInt):
                r = q[k]
            else:
                n = seq_len(q)
                lo, hi = slice_bounds(I, k, n)
                if ctx.prove(zint(hi) <= zint(lo)):
                    r = ()
                else:
                    if not ctx.prove(zint(lo) <= zint(hi)):
                        if ctx.decide(zint(lo) > zint(hi)):
                            hi = lo
                    r = seq_slice(I, q, lo, hi)
            return I.new_list(r) if isinstance(o, SList) else r
        if isinstance(o, (OpaqueText, SText, NormAddr)):
            return OpaqueText()
        if isinstance(o, str) and any(isinstance(x, Sym) for x in (k.start, k.stop)):
            return OpaqueText()
        if isinstance(o, Sym):
            raise Unsupported(f"slice of {o!r}")
        try:
            return o[k]
        except Exception as e:
            I.raise_(type(e), *e.args)
    if isinstance(o, (tuple, SList, SeqV)):
        q = I.as_seq(o)
        n = seq_len(q)
        if not is_intish(k):
            I.raise_(TypeError, "indices must be integers")
        kt = term(k)
        if isinstance(n, int) and isinstance(kt, int):
            if not -n <= kt < n:
                I.raise_(IndexError, "index out of range")
            return seq_get(I, q, kt % n)
        if ctx.decide(z3.Or(zint(kt) >= zint(n), zint(kt) < -zint(n))):
            I.raise_(IndexError, "index out of range")
        if not (isinstance(kt, int) and kt >= 0) and (isinstance(kt, int) or ctx.decide(zint(kt) < 0)):
            kt = tsimp(zint(n) + kt)
        return seq_get(I, q, kt)
    if isinstance(o, (SBytes,)):
        n = rlen(o.p)
        kt = term(k)
        if ctx.decide(z3.Or(zint(kt) >= zint(n), zint(kt) < -zint(n))):
            I.raise_(IndexError, "index out of range")
        if isinstance(kt, int) and kt < 0 or not isinstance(kt, int) and ctx.decide(kt < 0):
            kt = tsimp(zint(n) + kt)
        return mkint(to_int(ctx, mkbytes(ctx, drop_take(ctx, o.p, kt, 1))))
    if isinstance(o, (OpaqueText,)):
        return OpaqueText()
    if isinstance(o, SObj):
        f = I.find_attr(o.cls, "__getitem__")
        if f is not None:
            return I.call(BoundMethod(f, o), (k,))
        I.raise_(TypeError, "not subscriptable")
    if isinstance(o, (SInt, SBool, SDec, SOpaque)):
        I.raise_(TypeError, "not subscriptable")
    if isinstance(o, Sym):
        raise Unsupported(f"subscript of {o!r}")
    if isinstance(k, Sym):
        if isinstance(o, dict):
            for kk, vv in o.items():
                if I.truth(equal(I, kk, k)):
                    return vv
            I.raise_(KeyError, k)
        raise Unsupported(f"symbolic subscript of {o!r}")
    try:
        return o[k]
    except Exception as e:
        I.raise_(type(e), *e.args)


def slice_bounds(I, k, n):
    ctx = I.ctx

    def fix(x, default):
        if x is None:
            return default
        x = term(x)
        if isinstance(x, int):
            if x < 0:
                if ctx.prove(zint(n) + x >= 0):
                    return tsimp(zint(n) + x)
                return tsimp(zint(n) + x) if not ctx.decide(zint(n) + x < 0) else 0
        else:
            if not ctx.prove(x >= 0):
                if ctx.decide(x < 0):
                    x = tsimp(zint(n) + x)
                    if ctx.decide(zint(x) < 0):
                        return 0
                    return x
        if ctx.prove(zint(x) <= zint(n)):
            return x
        return n if ctx.decide(zint(x) > zint(n)) else x

    return fix(k.start, 0), fix(k.stop, n)


def seq_slice(I, q, lo, hi):
    ctx = I.ctx
    n = seq_len(q)
    if ctx.prove(z3.And(zint(lo) == 0, zint(hi) == zint(n))):
        return q
    lo, hi = tsimp(lo), tsimp(hi)
    if isinstance(q, tuple):
        ulo, uhi = ctx.unique(lo), ctx.unique(hi)
        if ulo is not None and uhi is not None:
            return q[ulo:uhi]
        return SeqSlice(q, lo, hi)
    from .loops import LoopSeg

    if isinstance(q, LoopSeg) and ctx.prove(zint(lo) == 0) and q.loop.counts[q.loc] is None:
        return LoopSeg(q.loop, q.loc, hi)
    if isinstance(q, SeqConcat) and ctx.prove(zint(lo) == 0):
        # drop from the end
        parts = list(q.parts)
        last = parts[-1]
        ln = zint(seq_len(last))
        if ctx.prove(zint(hi) == zint(n) - ln):
            parts.pop()
            return parts[0] if len(parts) == 1 else SeqConcat(parts)
        if isinstance(last, tuple):
            d = ctx.unique(zint(n) - zint(hi))
            if d is not None and d <= len(last):
                parts[-1] = last[: len(last) - d]
                if not parts[-1]:
                    parts.pop()
                return parts[0] if len(parts) == 1 else SeqConcat(parts)
    return SeqSlice(q, lo, hi)


def bytearray_store(I, o, k, v):
    """The byte array after o[k] = v."""
    ctx = I.ctx
    n = rlen(pieces_of(o))
    if isinstance(k, slice):
        if k.step is not None or not isinstance(v, (SBytes, bytes, bytearray)):
            raise Unsupported("item assignment to a byte array")
        lo, hi = k.start, k.stop
        if lo is not None and hi is not None and not ctx.prove(z3.And(0 <= zint(term(lo)), zint(term(lo)) <= zint(term(hi)))):
            raise Unsupported("item assignment to a byte array")
        left = pieces_of(getitem(I, o, slice(None, lo, None))) if lo is not None else []
        right = pieces_of(getitem(I, o, slice(hi, None, None))) if hi is not None else []
        return mkbytes(ctx, left + pieces_of(v) + right, bytearray)
    if not is_intish(k) or not is_intish(v):
        raise Unsupported("item assignment to a byte array")
    if not ctx.prove(zint(term(k)) >= 0):
        raise Unsupported("item assignment to a byte array")
    if ctx.decide(zint(term(k)) >= zint(n)):
        I.raise_(IndexError, "bytearray index out of range")
    left = pieces_of(getitem(I, o, slice(None, k, None)))
    right = pieces_of(getitem(I, o, slice(mkint(zint(term(k)) + 1), None, None)))
    return mkbytes(ctx, left + one_byte(I, v) + right, bytearray)


def one_byte(I, v):
    if I.ctx.decide(z3.Or(zint(term(v)) < 0, zint(term(v)) > 255)):
        I.raise_(ValueError, "byte must be in range(0, 256)")
    return [W(tsimp(zint(term(v))), 1)]


def bytearray_grow(I, o, how, v):
    if how == "append":
        if not is_intish(v):
            raise Unsupported("append to a byte array")
        add = one_byte(I, v)
    elif isinstance(v, (SBytes, bytes, bytearray)):
        add = pieces_of(v)
    else:
        add = pieces_of(m_bytes(I, (v,), {}, bytes)) if isinstance(v, (tuple, SList, SeqV, GenExp)) else None
        if add is None:
            raise Unsupported("extend of a byte array")
    return mkbytes(I.ctx, pieces_of(o) + add, bytearray)


def setitem(I, o, k, v):
    h = getattr(o, "sym_setitem", None) if isinstance(o, Sym) else None
    if h is not None:
        return h(I, k, v)
    if isinstance(o, SDict):
        n = dict_find(I, o, k)
        items = I.list_v(o)
        if n is None:
            I.ctx.put(o.oid, "v", seq_concat(items, ((k, v),)))
        else:
            dict_set_at(I, o, n, v)
        return
    if isinstance(o, SList):
        q = I.list_v(o)
        if isinstance(q, tuple) and isinstance(k, int):
            if not -len(q) <= k < len(q):
                I.raise_(IndexError)
            k %= len(q)
            I.ctx.put(o.oid, "v", q[:k] + (v,) + q[k + 1:])
            return
        raise Unsupported("item assignment")
    if isinstance(o, SBytes) and o.pytype is not bytes:
        raise Unsupported("item assignment to a byte array")
    if isinstance(o, (tuple, bytes, str, SeqV, SBytes, SInt)):
        I.raise_(TypeError, "does not support item assignment")
    raise Unsupported(f"item assignment on {o!r}")


def delitem(I, o, k):
    h = getattr(o, "sym_delitem", None) if isinstance(o, Sym) else None
    if h is not None:
        return h(I, k)
    if isinstance(o, SDict):
        n = dict_find(I, o, k)
        if n is None:
            I.raise_(KeyError, k)
        dict_del_at(I, o, n)
        return
    if isinstance(o, SList):
        q = I.list_v(o)
        if isinstance(q, tuple) and isinstance(k, (int, slice)):
            l = list(q)
            try:
                del l[k]
            except IndexError:
                I.raise_(IndexError)
            I.ctx.put(o.oid, "v", tuple(l))
            return
    raise Unsupported(f"del on {o!r}")


# ------------------------------------------------------------ methods of symbolic values
METHODS = {
    SInt: {"to_bytes", "bit_length", "real", "numerator", "conjugate", "__index__", "is_integer"},
    SBool: {"to_bytes", "bit_length"},
    SBytes: {"rjust", "ljust", "decode", "hex", "startswith", "endswith", "join", "strip", "lstrip", "rstrip", "count"},
    SDec: {"is_nan", "is_infinite", "is_finite", "is_signed", "is_zero", "is_snan", "is_qnan", "to_integral_value", "scaleb", "quantize", "as_integer_ratio", "copy_abs", "copy_negate", "__floor__", "__trunc__", "normalize", "compare", "remainder_near"},
    OpaqueText: {"join", "format", "lower", "upper", "strip", "startswith", "endswith", "replace", "encode"},
    SList: {"append", "extend", "pop", "insert", "index", "copy", "reverse", "clear", "count", "remove"},
    SDict: {"items", "keys", "values", "get", "pop", "copy", "update", "setdefault", "clear"},
    SText: {"encode", "lower", "isascii"},
    NormAddr: {"lower", "encode"},
}


def method_names(I, obj):
    if isinstance(obj, SeqV):
        return {"index", "count"}
    if isinstance(obj, SOpaque):
        return set()
    if isinstance(obj, (Lazy, GenExp, GenObj, SRange, Poison, AbsVal)):
        return None
    for k, v in METHODS.items():
        if isinstance(obj, k):
            return v
    return None


def bit_length(ctx, v):
    """bit_length of an integer term."""
    bl = z3.Function("bit_length", z3.IntSort(), z3.IntSort())(zint(v))
    a = z3.If(zint(v) >= 0, zint(v), -zint(v))
    ctx.fact(
        ("bl", bl.get_id()),
        z3.And(bl >= 0, *[(a < 256**k) == (bl <= 8 * k) for k in range(0, 41)], *[(a < 2**k) == (bl <= k) for k in (1, 2, 3, 4, 5, 6, 7)]),
    )
    return bl


def int_to_text(I, x):
    """str()/repr()/format of an int: refused by CPython beyond 4300 digits."""
    ctx = I.ctx
    if isinstance(x, int):
        try:
            return repr(x)
        except ValueError:
            I.raise_(ValueError, "Exceeds the limit for integer string conversion")
    b = z3.Function("int_text_refused", z3.IntSort(), z3.BoolSort())(zint(x))
    ctx.fact(("txt", b.get_id()), z3.Implies(b, z3.Or(zint(x) > 2**4000, zint(x) < -(2**4000))))
    if ctx.decide(b):
        I.raise_(ValueError, "Exceeds the limit for integer string conversion")
    if ctx.texts:
        return core.mkstr(ctx, [core.dec_blob(ctx, x)])
    return OpaqueText()


def call_method(I, o, name, args, kwargs):
    ctx = I.ctx
    if isinstance(o, (SInt, SBool)):
        if name == "bit_length":
            return mkint(bit_length(ctx, term(o)))
        if name == "to_bytes":
            return int_to_bytes(I, o, *args, **kwargs)
        if name in ("real", "numerator"):
            return o
        if name in ("conjugate", "__index__"):
            return mkint(zint(o))
        raise Unsupported(f"int.{name}")
    if isinstance(o, SBytes):
        if name in ("rjust", "ljust"):
            return justify(I, o, name, *args)
        if name == "decode":
            enc = args[0] if args else kwargs.get("encoding", "utf-8")
            errors = args[1] if len(args) > 1 else kwargs.get("errors", "strict")
            return decode_utf8(I, o, enc, errors)
        if name == "hex" and not args:
            n = ctx.unique(rlen(o.p))
            if n == 20:
                return HexText(to_int(ctx, o))
        if name in ("startswith", "endswith") and len(args) == 1 and not kwargs:
            return affix(I, o, name, args[0])
        if name in ("strip", "lstrip", "rstrip") and len(args) == 1 and not kwargs:
            return strip(I, o, name, args[0])
        if name == "count" and len(args) == 1 and args[0] in (0, b"\0") and not isinstance(args[0], (Sym, bool)):
            n = mkint(rlen(o.p))
            return measure(I, o, n, lambda c: z3.And(c >= 0, c < zint(n)))
        if name in ("removeprefix", "removesuffix") and len(args) == 1:
            if not I.truth(affix(I, o, "startswith" if name == "removeprefix" else "endswith", args[0])):
                return o
            k = mkint(rlen(pieces_of(args[0])))
            n = mkint(rlen(pieces_of(o)))
            return getitem(I, o, slice(k, None) if name == "removeprefix" else slice(None, mkint(zint(n) - zint(k))))
        raise Unsupported(f"bytes.{name}")
    if isinstance(o, SDec):
        if name in ("is_nan", "is_infinite", "is_snan", "is_qnan"):
            return False
        if name == "is_finite":
            return True
        if name == "is_zero":
            return mkbool(o.t == 0)
        if name == "is_signed":
            if ctx.decide(o.t < 0):
                return True
            if ctx.decide(o.t > 0):
                return False
            if o.neg is not None:
                return mkbool(o.neg)
            return mkbool(approx_bool(I, "negzero"))
        if name == "copy_abs":
            return SDec(z3.If(o.t >= 0, o.t, -o.t))
        if name == "copy_negate":
            return SDec(-o.t)
        if name == "scaleb" and isinstance(args[0], int):
            n = args[0]
            return dec_round(I, o.t * (z3.Q(10**n, 1) if n >= 0 else z3.Q(1, 10**-n)))
        if name in ("to_integral_value", "to_integral", "to_integral_exact") and ctx.prove(o.t == z3.ToReal(z3.ToInt(o.t))):
            return o  # whole already
        if name == "to_integral_value" and (kwargs.get("rounding") == decimal.ROUND_DOWN or args and args[0] == decimal.ROUND_DOWN):
            t = trunc_real(o.t)
            return SDec(z3.ToReal(t), (t, 0))
        raise Unsupported(f"Decimal.{name}")
    if isinstance(o, SList):
        v = I.list_v(o)
        if name == "append":
            ctx.put(o.oid, "v", seq_concat(v, (args[0],)))
            return None
        if name == "extend":
            it = args[0]
            q = I.to_tuple(it) if isinstance(it, Lazy) and it.once is not None and I.as_seq(it) is not None else I.as_seq(it)
            if q is not None:
                ctx.put(o.oid, "v", seq_concat(v, q))
            else:
                I.for_each(it, lambda x: ctx.put(o.oid, "v", seq_concat(I.list_v(o), (x,))))
            return None
        if name == "pop":
            n = seq_len(v)
            if ctx.decide(zint(n) == 0):
                I.raise_(IndexError, "pop from empty list")
            if args and args[0] not in (-1,):
                if isinstance(v, tuple) and isinstance(args[0], int) and -len(v) <= args[0] < len(v):
                    k = args[0] % len(v)
                    ctx.put(o.oid, "v", v[:k] + v[k + 1:])
                    return v[k]
                raise Unsupported("pop index")
            if isinstance(v, tuple):
                ctx.put(o.oid, "v", v[:-1])
                return v[-1]
            if isinstance(v, SeqConcat) and isinstance(v.parts[-1], tuple) and v.parts[-1]:
                last = v.parts[-1]
                ps = list(v.parts[:-1]) + ([last[:-1]] if len(last) > 1 else [])
                ctx.put(o.oid, "v", ps[0] if len(ps) == 1 else SeqConcat(ps))
                return last[-1]
            x = seq_get(I, v.parts[-1], tsimp(zint(seq_len(v.parts[-1])) - 1)) if isinstance(v, SeqConcat) else seq_get(I, v, tsimp(zint(n) - 1))
            ctx.put(o.oid, "v", seq_slice(I, v, 0, tsimp(zint(n) - 1)))
            return x
        if name == "copy":
            return I.new_list(v)
        if name == "clear":
            ctx.put(o.oid, "v", ())
            return None
        if name == "insert" and isinstance(v, tuple) and isinstance(args[0], int):
            l = list(v)
            l.insert(args[0], args[1])
            ctx.put(o.oid, "v", tuple(l))
            return None
        if name == "reverse":
            ctx.put(o.oid, "v", I.as_seq(Lazy("reversed", (v,))))
            return None
        raise Unsupported(f"list.{name}")
    if isinstance(o, SDict):
        v = I.list_v(o)
        if name == "items":
            return v
        if name == "keys":
            return seq_map(I, v, lambda e: e[0])
        if name == "values":
            return seq_map(I, v, lambda e: e[1])
        if name == "get":
            n = dict_find(I, o, args[0])
            return dict_get_at(I, o, n) if n is not None else (args[1] if len(args) > 1 else None)
        if name == "pop":
            n = dict_find(I, o, args[0])
            if n is None:
                if len(args) > 1:
                    return args[1]
                I.raise_(KeyError, args[0])
            x = dict_get_at(I, o, n)
            dict_del_at(I, o, n)
            return x
        if name == "copy":
            return I.new_dict(v)
        if name == "clear":
            ctx.put(o.oid, "v", ())
            return None
        if name == "setdefault":
            n = dict_find(I, o, args[0])
            if n is None:
                d = args[1] if len(args) > 1 else None
                setitem(I, o, args[0], d)
                return d
            return dict_get_at(I, o, n)
        if name == "update":
            for a in args:
                if isinstance(a, SDict) and I.list_v(o) == ():
                    ctx.put(o.oid, "v", I.list_v(a))
                    continue
                for k, x in dict_items(I, a):
                    setitem(I, o, k, x)
            for k, x in kwargs.items():
                setitem(I, o, k, x)
            return None
        raise Unsupported(f"dict.{name}")
    if isinstance(o, SText):
        if name == "encode":
            return encode_text(I, o, *(args or ("utf-8",)), **kwargs)
        raise Unsupported(f"str.{name}")
    if isinstance(o, OpaqueText):
        if name in ("startswith", "endswith"):
            return mkbool(approx_bool(I, "sw"))
        if name == "encode":
            raise Unsupported("encode of opaque text")
        return OpaqueText()
    if isinstance(o, NormAddr):
        if name == "lower":
            return o
    raise Unsupported(f"method {name} of {o!r}")


class HexText(Sym):
    """40 lower-case hex digits."""

    pytype_ = str

    def __init__(self, v):
        self.v = v


def int_to_bytes(I, o, length=1, byteorder="big", *, signed=False):
    ctx = I.ctx
    if isinstance(signed, Sym):
        raise Unsupported("signed")
    if byteorder not in ("big", "little"):
        I.raise_(ValueError)
    v = term(o)
    L = term(length)
    if byteorder == "little":
        u = ctx.unique(L)
        if u != 1:
            raise Unsupported("little endian")
    if ctx.decide(zint(L) < 0):
        I.raise_(ValueError, "length argument must be non-negative")
    u = L if is_num(L) else ctx.unique(L)
    if signed:
        if u is None:
            raise Unsupported("signed to_bytes with unknown length")
        if u == 0:
            bad = zint(v) != 0
        else:
            bad = z3.Or(zint(v) < -(256**u // 2), zint(v) >= 256**u // 2)
        if ctx.decide(bad):
            I.raise_(OverflowError, "int too big to convert")
        return mkbytes(ctx, [W(tsimp(z3.If(zint(v) < 0, zint(v) + 256**u, zint(v))), u)])
    if u is not None:
        if u > 5000:
            raise Unsupported("to_bytes of a huge length")
        fits = z3.And(zint(v) >= 0, zint(v) < 256**u)
    else:
        if not ctx.prove(zint(L) <= 40):
            # beyond 40 bytes only the general fact about bit_length is available
            bl = bit_length(ctx, v)
            f1 = z3.And(zint(v) >= 0, zint(bl) <= 8 * zint(L))
            fits = f1
        else:
            fits = z3.And(zint(v) >= 0, *[z3.Implies(zint(L) == k, zint(v) < 256**k) for k in range(0, 41)])
    if not ctx.decide(fits):
        I.raise_(OverflowError, "int too big to convert")
    if u == 0:
        return b""
    return mkbytes(ctx, [W(v, L)])


def m_from_bytes(I, args, kwargs):
    b = args[0]
    order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
    signed = kwargs.get("signed", False)
    if not isinstance(b, Sym):
        return int.from_bytes(b, order, signed=signed)
    if not isinstance(b, SBytes):
        raise Unsupported("from_bytes")
    n = I.ctx.unique(rlen(b.p))
    if order != "big" and n != 1:
        raise Unsupported("little endian")
    try:
        v = to_int(I.ctx, b)
    except Unsupported:
        if signed or n is not None:
            raise
        return measure(I, b, 0, lambda c: c > 0)
    if signed:
        if n is None:
            raise Unsupported("signed from_bytes of unknown length")
        return mkint(z3.If(zint(v) >= 256**n // 2, zint(v) - 256**n, zint(v)))
    return mkint(v)


def measure(I, b, zero, other):
    """A number made from the bytes: `zero` if all of them are zero, otherwise something about
    which only `other` is known (a refutation on that path has to be replayed)."""
    ctx = I.ctx
    z = equal(I, b, binop(I, ast.Mult, b"\0", mkint(zint(rlen(pieces_of(b))))))
    if I.truth(z):
        return zero
    c = ctx.fresh_int("measure")
    ctx.assume(other(c))
    ctx.approx = True
    return mkint(c)


def justify(I, o, name, width, fill=b" "):
    ctx = I.ctx
    if isinstance(fill, Sym) or len(fill) != 1:
        raise Unsupported("fill byte")
    w = term(width)
    n = rlen(pieces_of(o))
    t = o.pytype if isinstance(o, SBytes) else type(o)
    if not ctx.prove(zint(n) <= zint(w)):
        if ctx.decide(zint(n) >= zint(w)):
            return o
    pad = Rep(fill[0], tsimp(zint(w) - zint(n)))
    ctx_alloc(I, w)
    return mkbytes(ctx, [pad] + pieces_of(o) if name == "rjust" else pieces_of(o) + [pad], t)


def affix(I, o, name, x):
    """bytes.startswith / endswith"""
    ctx = I.ctx
    if isinstance(x, tuple):
        return any(I.truth(affix(I, o, name, y)) for y in x)
    if not isinstance(x, (SBytes, bytes, bytearray)):
        I.raise_(TypeError, "startswith / endswith needs bytes")
    n, k = rlen(pieces_of(o)), rlen(pieces_of(x))
    if not ctx.prove(zint(k) <= zint(n)) and not ctx.decide(zint(k) <= zint(n)):
        return False
    part = drop_take(ctx, pieces_of(o), 0 if name == "startswith" else tsimp(zint(n) - zint(k)), k)
    return equal(I, mkbytes(ctx, part), x)


def strip(I, o, name, chars):
    """bytes.strip / lstrip / rstrip of zero bytes, or of 0xff bytes"""
    ctx = I.ctx
    if isinstance(chars, Sym) or set(chars) not in ({0}, {255}):
        raise Unsupported(f"bytes.{name}({chars!r})")
    fill = chars[0]
    ps = [p for p in norm(ctx, pieces_of(o)) if not ctx.prove(zint(p.n) == 0)]
    if name in ("strip", "lstrip"):
        ps = strip_end(I, ps, True, fill)
    if name in ("strip", "rstrip"):
        ps = strip_end(I, ps, False, fill)
    return mkbytes(ctx, ps, o.pytype)


def strip_end(I, ps, left, fill=0):
    ctx = I.ctx
    ps = list(ps)
    while ps:
        p = ps[0] if left else ps[-1]
        rest = ps[1:] if left else ps[:-1]
        put = (lambda q: [q] + rest) if left else (lambda q: rest + [q])
        if isinstance(p, core.Lit):
            b = p.b.lstrip(bytes([fill])) if left else p.b.rstrip(bytes([fill]))
            if b:
                return put(core.Lit(b))
        elif isinstance(p, Rep):
            if p.byte != fill:
                if ctx.decide(zint(p.n) > 0):
                    return ps
        elif isinstance(p, W):
            n = p.n if is_num(p.n) else ctx.unique(p.n)
            if n is None or n > 40:
                raise Unsupported("strip of a word of unknown width")
            # stripping 0xff bytes is stripping zero bytes of the complement
            flip = (lambda v, k: tsimp(256**k - 1 - zint(v))) if fill else (lambda v, k: v)
            v = flip(p.v, n)
            if not ctx.decide(zint(v) == 0):
                for k in range(1, n + 1):
                    if k == n or ctx.decide(zint(v) < 256**k if left else zint(v) % 256 ** (n - k) == 0):
                        if left:
                            return put(W(flip(v, k), k))
                        return put(W(flip(tsimp(zint(v) / 256 ** (n - k)), k), k))
        elif isinstance(p, A) and fill == 0:
            z = p.blob.fn("zero", 2, z3.BoolSort())
            whole = z(tsimp(zint(p.off)), tsimp(zint(p.n)))
            ctx.fact(("zero", whole.get_id()), z3.Implies(zint(p.n) <= 0, whole))
            if ctx.decide(whole):
                ps = rest
                continue
            m = ctx.fresh_int("kept")
            ctx.assume(z3.And(m > 0, m <= zint(p.n)))
            byte = p.blob.fn("be1", 1, z3.IntSort())
            if left:
                at = tsimp(zint(p.off) + zint(p.n) - m)
                ctx.assume(z3.And(z3.Or(zint(p.n) == m, z(zint(p.off), tsimp(zint(p.n) - m))), byte(zint(at)) != 0, z3.Not(z(zint(at), m))))
            else:
                at = tsimp(zint(p.off) + m)
                ctx.assume(z3.And(z3.Or(zint(p.n) == m, z(zint(at), tsimp(zint(p.n) - m))), byte(tsimp(at - 1)) != 0, z3.Not(z(tsimp(zint(p.off)), m))))
            return put(A(p.blob, at if left else p.off, m))
        else:
            raise Unsupported("strip of a concatenation")
        ps = rest
    return ps


class Endless(Sym):
    """itertools.repeat / count without an end: only beside something finite."""

    def __init__(self, at):
        self.at = at


def bound_endless(I, args):
    if not any(isinstance(a, Endless) for a in args):
        return args
    for a in args:
        if not isinstance(a, (Endless,) + ITERS):
            q = I.as_seq(a)
            if q is not None:
                n = seq_len(q)
                return tuple(SymSeq(n, x.at) if isinstance(x, Endless) else x for x in args)
    raise Unsupported("endless iterators only")


def m_repeat(I, args, kwargs):
    x = args[0] if args else kwargs["object"]
    n = args[1] if len(args) > 1 else kwargs.get("times")
    if n is None:
        return Endless(lambda i: x)
    if not isinstance(n, (SInt, int)):
        raise Unsupported("repeat()")
    if isinstance(n, int):
        return Lazy("iter", ((x,) * n,), I.ctx)
    if not I.ctx.decide(zint(n) > 0):
        return Lazy("iter", ((),), I.ctx)
    if I.ctx.decide(zint(n) >= 2**63):
        I.raise_(OverflowError, "Python int too large to convert to C ssize_t")
    return Lazy("iter", (SymSeq(n.t, lambda i: x),), I.ctx)


def m_count(I, args, kwargs):
    a = args[0] if args else kwargs.get("start", 0)
    st = args[1] if len(args) > 1 else kwargs.get("step", 1)
    if not isinstance(a, (SInt, int)) or not isinstance(st, int):
        raise Unsupported("count()")
    return Endless(lambda i: mkint(tsimp(zint(a) + zint(i) * st)))


def encode_text(I, s, encoding="utf-8", errors="strict"):
    ctx = I.ctx
    if not isinstance(encoding, str) or encoding.lower().replace("-", "").replace("_", "") != "utf8" or errors != "strict":
        raise Unsupported(f"encode {encoding} {errors}")
    if not ctx.decide(s.valid()):
        I.raise_(UnicodeEncodeError)
    b = s.blob(ctx)
    return mkbytes(ctx, [A(b, z3.IntVal(0), b.len)])


def decode_utf8(I, o, encoding, errors):
    ctx = I.ctx
    if isinstance(encoding, str) and encoding.lower().replace("_", "-") in ("utf-8-sig", "utf8-sig"):
        if I.truth(affix(I, o, "startswith", b"\xef\xbb\xbf")):
            o = getitem(I, o, slice(3, None))
        encoding = "utf-8"
        if not isinstance(o, Sym):
            return o.decode("utf-8", errors)
    if not isinstance(encoding, str) or encoding.lower().replace("-", "").replace("_", "") != "utf8":
        raise Unsupported(f"decode {encoding}")
    ps = norm(ctx, pieces_of(o))
    live = [p for p in ps if not ctx.prove(zint(p.n) == 0)]
    if not live:
        t = z3.Const("text_of_empty", V)
        if not ps:
            return ""
        for p in ps:
            if isinstance(p, A) and p.blob.info and p.blob.info[0] == "utf8" and ctx.prove(zint(p.blob.len) == 0):
                return SText(p.blob.info[1])
        return SText(t)
    if len(live) == 1 and isinstance(live[0], A):
        p = live[0]
        b = p.blob
        if b.info and b.info[0] == "utf8" and ctx.prove(z3.And(zint(p.off) == 0, zint(p.n) == zint(b.len))):
            if ctx.prove(z3.Function("utf8ok", V, z3.BoolSort())(b.info[1])):
                return SText(b.info[1])
        if errors == "strict" or isinstance(errors, Sym):
            ok = b.fn("isutf8", 2, z3.BoolSort())(p.off, p.n)
            if not ctx.decide(ok):
                if isinstance(errors, Sym):
                    raise Unsupported("unknown error handler")
                I.raise_(UnicodeDecodeError)
        elif isinstance(errors, str):
            if not ctx.decide(b.fn("isutf8", 2, z3.BoolSort())(p.off, p.n)):
                return SText(b.fn("text_" + errors, 2, V)(p.off, p.n))
        return SText(b.fn("text", 2, V)(p.off, p.n))
    if len(live) == 1 and isinstance(live[0], W):
        p = live[0]
        n = ctx.unique(p.n)
        ok = z3.Function(f"isutf8_{n}", z3.IntSort(), z3.BoolSort())(zint(p.v))
        if not ctx.decide(ok):
            I.raise_(UnicodeDecodeError)
        return SText(z3.Function(f"text_{n}", z3.IntSort(), V)(zint(p.v)))
    # a composition: nothing known but that it may fail
    ctx.approx = True
    ok = ctx.fresh_bool("isutf8")
    if not ctx.decide(ok):
        I.raise_(UnicodeDecodeError)
    return SText(ctx.fresh("text", V))


# ------------------------------------------------------------ io.BytesIO
def bio_init(I, args, kwargs):
    self = args[0]
    data = args[1] if len(args) > 1 else kwargs.get("initial_bytes", b"")
    if data is None:
        data = b""
    if not isinstance(data, (SBytes, bytes, bytearray)):
        if isinstance(data, Sym) and not isinstance(data, (SInt, SText, OpaqueText, SeqV, SList)):
            raise Unsupported("BytesIO content")
        I.raise_(TypeError, "a bytes-like object is required")
    I.ctx.put(self.oid, "%buf", tuple(pieces_of(data)))
    I.ctx.put(self.oid, "%pos", 0)
    I.ctx.put(self.oid, "%reads", 0)


def bio_read(I, args, kwargs):
    ctx = I.ctx
    self = args[0]
    r = ctx.rec(self.oid)
    buf, pos = list(r["%buf"]), term(r["%pos"])
    k = args[1] if len(args) > 1 else kwargs.get("size", None)
    ctx.put(self.oid, "%reads", mkint(zint(r["%reads"]) + 1))
    n = rlen(buf)
    if k is None:
        k = -1
    if not is_intish(k):
        I.raise_(TypeError, "argument should be integer or None")
    k = term(k)
    if not ctx.prove(z3.And(zint(k) <= SSIZE_MAX, zint(k) >= -SSIZE_MAX)):
        if ctx.decide(z3.Or(zint(k) > SSIZE_MAX, zint(k) < -SSIZE_MAX - 1)):
            I.raise_(OverflowError, "Python int too large to convert to C ssize_t")
    allrest = ctx.decide(zint(k) < 0)
    if ctx.decide(zint(pos) >= zint(n)):
        return b""
    if allrest or not ctx.decide(zint(pos) + zint(k) <= zint(n)):
        k = tsimp(zint(n) - zint(pos))
    if ctx.decide(zint(k) == 0):
        return b""
    ctx.put(self.oid, "%pos", mkint(zint(pos) + zint(k)))
    kk = ctx.unique(k)
    if kk is not None:
        k = kk
    return mkbytes(ctx, words(ctx, drop_take(ctx, buf, pos, k)))


def words(ctx, ps):
    """Short reads of a blob become words."""
    out = []
    for p in ps:
        n = None
        if isinstance(p, A):
            n = p.n if is_num(p.n) else ctx.unique(p.n)
        if n is not None and n <= 32:
            out.append(W(core.piece_int(ctx, A(p.blob, p.off, n)), n))
        else:
            out.append(p)
    return out


def bio_seek(I, args, kwargs):
    ctx = I.ctx
    self, pos = args[0], args[1]
    whence = args[2] if len(args) > 2 else kwargs.get("whence", 0)
    if not is_intish(pos):
        I.raise_(TypeError, "integer argument expected")
    if not isinstance(whence, int):
        raise Unsupported("whence")
    p = term(pos)
    if not ctx.prove(z3.And(zint(p) <= SSIZE_MAX, zint(p) >= 0)):
        if ctx.decide(z3.Or(zint(p) > SSIZE_MAX, zint(p) < -SSIZE_MAX - 1)):
            I.raise_(OverflowError, "Python int too large to convert to C ssize_t")
    if whence == 1:
        p = tsimp(zint(term(ctx.rec(self.oid)["%pos"])) + zint(p))
    elif whence == 2:
        p = tsimp(zint(rlen(ctx.rec(self.oid)["%buf"])) + zint(p))
    elif whence != 0:
        I.raise_(ValueError)
    if whence == 0:
        if ctx.decide(zint(p) < 0):
            I.raise_(ValueError, "negative seek value")
    elif ctx.decide(zint(p) < 0):
        p = 0
    ctx.put(self.oid, "%pos", mkint(p))
    return mkint(p)


def bio_tell(I, args, kwargs):
    return I.ctx.rec(args[0].oid)["%pos"]


def bio_getbuffer(I, args, kwargs):
    return MemView(list(I.ctx.rec(args[0].oid)["%buf"]))


def bio_getvalue(I, args, kwargs):
    return mkbytes(I.ctx, list(I.ctx.rec(args[0].oid)["%buf"]))


def bio_read1(I, args, kwargs):
    raise Unsupported("BytesIO method")


# ------------------------------------------------------------ builtins
def m_len(I, args, kwargs):
    (x,) = args
    if isinstance(x, SBytes):
        return mkint(rlen(x.p))
    if isinstance(x, core.SStr):
        raise Unsupported("len of text")
    if isinstance(x, MemView):
        return mkint(rlen(x.p))
    if isinstance(x, (SList, SDict)):
        return mkint(seq_len(I.list_v(x)))
    if isinstance(x, SeqV):
        return mkint(x.n)
    if isinstance(x, SRange):
        return mkint(seq_len(I.as_seq(x)))
    if isinstance(x, OpaqueText):
        I.ctx.approx = True
        n = I.ctx.fresh_int("textlen")
        I.ctx.assume(n >= 0)
        return SInt(n)
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__len__")
        if f is None:
            I.raise_(TypeError, "object has no len()")
        return I.call(BoundMethod(f, x))
    if isinstance(x, (SInt, SBool, SDec, SOpaque, GenExp, GenObj, Lazy, Closure)):
        I.raise_(TypeError, "object has no len()")
    if isinstance(x, SText):
        n = z3.Function("textlen", V, z3.IntSort())(x.t)
        I.ctx.fact(("tl", n.get_id()), n >= 0)
        return mkint(n)
    h = getattr(x, "sym_len", None) if isinstance(x, Sym) else None
    if h is not None:
        return h(I)
    if isinstance(x, Sym):
        raise Unsupported(f"len of {x!r}")
    try:
        return len(x)
    except TypeError as e:
        I.raise_(TypeError, *e.args)


def m_isinstance(I, args, kwargs):
    return I.isinstance(args[0], args[1])


def m_issubclass(I, args, kwargs):
    a, b = args
    if isinstance(a, Sym):
        h = getattr(a, "sym_issubclass", None)
        if h is not None:
            return h(I, b)
        raise Unsupported("issubclass")
    try:
        return issubclass(a, b)
    except TypeError as e:
        I.raise_(TypeError, *e.args)


_MISSING = object()


def m_getattr(I, args, kwargs):
    try:
        return I.getattr(args[0], args[1])
    except PyExc as e:
        if len(args) > 2 and issubclass(e.val.cls, AttributeError):
            return args[2]
        raise


def m_hasattr(I, args, kwargs):
    try:
        I.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if issubclass(e.val.cls, AttributeError):
            return False
        raise


def m_setattr(I, args, kwargs):
    I.setattr(*args)


def m_hash(I, args, kwargs):
    """hash(): a function of the parts, of which nothing else is known."""
    (x,) = args
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__hash__")
        if f is None:
            I.raise_(TypeError)
        if f is object.__hash__:
            return mkint(z3.Function("hash.obj", z3.IntSort(), z3.IntSort())(z3.IntVal(x.oid)))
        return I.call(f, (x,), {})
    if isinstance(x, (list, dict, set, SList, SDict)):
        I.raise_(TypeError)
    if isinstance(x, tuple):
        mix = z3.Function("hash.mix", z3.IntSort(), z3.IntSort(), z3.IntSort())
        h = z3.IntVal(len(x))
        for e in x:
            h = mix(h, zint(m_hash(I, (e,), {})))
        return mkint(h)
    if isinstance(x, (SInt, SBool, bool, int)):
        return mkint(z3.Function("hash.int", z3.IntSort(), z3.IntSort())(zint(x)))
    if isinstance(x, Sym):
        if isinstance(getattr(x, "t", None), z3.ExprRef):
            return mkint(z3.Function("hash." + x.t.sort().name(), x.t.sort(), z3.IntSort())(x.t))
        raise Unsupported("hash of a symbolic value")
    try:
        return hash(x)
    except TypeError as e:
        raise PyExc(ExcVal(TypeError, e.args))


def m_callable(I, args, kwargs):
    (x,) = args
    if isinstance(x, SObj):
        return I.find_attr(x.cls, "__call__") is not None
    if isinstance(x, (Closure, BoundMethod, Model, BuiltinMethod)):
        return True
    if isinstance(x, Sym):
        h = getattr(x, "sym_callable", None)
        if h is not None:
            return h(I)
        return hasattr(x, "sym_call")
    return callable(x)


def m_type(I, args, kwargs):
    if len(args) != 1:
        raise Unsupported("type()")
    t = I.pytype(args[0])
    return OpaqueText() if t is None else t


def m_repr(I, args, kwargs):
    (x,) = args
    if isinstance(x, (SInt,)):
        return int_to_text(I, x)
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__repr__")
        if isinstance(f, types.FunctionType):
            return I.call(BoundMethod(f, x))
        return OpaqueText()
    if isinstance(x, (tuple, SeqV, SList)):
        q = I.as_seq(x)
        if I.ctx.texts and isinstance(q, tuple) and I.pytype(x) in (tuple, list):
            rs = [m_repr(I, (y,), {}) for y in q]
            b, e = ("[", "]") if I.pytype(x) is list else ("(", ",)" if len(q) == 1 else ")")
            r = join_text(I, ", ", tuple(rs))
            ts = core.text_pieces(r)
            return OpaqueText() if ts is None else core.mkstr(I.ctx, [Lit(b.encode())] + ts + [Lit(e.encode())])
        if isinstance(q, tuple):
            for y in q:
                if isinstance(y, (SInt, int, tuple, SList)):
                    m_repr(I, (y,), {})
        return OpaqueText() if isinstance(x, Sym) or any(isinstance(y, Sym) for y in x) else safe_repr(I, x)
    if isinstance(x, Sym):
        return OpaqueText()
    return safe_repr(I, x)


def safe_repr(I, x):
    try:
        return repr(x)
    except Exception as e:
        I.raise_(type(e), *e.args)


def m_str(I, args, kwargs):
    if not args:
        return ""
    x = args[0]
    if len(args) > 1 or kwargs:
        if isinstance(x, SBytes):
            return decode_utf8(I, x, args[1], args[2] if len(args) > 2 else "strict")
        raise Unsupported("str()")
    if isinstance(x, (SText, OpaqueText, NormAddr, core.SStr)) or getattr(x, "pytype_", None) is str:
        return x
    if isinstance(x, SInt):
        return int_to_text(I, x)
    if isinstance(x, Sym):
        return OpaqueText()
    try:
        return str(x)
    except Exception as e:
        I.raise_(type(e), *e.args)


def m_int(I, args, kwargs):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, (SInt, SBool)):
        return mkint(zint(x))
    if isinstance(x, Sym) and len(args) == 1 and not kwargs and hasattr(x, "sym_int"):
        return x.sym_int(I)
    if isinstance(x, SDec):
        return mkint(x.ic[0]) if x.ic and x.ic[1] == 0 else mkint(trunc_real(x.t))
    if isinstance(x, Sym):
        if isinstance(x, (SBytes, SText, OpaqueText)):
            raise Unsupported("int(text)")
        if isinstance(x, (SOpaque, SeqV, SList)):
            I.raise_(TypeError)
        raise Unsupported("int()")
    try:
        return int(*args, **kwargs)
    except Exception as e:
        I.raise_(type(e), *e.args)


def m_bool(I, args, kwargs):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mkbool(x.t != 0)
    return I.truth(x)


def m_bytes(I, args, kwargs, cls=bytes):
    ctx = I.ctx
    if not args:
        return cls()
    x = args[0]
    if isinstance(x, SBytes):
        return SBytes(x.p, cls)
    if isinstance(x, MemView):
        return SBytes(x.p, cls)
    if isinstance(x, SInt):
        if ctx.decide(x.t < 0):
            I.raise_(ValueError, "negative count")
        ctx_alloc(I, x.t)
        return mkbytes(ctx, [Rep(0, x.t)], cls)
    if isinstance(x, SText):
        return SBytes(pieces_of(encode_text(I, x, *args[1:])), cls)
    if isinstance(x, (tuple, SList, SeqV, GenExp)):
        q = I.to_tuple(x)
        if isinstance(q, tuple) and not any(isinstance(y, Sym) for y in q):
            return cls(q)
        if isinstance(q, tuple) and len(q) <= 64:
            ps = []
            for y in q:
                t = term(y)
                if ctx.decide(z3.Or(zint(t) < 0, zint(t) > 255)):
                    I.raise_(ValueError, "bytes must be in range(0, 256)")
                ps.append(W(t, 1))
            return mkbytes(ctx, ps, cls)
    if isinstance(x, Sym):
        raise Unsupported(f"bytes({x!r})")
    try:
        return cls(*args, **kwargs)
    except Exception as e:
        I.raise_(type(e), *e.args)


def m_bytearray(I, args, kwargs):
    return m_bytes(I, args, kwargs, bytearray)


def m_tuple(I, args, kwargs):
    if not args:
        return ()
    x = args[0]
    if isinstance(x, SBytes):
        raise Unsupported("tuple(bytes)")
    return I.to_tuple(x)


class SymSet(Sym):
    """A set of finitely many symbolic elements."""

    def __init__(self, xs, kind=set):
        self.xs, self.pytype_ = xs, kind

    def sym_contains(self, I, x):
        return contains(I, self.xs, x)

    def sym_eq(self, I, o):
        ys = o.xs if isinstance(o, SymSet) else tuple(o) if isinstance(o, (set, frozenset)) else None
        if ys is None:
            return False
        return all(contains(I, ys, x) for x in self.xs) and all(contains(I, self.xs, y) for y in ys)

    def sym_truth(self, I):
        return bool(self.xs)


def m_set(I, args, kwargs, kind=set):
    if not args:
        raise Unsupported("mutable set")
    q = I.to_tuple(args[0])
    if not isinstance(q, tuple):
        raise Unsupported("set of a symbolic sequence")
    return SymSet(q, kind)


def m_frozenset(I, args, kwargs):
    return m_set(I, args, kwargs, frozenset)


def m_list(I, args, kwargs):
    if not args:
        return I.new_list(())
    return I.new_list(I.to_tuple(args[0]))


def m_dict(I, args, kwargs):
    d = I.new_dict()
    if args:
        x = args[0]
        if isinstance(x, SDict):
            I.ctx.put(d.oid, "v", I.list_v(x))
        elif isinstance(x, dict):
            for k, v in dict_items(I, x):
                setitem(I, d, k, v)
        else:
            q = I.to_tuple(x)
            if not isinstance(q, tuple):
                if all(isinstance(p, (tuple, MapSeg)) or isinstance(p, SeqSlice) and isinstance(p.base, MapSeg) for p in (q.parts if isinstance(q, SeqConcat) else [q])):
                    I.ctx.put(d.oid, "v", q)  # entries of one dict
                    q = ()
                else:
                    raise Unsupported("dict() of a symbolic sequence")
            for p in q:
                k, v = I.to_tuple(p)
                setitem(I, d, k, v)
    for k, v in kwargs.items():
        setitem(I, d, k, v)
    return d


def m_sum(I, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    ctx = I.ctx
    if isinstance(args[0], SBytes):
        return binop(I, ast.Add, start, measure(I, args[0], 0, lambda c: c > 0))
    cell = ctx.alloc({"acc": start})
    I.for_each(args[0], lambda x: ctx.put(cell, "acc", binop(I, ast.Add, ctx.heap[cell]["acc"], x)))
    return ctx.heap[cell]["acc"]


class StopX(Exception):
    pass


def any_byte(I, it, want):
    """any/all over the bytes of a byte string, where it comes to comparing it with a constant
    byte repeated."""
    ctx = I.ctx
    src = it.first if isinstance(it, GenExp) and len(it.node.generators) == 1 and not it.node.generators[0].ifs else it
    if not isinstance(src, SBytes):
        return None
    if src is it:
        if not want:
            raise Unsupported("all of a byte string")
        c = 0
    else:
        b = ctx.fresh_int("byte")
        ctx.assume(z3.And(b >= 0, b < 256))
        out = []

        def go():
            fr = FrameObj(ctx.alloc({}), it.frame, it.frame.glob, {}, set(), "<genexpr>")
            fr.self0, fr.yield_cb = it.frame.self0, it.frame.yield_cb
            I.assign(it.node.generators[0].target, SInt(b), fr)
            return "v", I.truth(I.eval(it.node.elt, fr))

        outs = ctx.sub_explore(go)
        for o in outs:
            out.append((z3.And(*o.conds) if o.conds else z3.BoolVal(True), o.value))
        hit = z3.Or(*[f for f, v in out if v == want]) if any(v == want for _, v in out) else z3.BoolVal(False)
        c = next((c for c in (0, 255) if ctx.prove(hit == (b != c))), None)
        if c is None:
            raise Unsupported("a condition on the bytes of a byte string")
    n = rlen(src.p)
    const = binop(I, ast.Mult, bytes([c]), mkint(zint(n)))
    e = equal(I, src, const)
    e = e.t if isinstance(e, SBool) else z3.BoolVal(bool(e))
    return mkbool(z3.Not(e) if want else e)


def m_any(I, args, kwargs, want=True):
    """any / all: exact on concrete sequences; on symbolic ones a quantified fact."""
    ctx = I.ctx
    from .interp import BreakX

    r = any_byte(I, args[0], want)
    if r is not None:
        return r

    def cb(x):
        if I.truth(x) == want:
            raise BreakX()

    try:
        I.for_each(args[0], cb)
    except BreakX:
        return want
    return not want


def m_all(I, args, kwargs):
    return m_any(I, args, kwargs, False)


def m_minmax(which):
    def f(I, args, kwargs):
        ctx = I.ctx
        if kwargs:
            if "key" in kwargs:
                raise Unsupported("min/max with key")
        items = args
        if len(args) == 1 and isinstance(args[0], SBytes) and which is max:
            if not ctx.decide(zint(rlen(args[0].p)) == 0):
                return measure(I, args[0], 0, lambda c: z3.And(c > 0, c < 256))
            items = ()
        elif len(args) == 1:
            items = I.to_tuple(args[0])
            if not isinstance(items, tuple):
                raise Unsupported("min/max of a symbolic sequence")
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            I.raise_(ValueError, "empty")
        r = items[0]
        for x in items[1:]:
            if not isinstance(r, Sym) and not isinstance(x, Sym):
                try:
                    r = which(r, x)
                except TypeError as e:
                    I.raise_(TypeError, *e.args)
            elif is_intish(r) and is_intish(x):
                a, b = zint(r), zint(x)
                c = b < a if which is min else b > a
                if ctx.prove(c):
                    r = x
                elif ctx.prove(z3.Not(c)):
                    pass
                else:
                    r = mkint(z3.If(c, b, a))
            else:
                if I.truth(compare(I, ast.Lt if which is min else ast.Gt, x, r)):
                    r = x
        return r

    return f


def m_range(I, args, kwargs):
    if len(args) == 1:
        lo, hi = 0, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        if not any(isinstance(a, Sym) for a in args):
            return range(*args)
        raise Unsupported("range with a step")
    if not is_intish(lo) or not is_intish(hi):
        I.raise_(TypeError, "range() integer argument expected")
    if not isinstance(lo, Sym) and not isinstance(hi, Sym):
        if hi - lo > 5000:
            return SRange(lo, hi)
        return range(lo, hi)
    if not I.ctx.prove(zint(term(lo)) <= zint(term(hi))) and I.ctx.decide(zint(term(lo)) > zint(term(hi))):
        return range(0)
    return SRange(term(lo), term(hi))


def m_abs(I, args, kwargs):
    (x,) = args
    if isinstance(x, SInt):
        return mkint(z3.If(x.t >= 0, x.t, -x.t))
    if isinstance(x, SDec):
        return dec_round(I, z3.If(x.t >= 0, x.t, -x.t))
    if isinstance(x, decimal.Decimal):
        return unop(I, ast.UAdd, x if x >= 0 else x.copy_negate())
    if isinstance(x, Sym):
        raise Unsupported("abs")
    return abs(x)


def m_divmod(I, args, kwargs):
    return (binop(I, ast.FloorDiv, *args), binop(I, ast.Mod, *args))


def m_pow(I, args, kwargs):
    if len(args) == 2:
        return binop(I, ast.Pow, *args)
    raise Unsupported("pow")


def m_iter(I, args, kwargs):
    x = args[0]
    if len(args) != 1:
        raise Unsupported("iter() with a sentinel")
    if isinstance(x, (GenExp, GenObj, Lazy)):
        return x
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__iter__")
        if f is None:
            I.raise_(TypeError, "not iterable")
        return I.call(BoundMethod(f, x))
    if I.as_seq(x) is None:
        raise Unsupported(f"iter({x!r})")
    return Lazy("iter", (x,), I.ctx)


def m_next(I, args, kwargs):
    src, ctx = args[0], I.ctx
    from .interp import BreakX

    def end():
        if len(args) > 1:
            return args[1]
        I.raise_(StopIteration)

    if isinstance(src, Lazy) and src.kind == "iter" and src.once is not None:
        r = ctx.rec(src.once)
        if r["used"] == "up":
            return end()
        if r["used"] != "no":
            raise Unsupported("iterator used again after a part of it was consumed")
        q = I.as_seq(src.args[0])
        n, pos = seq_len(q), r["pos"]
        if not (pos < n if isinstance(n, int) and isinstance(pos, int) else ctx.decide(zint(pos) < zint(n))):
            ctx.put(src.once, "used", "up")
            return end()
        ctx.put(src.once, "pos", tsimp(zint(pos) + 1))
        return seq_get(I, q, pos)
    if isinstance(src, (GenExp, GenObj, Lazy)):
        cell = ctx.alloc({"x": None})

        def cb(x):
            ctx.put(cell, "x", x)
            raise BreakX()

        try:
            I.for_each(src, cb)
        except BreakX:
            return ctx.heap[cell]["x"]
        return end()
    raise Unsupported("next()")


def m_sorted(I, args, kwargs):
    q = I.to_tuple(args[0])
    if isinstance(q, tuple) and not any(isinstance(x, Sym) for x in q) and not kwargs:
        return I.new_list(tuple(sorted(q)))
    raise Unsupported("sorted")


def m_join(I, args, kwargs):
    sep, it = args
    ctx = I.ctx
    if isinstance(sep, (bytes, bytearray)):
        cell = ctx.alloc({"acc": b"", "first": True})
        if len(sep):
            q = I.to_tuple(it)
            if not isinstance(q, tuple):
                raise Unsupported("join with separator")
            ps = []
            for k, x in enumerate(q):
                if k:
                    ps.append(Lit(sep))
                ps += pieces_of(x)
            return mkbytes(ctx, ps)

        def cb(x):
            if not isinstance(x, (SBytes, bytes, bytearray)):
                if isinstance(x, (AbsVal,)):
                    raise Unsupported("join of an abstract value")
                I.raise_(TypeError, "sequence item: expected a bytes-like object")
            acc = ctx.heap[cell]["acc"]
            ctx.put(cell, "acc", mkbytes_noconcat(ctx, pieces_of(acc), pieces_of(x)))

        # join materialises its argument first
        q = I.to_tuple(it)
        I.for_each(q, cb)
        acc = ctx.heap[cell]["acc"]
        return mkbytes(ctx, pieces_of(acc))
    if isinstance(sep, str):
        q = I.to_tuple(it)
        if isinstance(q, tuple):
            for x in q:
                if not I.isinstance(x, str):
                    I.raise_(TypeError, "sequence item: expected str instance")
            if not any(isinstance(x, Sym) for x in q):
                return sep.join(q)
        return join_text(I, sep, q)
    raise Unsupported("join")


def join_text(I, sep, q):
    """str.join of a sequence of texts; untracked content gives untracked content"""
    ctx = I.ctx
    if isinstance(q, tuple):
        ps = []
        for k, x in enumerate(q):
            t = core.text_pieces(x)
            if t is None:
                return OpaqueText()
            ps += ([Lit(sep.encode())] if k and sep else []) + t
        return core.mkstr(ctx, ps)
    if not ctx.texts:
        return OpaqueText()
    head = []
    if sep:
        n = seq_len(q)
        if ctx.decide(zint(n) <= 0):
            return ""
        head = core.text_pieces(seq_get(I, q, 0))
        q = seq_cut(I, q, 1, n)
    cell = ctx.alloc({"acc": b""})

    def cb(x):
        t = core.text_pieces(x)
        if t is None:
            raise Unsupported("join of untracked text")
        acc = ctx.heap[cell]["acc"]
        ctx.put(cell, "acc", mkbytes_noconcat(ctx, pieces_of(acc), ([Lit(sep.encode())] if sep else []) + t))

    I.for_each(q, cb)
    if head is None:
        raise Unsupported("join of untracked text")
    return core.mkstr(ctx, head + pieces_of(ctx.heap[cell]["acc"]))


def mkbytes_noconcat(ctx, a, b):
    """Concatenation that keeps the pieces of a untouched (so that loops see the suffix)."""
    ps = list(a) + norm(ctx, b)
    if not ps:
        return b""
    return SBytes(ps)


def m_zip(I, args, kwargs):
    args = bound_endless(I, args)
    if kwargs.get("strict"):
        qs = [I.as_seq(a) for a in args]
        if any(q is None for q in qs):
            raise Unsupported("zip strict")
        n0 = seq_len(qs[0])
        for q in qs[1:]:
            if not I.ctx.decide(zint(seq_len(q)) == zint(n0)):
                # raises after the common prefix; callers of strict zip get the error
                I.raise_(ValueError, "zip() arguments have different lengths")
    return Lazy("zip", tuple(args), I.ctx)


def m_accumulate(I, args, kwargs):
    func = args[1] if len(args) > 1 else kwargs.get("func")
    if func is operator.add:
        func = None
    return Lazy("accumulate", (args[0], func, kwargs.get("initial")), I.ctx)


def m_deccls(I, args, kwargs):
    x = args[0] if args else 0
    if isinstance(x, (SInt, SBool)):
        t = zint(x)
        return SDec(z3.ToReal(t), (t, 0), neg=z3.BoolVal(False))
    if isinstance(x, SDec):
        return x
    if isinstance(x, Sym):
        if isinstance(x, (SText, OpaqueText, SeqV)):
            raise Unsupported("Decimal(text)")
        I.raise_(TypeError)
    try:
        return decimal.Decimal(*args)
    except Exception as e:
        I.raise_(type(e), *e.args)


def m_codecs_encode(I, args, kwargs):
    s = args[0]
    enc = args[1] if len(args) > 1 else kwargs.get("encoding", "utf-8")
    errors = args[2] if len(args) > 2 else kwargs.get("errors", "strict")
    if isinstance(s, SText):
        return encode_text(I, s, enc, errors)
    if isinstance(s, str):
        try:
            return codecs.encode(s, enc, errors)
        except Exception as e:
            I.raise_(type(e), *e.args)
    if isinstance(s, Sym) and not isinstance(s, (SInt, SOpaque, SBytes)):
        raise Unsupported("codecs.encode")
    I.raise_(TypeError)


def m_deepcopy(I, args, kwargs):
    x = args[0]
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__deepcopy__")
        if f is not None:
            return I.call(BoundMethod(f, x), (args[1] if len(args) > 1 else I.new_dict(),))
    if isinstance(x, (SInt, SBool, SBytes, SDec, Closure, Model)) or isinstance(x, (int, str, bytes, type(None), type, types.FunctionType)):
        return x
    raise Unsupported(f"deepcopy of {x!r}")


def m_copy(I, args, kwargs):
    (x,) = args
    if isinstance(x, SDict):
        return I.new_dict(I.list_v(x))
    if isinstance(x, SList):
        return I.new_list(I.list_v(x))
    if isinstance(x, SObj):
        f = I.find_attr(x.cls, "__copy__")
        if f is not None:
            return I.call(BoundMethod(f, x))
        return SObj(x.cls, I.ctx.alloc(dict(I.ctx.rec(x.oid))))
    if isinstance(x, (SeqV, SInt, SBool, SBytes, SDec, Closure, BoundMethod, Model)) or isinstance(x, (int, str, bytes, tuple, type(None), type, types.FunctionType)):
        return x
    h = getattr(x, "sym_copy", None) if isinstance(x, Sym) else None
    if h is not None:
        return h(I)
    raise Unsupported(f"copy of {x!r}")


class CacheObj(Sym):
    """functools.cache(fn): entries live in the heap.  rec["any"]: it may also hold entries from
    before.  watch: snapshot of what the entries depend on (kept with each entry)."""

    def __init__(self, fn, oid):
        self.fn, self.oid, self.watch = fn, oid, None

    def sym_getattr(self, I, name):
        if name == "cache_clear":
            return Model(self.clear, "cache_clear")
        if name == "__wrapped__":
            return self.fn
        raise Unsupported(f"cache.{name}")

    def clear(self, I, a, k):
        I.ctx.put(self.oid, "entries", ())
        I.ctx.put(self.oid, "any", False)

    def sym_callable(self, I):
        return True

    def sym_truth(self, I):
        return True

    def sym_call(self, I, args, kwargs):
        key = (tuple(args), tuple(kwargs.items()))
        if I.ctx.rec(self.oid)["any"]:
            raise Unsupported("call of a cache of unknown content")
        for k, v, _ in I.ctx.rec(self.oid)["entries"]:
            if len(k[0]) == len(key[0]) and [n for n, _ in k[1]] == [n for n, _ in key[1]]:
                vals = list(k[0]) + [x for _, x in k[1]]
                vals2 = list(key[0]) + [x for _, x in key[1]]
                if all(same_val(a, b) or I.truth(equal(I, a, b)) for a, b in zip(vals, vals2)):
                    return v
        for a in list(args) + list(kwargs.values()):
            hash_key(I, a)
        v = I.call(self.fn, args, kwargs)
        w = self.watch(I.ctx) if self.watch else None
        I.ctx.put(self.oid, "entries", I.ctx.rec(self.oid)["entries"] + ((key, v, w),))
        return v


def m_cache(I, args, kwargs):
    return CacheObj(args[0], I.ctx.alloc({"entries": (), "any": False}))


def m_lru_cache(I, args, kwargs):
    if args and not isinstance(args[0], (int, type(None))):
        raise Unsupported("bounded lru_cache")
    ms = args[0] if args else kwargs.get("maxsize", 128)
    if ms is not None:
        raise Unsupported("bounded lru_cache")
    return Model(lambda I, a, k: m_cache(I, a, k))


def m_wraps(I, args, kwargs):
    return Model(lambda I, a, k: a[0])


def m_cast(I, args, kwargs):
    return args[1]


def m_object_repr(I, args, kwargs):
    return OpaqueText()


def m_partial(I, args, kwargs):
    f, a0, k0 = args[0], args[1:], dict(kwargs)

    def run(I, a, k):
        kk = dict(k0)
        kk.update(k)
        return I.call(f, a0 + a, kk)

    return Model(run, "partial")


TYPE_MODELS = {
    int: m_int, bool: m_bool, bytes: m_bytes, bytearray: m_bytearray, tuple: m_tuple, list: m_list, dict: m_dict, str: m_str,
    type: m_type, range: m_range, zip: m_zip, decimal.Decimal: m_deccls,
    map: lambda I, a, k: Lazy("map", a[:1] + tuple(bound_endless(I, a[1:])), I.ctx),
    filter: lambda I, a, k: Lazy("filter", a, I.ctx),
    enumerate: lambda I, a, k: Lazy("enumerate", (a[0], a[1] if len(a) > 1 else k.get("start", 0)), I.ctx),
    reversed: lambda I, a, k: Lazy("reversed", a, I.ctx),
    itertools.accumulate: m_accumulate,
    itertools.repeat: m_repeat,
    itertools.count: m_count,
    itertools.chain: lambda I, a, k: Lazy("chain", a, I.ctx),
    functools.partial: m_partial, contextlib._GeneratorContextManager: m_gencm, contextlib.suppress: m_suppress,
    object: lambda I, a, k: SOpaque("object"),
    memoryview: lambda I, a, k: MemView(pieces_of(a[0])),
}

FN_MODELS = {
    re.sub: m_re("sub"), re.match: m_re("match"), re.fullmatch: m_re("fullmatch"), re.search: m_re("search"),
    len: m_len, hash: m_hash, set: m_set, frozenset: m_frozenset, isinstance: m_isinstance, issubclass: m_issubclass, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    callable: m_callable, repr: m_repr, sum: m_sum, any: m_any, all: m_all, min: m_minmax(min), max: m_minmax(max), abs: m_abs,
    divmod: m_divmod, pow: m_pow, next: m_next, sorted: m_sorted, iter: m_iter,
    int.from_bytes: m_from_bytes, codecs.encode: m_codecs_encode, decimal.localcontext: m_localcontext,
    decimal.getcontext: m_getcontext, decimal.setcontext: m_setcontext, _copy.copy: m_copy, _copy.deepcopy: m_deepcopy,
    functools.cache: m_cache, functools.lru_cache: m_lru_cache, functools.wraps: m_wraps, __import__("typing").cast: m_cast,
    io.BytesIO.__init__: bio_init, io.BytesIO.read: bio_read, io.BytesIO.seek: bio_seek, io.BytesIO.tell: bio_tell,
    io.BytesIO.getbuffer: bio_getbuffer, io.BytesIO.getvalue: bio_getvalue, object.__repr__: m_object_repr,
    object.__init__: lambda I, a, k: None,
}
KEEP = list(FN_MODELS)


def fn_model(f):
    try:
        return FN_MODELS.get(f)
    except TypeError:
        return None


PURE_MODULES = {"re", "operator", "math", "builtins", "collections", "itertools", "eth_typing", "typing", "sys", "string", "numbers", "parsimonious", "abc", "_decimal", "decimal"}


def plain(x, d=0):
    if isinstance(x, Sym):
        return False
    if isinstance(x, (tuple, list)):
        return d < 6 and all(plain(y, d + 1) for y in x)
    return True


CONTEXT_OPS = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "divide_int": ast.FloorDiv, "remainder": ast.Mod, "power": ast.Pow, "scaleb": None, "to_integral_value": None, "quantize": None}


def call_native(I, f, args, kwargs):
    m = fn_model(f)
    if m is not None:
        return m(I, args, kwargs)
    # bound builtin methods: of native objects with symbolic arguments
    self = getattr(f, "__self__", None)
    name = getattr(f, "__name__", "")
    if self is not None and not isinstance(self, types.ModuleType):
        if name == "join" and isinstance(self, (bytes, str)):
            return m_join(I, (self,) + args, kwargs)
        if name in ("rjust", "ljust") and isinstance(self, (bytes, bytearray)) and args and isinstance(args[0], Sym):
            return justify(I, self, name, *args)
        if name == "format" and isinstance(self, str):
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, SInt):
                    int_to_text(I, a)
            if not (plain(args) and plain(tuple(kwargs.values()))):
                return OpaqueText()
        if isinstance(self, (int,)) and name == "to_bytes" and not plain(args):
            return int_to_bytes(I, self, *args, **kwargs)
        if self is int and name == "from_bytes":
            return m_from_bytes(I, args, kwargs)
        if isinstance(self, dict) and name == "get" and not plain(args):
            for k, v in self.items():
                if I.truth(equal(I, k, args[0])):
                    return v
            return args[1] if len(args) > 1 else None
        if name == "from_iterable" and self is itertools.chain:
            return Lazy("chain", I.to_tuple(args[0]), I.ctx)
        if isinstance(self, decimal.Context) and CONTEXT_OPS.get(name) and len(args) == 2 and not kwargs and not plain(args):
            old = dec_ctx(I)
            set_dec_ctx(I, self)
            try:
                return dec_binop(I, CONTEXT_OPS[name], *args)
            finally:
                set_dec_ctx(I, old)
        if isinstance(self, re.Pattern):
            for a in args:
                h = getattr(a, "sym_re", None) if isinstance(a, Sym) else None
                if h is not None:
                    return h(I, self, name, args, kwargs)
        if isinstance(self, re.Pattern) and args and isinstance(args[0], (SText, OpaqueText, NormAddr)):
            raise Unsupported("regular expression on symbolic text")
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        cls = f.__objclass__
        if args and isinstance(args[0], Sym):
            if cls in (str, bytes) and f.__name__ == "join":
                return m_join(I, args, kwargs)
            if cls in (int, bytes, str, list, dict, bool, bytearray):
                return call_method(I, args[0], f.__name__, args[1:], kwargs)
            if cls is object and f.__name__ in ("__repr__", "__str__"):
                return OpaqueText()
            if cls is object and f.__name__ == "__setattr__":
                I.ctx.put(args[0].oid, args[1], args[2])
                return None
            raise Unsupported(f"{f!r}")
        if cls in (str, bytes) and f.__name__ == "join":
            return m_join(I, args, kwargs)
    if plain(args) and plain(tuple(kwargs.values())):
        mod = (getattr(f, "__module__", None) or "").split(".")[0]
        if self is not None and not isinstance(self, types.ModuleType):
            mod = type(self).__module__.split(".")[0]
        if mod in PURE_MODULES or mod in ("", "None") or isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, types.MethodWrapperType)):
            if isinstance(self, decimal.Decimal) or isinstance(self, decimal.Context):
                c = self if isinstance(self, decimal.Context) else dec_ctx(I)
                if name in CONTEXT_OPS and isinstance(c, decimal.Context):
                    with decimal.localcontext(c):
                        try:
                            return getattr(decimal.getcontext(), name)(*args, **kwargs) if isinstance(self, decimal.Context) else f(*args, **kwargs)
                        except decimal.DecimalException as e:
                            I.raise_(type(e), *e.args)
                if name not in ("is_nan", "is_infinite", "is_finite", "is_signed", "is_zero", "is_snan", "is_qnan", "as_tuple", "adjusted", "copy_abs", "copy_negate", "as_integer_ratio"):
                    raise Unsupported(f"decimal method {name}")
            if isinstance(self, (list, dict, set, bytearray)) and name in ("append", "extend", "pop", "update", "add", "clear", "remove", "insert", "setdefault", "popitem", "sort", "reverse", "discard"):
                raise Unsupported("mutation of a module-level object")
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyExc(ExcVal(type(e), e.args))
    raise Unsupported(f"call of {f!r} with symbolic arguments")


# ------------------------------------------------------------ assumed contracts (dependencies)
def c_is_address(I, args, kwargs):
    (v,) = args
    if isinstance(v, SText):
        return mkbool(v.hexaddr())
    if isinstance(v, SBytes):
        return mkbool(zint(rlen(v.p)) == 20)
    if isinstance(v, (NormAddr,)):
        return True
    if isinstance(v, AbsVal):
        raise Unsupported("is_address of an abstract value")
    if isinstance(v, Sym):
        return False
    return eth_utils.is_address(v)


def c_to_canonical(I, args, kwargs):
    (v,) = args
    ctx = I.ctx
    if isinstance(v, SText):
        if not ctx.decide(v.hexaddr()):
            I.raise_(ValueError, "Unknown format")
        return mkbytes(ctx, [W(v.addrval(ctx), 20)])
    if isinstance(v, SBytes):
        if not ctx.decide(zint(rlen(v.p)) == 20):
            I.raise_(ValueError, "Unknown format")
        return SBytes(v.p, bytes)
    if isinstance(v, Sym):
        raise Unsupported("to_canonical_address")
    try:
        return eth_utils.to_canonical_address(v)
    except Exception as e:
        raise PyExc(ExcVal(type(e), e.args))


def c_to_normalized(I, args, kwargs):
    (v,) = args
    ctx = I.ctx
    if isinstance(v, SBytes):
        if not ctx.decide(zint(rlen(v.p)) == 20):
            I.raise_(ValueError, "Unknown format")
        return NormAddr(to_int(ctx, SBytes(core.norm(ctx, v.p))))
    if isinstance(v, SText):
        if not ctx.decide(v.hexaddr()):
            I.raise_(ValueError, "Unknown format")
        return NormAddr(v.addrval(ctx))
    if isinstance(v, Sym):
        raise Unsupported("to_normalized_address")
    try:
        return eth_utils.to_normalized_address(v)
    except Exception as e:
        raise PyExc(ExcVal(type(e), e.args))


CONTRACTS = {
    id(eth_utils.is_address): c_is_address,
    id(eth_utils.to_canonical_address): c_to_canonical,
    id(eth_utils.to_normalized_address): c_to_normalized,
}


def _register():
    # identity-keyed, for functions that are python level
    for f, m in FN_MODELS.items():
        if isinstance(f, types.FunctionType):
            CONTRACTS[id(f)] = m


_register()
