"""Contracts of the compound coders over abstract components.

A component is only known through the coder interface contract (the induction hypothesis over
the nesting of types): dyn(c) whether it is dynamic, dom(c, x) whether x is encodable,
E(c, x) the bytes of its encoding (length elen(c, x)), canon(c, x) what decoding them gives,
ok(c, p) / val(c, p) the outcome of decoding at position p of given data, hs(c) the width of
its head slot.  The number of components and all lengths are unbounded.
"""
from decimal import Decimal

from .base import *  # noqa: F401,F403
from .base import DecodingError, EncodingError, M, attempt, beq, register, veq
from .leaf import blob_piece, stream, word

import eth_abi.codec as C
import eth_abi.decoding as D
import eth_abi.encoding as E

INT, BOOL, V = z3.IntSort(), z3.BoolSort(), M.V
LIM = 2**61


class CustomErr(Exception):
    """What a custom coder may raise besides the library's errors."""


def F(name, *sorts):
    return z3.Function(name, *sorts)


def dyn(c):
    return F("dyn", INT, BOOL)(zint(c))


def dom(c, x):
    return F("dom", INT, V, BOOL)(zint(c), x)


def elen(ctx, c, x):
    n = F("elen", INT, V, INT)(zint(c), x)
    ctx.fact(("elen", n.get_id()), z3.And(n >= 0, n < LIM))
    return n


def item(i):
    return F("item", INT, V)(zint(i))


def eblob(ctx, c, x):
    n = elen(ctx, c, x)
    b = Blob("E", (zint(c), x), n, info=("E", zint(c), x))
    return A(b, z3.IntVal(0), n)


class AbsEnc(Sym):
    """An encoder known by its contract.  plain(c): a plain callable."""

    def __init__(self, c, custom=False):
        self.c, self.custom = zint(c), custom

    def plain(self):
        return F("plain", INT, BOOL)(self.c)

    def is_plain(self, I):
        if not self.custom:
            return False
        self.noattr_fact(I)
        return I.ctx.decide(self.plain())

    def noattr_fact(self, I):
        na = F("noattr", INT, BOOL)(self.c)
        I.ctx.fact(("noattr", na.get_id()), z3.Implies(na, self.plain()))
        return na

    def sym_getattr(self, I, name):
        ctx = I.ctx
        if name == "is_dynamic":
            if self.custom and ctx.decide(self.noattr_fact(I)):
                ctx.assume(z3.Not(dyn(self.c)))
                I.raise_(AttributeError, name)
            return mkbool(dyn(self.c))
        if name == "validate_value":
            if self.is_plain(I):
                I.raise_(AttributeError, name)
            return Model(self.validate)
        if name == "encode":
            if self.is_plain(I):
                I.raise_(AttributeError, name)
            return Model(lambda I, a, k: self.sym_call(I, a, k))
        raise Unsupported(f"attribute {name} of a component encoder")

    def sym_setattr(self, I, name, v):
        raise Unsupported("assignment to a component encoder")

    def sym_callable(self, I):
        return True

    def sym_truth(self, I):
        return True

    def sym_isinstance(self, I, T):
        if T is object:
            return True
        if isinstance(T, type) and T in (E.BaseEncoder, E.BaseCoder):
            return not self.is_plain(I)
        raise Unsupported(f"isinstance of a component encoder with {T}")

    def sym_is(self, I, o):
        if o is None or isinstance(o, (bool, type)):
            return False
        raise Unsupported("identity of a component encoder")

    def refuse(self, I, x):
        if self.custom and I.ctx.decide(F("cust", INT, V, BOOL)(self.c, x)):
            I.raise_(CustomErr)
        I.raise_(EncodingError)

    def arg(self, I, args, kwargs):
        vs = list(args) + list(kwargs.values())
        if len(vs) != 1 or not isinstance(vs[0], M.AbsVal):
            raise Unsupported("component encoder called with something else than an item")
        return vs[0].t

    def validate(self, I, args, kwargs):
        x = self.arg(I, args, kwargs)
        if not I.ctx.decide(dom(self.c, x)):
            self.refuse(I, x)
        return None

    def sym_call(self, I, args, kwargs):
        x = self.arg(I, args, kwargs)
        ctx = I.ctx
        if not ctx.decide(dom(self.c, x)):
            self.refuse(I, x)
        p = eblob(ctx, self.c, x)
        return mkbytes(ctx, [p])


def exists(ctx, n, body):
    """Formula-free existence proof: the negation, for all indices, contradicts the path."""
    ctx.solver.push()
    nf = len(ctx.foralls)
    once, ctx.once = ctx.once, ctx.once + [set()]
    facts = list(ctx.fr.facts)
    pc, ctx.pcache = ctx.pcache, {}
    try:
        j = z3.Int("ex.j")
        ctx.add_forall(Forall(0, n, j, z3.Not(body(j))))
        ctx.inst(ctx.foralls[-1], z3.IntVal(0))
        return ctx.raw_check() == z3.unsat
    finally:
        ctx.solver.pop()
        del ctx.foralls[nf:]
        ctx.once = once
        ctx.fr.facts = facts
        ctx.pcache = pc


def forall_goal(ctx, n, body):
    """Proof obligation: body(k) for a generic 0 <= k < n."""
    k = ctx.fresh_int("k")
    ctx.solver.push()
    ni, nf = len(ctx.idx), len(ctx.foralls)
    once, ctx.once = ctx.once, ctx.once + [set()]
    facts = list(ctx.fr.facts)
    pc, ctx.pcache = ctx.pcache, {}
    try:
        ctx.solver.add(k >= 0, k < zint(n))
        ctx.add_index(k)
        return ctx.prove(body(k))
    finally:
        ctx.solver.pop()
        del ctx.idx[ni:]
        ctx.once = once
        ctx.fr.facts = facts
        ctx.pcache = pc


def fresh_len(ctx, name):
    n = ctx.fresh_int(name)
    ctx.assume(z3.And(n >= 0, n < LIM))
    return n


VKINDS = ["list", "tuple", "int", "none", "bytes", "text", "opaque", "bool"]


def value(I, kind, m):
    ctx = I.ctx
    q = SymSeq(m, lambda i: M.AbsVal(item(i)))
    if kind == "list":
        return I.new_list(q)
    if kind == "tuple":
        return q
    if kind == "int":
        return SInt(ctx.fresh_int("x"))
    if kind == "bool":
        return SBool(ctx.fresh_bool("b"))
    if kind == "none":
        return None
    if kind == "bytes":
        n = fresh_len(ctx, "bn")
        return mkbytes(ctx, [A(Blob("val", (), n), z3.IntVal(0), n)])
    if kind == "text":
        return M.SText(ctx.fresh("txt", M.V))
    return SOpaque("opaque")


def layout(ctx, n, comp):
    """Spec of the head/tail layout: comp(i) is the component of item i."""
    def head(i):
        i = zint(i)
        c = zint(comp(i))
        if ctx.decide(dyn(c)):
            return [W(tsimp(zint(H) + zint(T.at(i))), 32)]
        return [eblob(ctx, c, item(i))]

    def tail(i):
        i = zint(i)
        c = zint(comp(i))
        return [eblob(ctx, c, item(i))] if ctx.decide(dyn(c)) else []

    hl = ctx.psum(n, lambda i: rlen_(head_len(ctx, comp, i)))
    T = ctx.psum(n, lambda i: tail_len(ctx, comp, i))
    H = hl.at(n)
    return [Big(n, head, hl), Big(n, tail, T)], H, T, hl


def rlen_(x):
    return x


def head_len(ctx, comp, i):
    i = zint(term(i))
    c = zint(comp(i))
    return 32 if ctx.decide(dyn(c)) else mkint(elen(ctx, c, item(i)))


def tail_len(ctx, comp, i):
    i = zint(term(i))
    c = zint(comp(i))
    return mkint(elen(ctx, c, item(i))) if ctx.decide(dyn(c)) else 0


def concat(ctx, n, comp):
    ps = ctx.psum(n, lambda i: mkint(elen(ctx, zint(comp(zint(term(i)))), item(term(i)))))
    return [Big(n, lambda i: [eblob(ctx, zint(comp(zint(i))), item(i))], ps)]


def size_bound(ctx, pieces):
    ctx.assume(zint(rlen(pieces)) < LIM)


# ------------------------------------------------------------------ encoders
def outcome_contract(R, I, nm, k, v, kind, m, n, comp, custom):
    """Accepted iff list-like, of the right length, all items in the domain."""
    ctx = I.ctx
    if kind not in ("list", "tuple"):
        R.ensure("C04 C05", nm + "values that are not sequences are refused", k == "exc")
        if k == "exc":
            R.ensure("C04 C05", nm + "refusal is an EncodingError", issubclass(v, EncodingError))
        return False
    body = lambda j: dom(comp(j), item(j))
    if k == "ok":
        R.cover(nm + "ok")
        R.ensure("C04", nm + "number of items", zint(m) == zint(n))
        if R.wants("C04"):
            R.ensure("C04", nm + "all items are in the domain", forall_goal(ctx, m, body))
        return True
    R.cover(nm + "refused")
    if ctx.decide(zint(m) == zint(n)):
        R.ensure("C04 C01 C02 C03 C17", nm + "refused only if some item is outside of its domain", exists(ctx, n, lambda j: z3.Not(body(j))))
        if custom and issubclass(v, CustomErr):
            R.ensure("C17", nm + "errors of custom coders are theirs", exists(ctx, n, lambda j: z3.And(z3.Not(body(j)), F("cust", INT, V, BOOL)(comp(j), item(j)))))
            return False
    elif custom and issubclass(v, CustomErr):
        return False
    R.ensure("C04 C05 C17", nm + "refusal is an EncodingError", issubclass(v, EncodingError))
    return False


def run_enc(R, p):
    shape, custom = p["shape"], p["custom"]
    for kind in VKINDS if not custom and R.wants("C04 C05") else ["list", "tuple"]:
        def body(I, kind=kind):
            ctx = I.ctx
            m = fresh_len(ctx, "m")  # number of items of the value
            comp = (lambda j: j) if shape == "tuple" else (lambda j: z3.IntVal(0))
            n = m
            if shape == "tuple":
                n = fresh_len(ctx, "n")
                encs = SymSeq(n, lambda i: AbsEnc(i, custom))
                enc = I.call(E.TupleEncoder, (), {"encoders": I.new_list(encs) if p.get("aslist") else encs})
            else:
                it = AbsEnc(0, custom)
                if shape in ("sized", "packed-sized"):
                    n = ctx.fresh_int("n")
                    ctx.assume(z3.And(n >= 1, n < LIM))
                    cls = E.SizedArrayEncoder if shape == "sized" else E.PackedArrayEncoder
                    enc = I.call(cls, (), {"array_size": SInt(n), "item_encoder": it})
                else:
                    cls = E.DynamicArrayEncoder if shape == "dynamic" else E.PackedArrayEncoder
                    enc = I.call(cls, (), {"item_encoder": it})
                if shape.startswith("packed"):
                    ctx.assume(z3.Not(dyn(z3.IntVal(0))))
            nm = f"{shape} {kind}: "
            if R.wants("C12 C02 C17"):
                d = I.getattr(enc, "is_dynamic")
                d = I.truth(d)
                if shape == "tuple":
                    if d:
                        R.ensure("C12 C02 C17", nm + "dynamic only if a component is", exists(ctx, n, lambda j: dyn(j)))
                    else:
                        R.ensure("C12 C02 C17", nm + "dynamic if a component is", forall_goal(ctx, n, lambda j: z3.Not(dyn(j))))
                else:
                    want = {"dynamic": z3.BoolVal(True), "sized": dyn(z3.IntVal(0))}.get(shape, z3.BoolVal(False))
                    R.ensure("C12 C02 C17", nm + "dynamic flag", want == z3.BoolVal(d))
            if not R.wants("C01 C02 C03 C04 C05 C17"):
                R.cover(nm + "ok")
                return
            if shape != "tuple":
                ctx.decide(dyn(z3.IntVal(0)))
            ps = concat(ctx, n, comp) if shape.startswith("packed") else layout(ctx, n, comp)[0]
            size_bound(ctx, ps)
            val = value(I, kind, m)
            if R.wants("C05"):
                k2, v2 = attempt(I, I.getattr(enc, "validate_value"), val)
            if kind in ("list", "tuple") or R.wants("C04"):
                if kind not in ("list", "tuple"):
                    # the caller validates before it encodes
                    k, v = attempt(I, I.getattr(enc, "validate_value"), val)
                else:
                    k, v = attempt(I, enc, val)
                fine = outcome_contract(R, I, nm, k, v, kind, m, n, comp, custom)
            else:
                k, v, fine = k2, v2, False
            if R.wants("C05"):
                R.ensure("C05", nm + "validate_value agrees with encode", k == k2)
                if k == k2 == "exc":
                    R.ensure("C05", nm + "same kind of refusal", issubclass(v2, EncodingError) == issubclass(v, EncodingError))
                    if not custom:
                        R.ensure("C05", nm + "refusal is an EncodingError", issubclass(v2, EncodingError))
            if not fine or not R.wants("C01 C02 C03 C17"):
                return
            if not ctx.prove(zint(m) == zint(n)):
                return
            if shape.startswith("packed"):
                R.ensure("C03 C17", nm + "bytes are the concatenation", lambda: beq(ctx, v, ps))
                return
            pre = [W(n, 32)] if shape == "dynamic" else []
            R.ensure("C01 C02 C17" + (" C03" if shape == "tuple" else ""), nm + "bytes are the head/tail layout", lambda: beq(ctx, v, pre + ps))

        R.explore(body)


register("compound-encoder", "C01 C02 C03 C04 C05 C12 C17", lambda tier, prop: [
    {"shape": s, "custom": c, "aslist": a}
    for s in (["tuple", "sized", "dynamic"] if prop not in ("C03",) else ["tuple"]) + (["packed", "packed-sized"] if prop in ("C03", "C04", "C05", "C17") else [])
    for c in ([False, True] if prop in ("C05", "C17") else [False]) for a in ([False, True] if s == "tuple" else [False])], run_enc, limit=120, boundable=True)
