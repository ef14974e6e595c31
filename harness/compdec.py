"""Contracts of the compound decoders over abstract components.

The data is an arbitrary byte string of unbounded length.  A component decoder is known by its
contract only: ok(c, p) whether it decodes at position p, val(c, p) what it returns there,
hs(c) the number of bytes a component that is not dynamic consumes.  A dynamic component must be
called in its own frame (cursor == total offset); it may leave the cursor anywhere but leaves
the frames as they were.
"""
from .base import *  # noqa: F401,F403
from .base import DecodingError, M, attempt, register, veq
from .comp import BOOL, CustomErr, F, INT, LIM, V, dyn, exists, forall_goal, fresh_len
from .leaf import blob_piece, stream

import eth_abi.decoding as D


def ok(c, p):
    return F("ok", INT, INT, BOOL)(zint(c), zint(p))


def val(c, p):
    return F("val", INT, INT, V)(zint(c), zint(p))


def hs(c):
    return F("hs", INT, INT)(zint(c))


class World:
    """The data and the ghost state of one run."""

    def __init__(self, I, R, custom):
        self.R, self.custom, ctx = R, custom, I.ctx
        self.d = blob_piece(ctx, "data")
        self.L = self.d.n
        self.ghost = ctx.alloc({"calls": 0})

    def word(self, ctx, p):
        v = self.d.blob.fn("be32", 1, INT)(tsimp(zint(p)))
        ctx.fact(("be", v.get_id()), z3.And(v >= 0, v < 2**256))
        return v

    def wterm(self, p):
        return self.d.blob.fn("be32", 1, INT)(zint(p))

    def axioms(self, ctx, c):
        c = zint(c)
        h = hs(c)
        if self.custom:
            ctx.fact(("hs", h.get_id()), z3.And(h >= 0, h < LIM))
        else:
            ctx.fact(("hs", h.get_id()), z3.And(h >= 32, h < LIM))
        return h


class AbsDec(Sym):
    def __init__(self, w, c):
        self.w, self.c = w, zint(c)

    def plain(self, I):
        if not self.w.custom:
            return False
        self.noattr_fact(I)
        return I.ctx.decide(F("plain", INT, BOOL)(self.c))

    def noattr_fact(self, I):
        na = F("noattr", INT, BOOL)(self.c)
        I.ctx.fact(("noattr", na.get_id()), z3.Implies(na, F("plain", INT, BOOL)(self.c)))
        return na

    def noattr(self, I):
        """a plain callable without the is_dynamic attribute"""
        return self.w.custom and I.ctx.decide(self.noattr_fact(I))

    def sym_getattr(self, I, name):
        ctx = I.ctx
        if name == "is_dynamic":
            if self.noattr(I):
                ctx.assume(z3.Not(dyn(self.c)))
                I.raise_(AttributeError, name)
            return mkbool(dyn(self.c))
        if name == "decode" and not self.plain(I):
            return Model(lambda I, a, k: self.sym_call(I, a, k))
        if name in ("decode", "strict") and self.plain(I):
            I.raise_(AttributeError, name)
        raise Unsupported(f"attribute {name} of a component decoder")

    def sym_setattr(self, I, name, v):
        raise Unsupported("assignment to a component decoder")

    def sym_callable(self, I):
        return True

    def sym_truth(self, I):
        return True

    def sym_isinstance(self, I, T):
        if T is object:
            return True
        if isinstance(T, type) and T in (D.BaseDecoder, D.BaseCoder if hasattr(D, "BaseCoder") else D.BaseDecoder):
            return not self.plain(I)
        if isinstance(T, type) and issubclass(T, D.HeadTailDecoder):
            return False
        raise Unsupported(f"isinstance of a component decoder with {T}")

    def sym_is(self, I, o):
        if o is None or isinstance(o, (bool, type)):
            return False
        if isinstance(o, AbsDec):
            return mkbool(self.c == o.c)
        raise Unsupported("identity of a component decoder")

    def sym_call(self, I, args, kwargs):
        ctx, w = I.ctx, self.w
        vs = list(args) + list(kwargs.values())
        if len(vs) != 1 or not (isinstance(vs[0], SObj) and vs[0].oid == w.st.oid):
            raise Unsupported("component decoder called with something else than the stream")
        r = ctx.rec(w.st.oid)
        p = zint(term(r["%pos"]))
        c = self.c
        ctx.put(w.ghost, "calls", mkint(zint(ctx.rec(w.ghost)["calls"]) + 1))
        isdyn = ctx.decide(dyn(c))
        if isdyn:
            w.R.ensure("C10 C07 C01 C17", w.nm + "dynamic components are decoded in their own frame", p == origin(I, w.st))
        good = ok(c, p)
        if not w.custom:
            # what a standard decoder needs (proved for the leaves and below)
            h = w.axioms(ctx, c)
            ctx.fact(("need", good.get_id()), z3.Implies(good, p + z3.If(dyn(c), 32, h) <= zint(w.L)))
        if not ctx.decide(good):
            if w.custom and ctx.decide(F("custd", INT, INT, BOOL)(c, p)):
                I.raise_(CustomErr)
            if not w.custom and ctx.decide(F("unicode", INT, INT, BOOL)(c, p)):
                I.raise_(UnicodeDecodeError)
            I.raise_(DecodingError)
        if isdyn:
            q = F("after", INT, INT, INT)(c, p)
            ctx.fact(("after", q.get_id()), z3.And(q >= 0, q < LIM))
            ctx.put(w.st.oid, "%pos", mkint(q))
        else:
            h = w.axioms(ctx, c)
            ctx.put(w.st.oid, "%pos", mkint(p + h))
        return M.AbsVal(val(c, p))


def origin(I, st):
    """Start of the current frame: where seek_in_frame(0) leads."""
    ctx = I.ctx
    pos = ctx.rec(st.oid)["%pos"]
    I.call(I.getattr(st, "seek_in_frame"), (0,), {})
    o = zint(term(ctx.rec(st.oid)["%pos"]))
    ctx.put(st.oid, "%pos", pos)
    return o


def place(I, w, pos, f):
    """Puts the stream into a frame at f below any number of others, the cursor at pos."""
    ctx = I.ctx
    w.frames = None
    rec = ctx.rec(w.st.oid)
    fr = rec.get("_frames")
    if is_zero(rec.get("_total_offset")) and isinstance(fr, SList) and set(rec) == {"_total_offset", "_frames"} | {k for k in rec if k.startswith("%")}:
        ctx.put(w.st.oid, "_total_offset", mkint(f))
        nf = fresh_len(ctx, "frames")
        w.frames0 = SymSeq(nf, lambda i: (SInt(F("fo", INT, INT)(zint(i))), SInt(F("fp", INT, INT)(zint(i)))))
        w.frames = fr
        ctx.put(fr.oid, "v", w.frames0)
        if not ctx.prove(origin(I, w.st) == zint(f)):
            raise Unsupported("the frames of the stream")
    else:
        # another representation: one frame, by the operations of the stream
        w.ret = ctx.fresh_int("ret")
        ctx.assume(z3.And(w.ret >= 0, w.ret <= w.L))
        ctx.put(w.st.oid, "%pos", mkint(w.ret))
        I.call(I.getattr(w.st, "push_frame"), (mkint(f),), {})
    ctx.put(w.st.oid, "%pos", mkint(pos))


def is_zero(x):
    return isinstance(x, int) and not isinstance(x, bool) and x == 0


def setup(I, R, p):
    shape, custom = p["shape"], p["custom"]
    ctx = I.ctx
    ctx.edges = R.wants("C08")
    w = World(I, R, custom)
    w.nm = f"{shape}: "
    pos = ctx.fresh_int("p")
    ctx.assume(z3.And(pos >= 0, pos <= w.L))
    n = None
    comp = (lambda j: j) if shape == "tuple" else (lambda j: z3.IntVal(0))
    w.comp = comp
    if shape == "tuple":
        n = fresh_len(ctx, "n")
        seq = SymSeq(n, lambda i: AbsDec(w, i))
        dec = I.call(D.TupleDecoder, (), {"decoders": I.new_list(seq) if p.get("aslist") else seq})
    else:
        it = AbsDec(w, 0)
        if shape == "sized":
            n = ctx.fresh_int("n")
            ctx.assume(z3.And(n >= 1, n < LIM))
            dec = I.call(D.SizedArrayDecoder, (), {"array_size": SInt(n), "item_decoder": it})
        else:
            dec = I.call(D.DynamicArrayDecoder, (), {"item_decoder": it})
    w.dec, w.n, w.pos = dec, n, pos
    f = ctx.fresh_int("frame")
    ctx.assume(z3.And(f >= 0, f <= w.L))
    if I.truth(I.getattr(dec, "is_dynamic")):
        w.isdyn = True
        ctx.assume(f == pos)  # dynamic values are decoded in their own frame
    else:
        w.isdyn = False
    w.f = f
    w.st = stream(I, [w.d])
    place(I, w, pos, f)
    return w


def spec(w, ctx, shape):
    """(number of items, start of the head, head prefix sums, body(i): item i decodes, position of item i)"""
    comp = w.comp
    if shape == "dynamic":
        n, base = w.word(ctx, w.pos), w.pos + 32
    else:
        n, base = w.n, w.pos
    if shape != "tuple":
        ctx.decide(dyn(z3.IntVal(0)))

    def width(i):
        c = zint(comp(zint(term(i))))
        return 32 if ctx.decide(dyn(c)) else mkint(w.axioms(ctx, c))

    hl = ctx.psum(n, width)
    H = zint(hl.at(n))

    def item_pos(i):
        h = base + zint(hl.at(i))
        return z3.If(dyn(comp(i)), base + w.wterm(h), h)

    def body(i):
        i = zint(i)
        h = base + zint(hl.at(i))
        o = w.word(ctx, h)
        return z3.If(dyn(comp(i)), z3.And(h + 32 <= zint(w.L), o >= H, base + o < zint(w.L), ok(comp(i), base + o)), ok(comp(i), h))

    return n, base, hl, H, body, item_pos


def forall_at(ctx, n, body):
    return forall_goal(ctx, n, body)


def exists_i(ctx, n, body):
    """some index among the instantiated ones falsifies body"""
    cand = list(ctx.idx) + [z3.IntVal(0)]
    return z3.Or(*[z3.And(i >= 0, i < zint(n), z3.Not(body(i))) for i in cand]) if cand else False


def run_dec(R, p):
    shape, custom = p["shape"], p["custom"]

    def run(I):
        ctx = I.ctx
        w = setup(I, R, p)
        nm = w.nm
        L = zint(w.L)
        tags = "C12 C10 C01 C17"
        if shape == "tuple":
            if w.isdyn:
                R.ensure(tags, nm + "dynamic only if a component is", lambda: exists(ctx, w.n, lambda j: dyn(j)))
            else:
                R.ensure(tags, nm + "dynamic if a component is", lambda: forall_goal(ctx, w.n, lambda j: z3.Not(dyn(j))))
        else:
            R.ensure(tags, nm + "dynamic flag", (z3.BoolVal(True) if shape == "dynamic" else dyn(z3.IntVal(0))) == z3.BoolVal(w.isdyn))
        if not R.wants("C01 C06 C07 C08 C09 C10 C17"):
            R.cover(nm + "ok")
            return
        k, v = attempt(I, w.dec, w.st)
        R.cover(nm + k)
        r = ctx.rec(w.st.oid)
        calls, reads = zint(term(ctx.rec(w.ghost)["calls"])), zint(term(r["%reads"]))
        if shape != "tuple":
            if not custom:
                R.ensure("C08", nm + "work is bounded by the data", calls + reads <= 3 * (L / 32) + 8)
        if k == "exc":
            good = issubclass(v, (DecodingError, UnicodeDecodeError)) or (custom and issubclass(v, CustomErr))
            R.ensure("C08 C17", nm + "errors are decoding errors", good)
            if shape == "dynamic" and ctx.decide(w.pos + 32 > L):
                return
            n, base, hl, H, body, at = spec(w, ctx, shape)
            R.ensure("C01 C06 C07 C09 C10 C17", nm + "refused only if an item or an offset is bad", lambda: exists_i(ctx, n, body))
            return
        if shape == "dynamic":
            R.ensure("C06 C07 C08 C10", nm + "the count is read from the data", w.pos + 32 <= L)
            if not ctx.prove(w.pos + 32 <= L):
                return
        n, base, hl, H, body, at = spec(w, ctx, shape)
        if R.wants("C07 C06 C09 C10 C17"):
            R.ensure("C07 C06 C09 C10 C17", nm + "every item decodes, every offset lies behind the head and inside the data", lambda: forall_at(ctx, n, body))
        R.ensure("C10 C17 C01", nm + "the result is a tuple", I.pytype(v) is tuple)
        R.ensure("C08 C10 C17 C01", nm + "one value per item", lambda: seq_count(v) == zint(n))
        if ctx.prove(seq_count(v) == zint(n)):
            R.ensure("C10 C01 C06 C09 C17", nm + "each value is read at its own position", lambda: forall_values(I, v, n, lambda i: val(w.comp(i), at(i))))
        pos = zint(term(r["%pos"]))
        if not w.isdyn:
            R.ensure("C10 C07 C17 C01", nm + "the cursor ends behind the head", pos == base + H)
        R.ensure("C10 C17 C01", nm + "frames are restored", lambda: z3.And(origin(I, w.st) == w.f, frames_same(I, w)))
        if not custom:
            R.ensure("C08", nm + "what it needs was there", w.pos + 32 <= L if (w.isdyn and shape != "tuple") else pos <= L)

    R.explore(run)


def frames_same(I, w):
    ctx = I.ctx
    if w.frames is None:
        I.call(I.getattr(w.st, "pop_frame"), (), {})
        return z3.And(zint(term(ctx.rec(w.st.oid)["%pos"])) == w.ret, origin(I, w.st) == 0)
    fr = ctx.rec(w.st.oid)["_frames"]
    if fr.oid != w.frames.oid:
        return False
    v = ctx.rec(fr.oid)["v"]
    return z3.BoolVal(v is w.frames0 or (isinstance(v, SeqV) and ctx.prove(zint(seq_len(v)) == zint(seq_len(w.frames0))) and same_val(v, w.frames0)))


def seq_count(v):
    if isinstance(v, (tuple, SeqV)):
        return zint(seq_len(v))
    raise NotAligned("result is not a sequence")


def forall_values(I, v, n, spec):
    ctx = I.ctx
    k = ctx.fresh_int("k")
    good = []

    def go():
        if ctx.raw_check() == z3.unsat:
            raise Prune()
        x = seq_get(I, v, k)
        good.append(isinstance(x, M.AbsVal) and ctx.prove(x.t == spec(k)))
        return "ok", None

    try:
        ctx.sub_explore(go, assume=[k >= 0, k < zint(n)], index=k, prefix="fv/")
    except Unsupported as e:
        raise NotAligned(str(e))
    return all(good)


register("compound-decoder", "C01 C06 C07 C08 C09 C10 C12 C17", lambda tier, prop: [
    {"shape": s, "custom": c, "aslist": s == "tuple"}
    for s in ["tuple", "sized", "dynamic"] for c in ([True, False] if prop in ("C10", "C07") else [True] if prop == "C17" else [False])], run_dec, limit=120, boundable=True)
