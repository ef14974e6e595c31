"""Contracts of the public entry points: encode, decode, is_encodable, is_encodable_type of the
default codec, of the packed codec and of any ABICodec.

The registry enters by the contract of get_encoder / get_decoder (proved in regh): a function of
the type string (and of the mode, for decoders) alone, or one of the registry's errors.  The
coders enter by the coder interface contract (leaf, comp, compdec).  TupleEncoder / TupleDecoder
and has_encoder are part of the code under verification here.
"""
from .base import *  # noqa: F401,F403
from .base import DecodingError, EncodingError, M, attempt, beq, register
from . import comp as CE, compdec as CD
from .comp import BOOL, CustomErr, F, INT, LIM, V, dom, dyn, exists, forall_goal, fresh_len, item
from .regh import AbsStr

import eth_abi
import eth_abi.abi
import eth_abi.codec as C
import eth_abi.decoding as D
import eth_abi.exceptions as X
import eth_abi.packed
import eth_abi.registry as G


def tstr(i):
    return F("tstr", INT, V)(zint(i))


VER = [""]  # which state of the registry the names below speak of


def encid(t):
    return F("encid" + VER[0], V, INT)(t)


def decid(t, strict):
    return F("decid" + VER[0], V, BOOL, INT)(t, strict)


def known(t):
    return F("known" + VER[0], V, BOOL)(t)


def several(t):
    return F("several" + VER[0], V, BOOL)(t)


def unknown_type(I, t):
    ctx = I.ctx
    ctx.fact(("several", t.get_id()), z3.Implies(several(t), z3.Not(known(t))))
    if ctx.decide(known(t)):
        return
    if ctx.decide(several(t)):
        I.raise_(X.MultipleEntriesFound)
    if ctx.decide(F("parses", V, BOOL)(t)):
        I.raise_(X.NoEntriesFound if ctx.decide(F("noentry" + VER[0], V, BOOL)(t)) else X.ABITypeError)
    I.raise_(X.ParseError)


def get_encoder(custom):
    def model(I, args, kwargs):
        a = list(args) + list(kwargs.values())
        if len(a) != 1 or not isinstance(a[0], AbsStr):
            raise Unsupported("get_encoder of something else than a type string")
        t = a[0].t
        unknown_type(I, t)
        return CE.AbsEnc(encid(t), custom)

    return model


def get_decoder(w):
    def model(I, args, kwargs):
        kw = dict(kwargs)
        a = list(args)
        t = a.pop(0) if a else kw.pop("type_str", None)
        s = a.pop(0) if a else kw.pop("strict", True)
        if a or kw or not isinstance(t, AbsStr):
            raise Unsupported("get_decoder of something else than a type string")
        if isinstance(s, bool):
            s = z3.BoolVal(s)
        elif isinstance(s, SBool):
            s = s.t
        else:
            raise Unsupported("mode that is no bool")
        unknown_type(I, t.t)
        return LazyDec(w, decid(t.t, s))

    return model


class LazyDec(CD.AbsDec):
    """The stream is the one the codec makes of the data."""

    def sym_call(self, I, args, kwargs):
        w = self.w
        vs = list(args) + list(kwargs.values())
        if w.st is None and len(vs) == 1 and isinstance(vs[0], SObj) and issubclass(vs[0].cls, D.ContextFramesBytesIO):
            w.st = vs[0]
        if w.st is None:
            raise Unsupported("decoder called without the stream")
        return super().sym_call(I, args, kwargs)


CODECS = {
    "default": (lambda: eth_abi.abi.default_codec, lambda: G.registry),
    "packed": (lambda: eth_abi.packed.default_encoder_packed, lambda: G.registry_packed),
}


def world(I, p, w=None):
    """{name: callable} of the entry points, over a registry by contract."""
    ctx = I.ctx
    custom = p["custom"]
    if p["api"] == "codec":
        reg = I.call(G.ABIRegistry, (), {})
        ctx.put(reg.oid, "get_encoder", Model(get_encoder(custom)))
        ctx.put(reg.oid, "get_decoder", Model(get_decoder(w)))
        co = I.call(C.ABICodec, (reg,), {})
        return lambda n: I.getattr(co, n)
    reg = G.registry if p["api"] == "default" else G.registry_packed
    I.contracts[id(reg.get_encoder)] = get_encoder(custom)
    I.contracts[id(reg.get_decoder)] = get_decoder(w)
    other = G.registry_packed if p["api"] == "default" else G.registry

    def foreign(I, a, k):
        raise PyExc(ExcVal(ForeignRegistry, ()))

    for f in (other.get_encoder, other.get_decoder):
        I.contracts[id(f)] = foreign
    if p["api"] == "default":
        return lambda n: getattr(eth_abi, n)
    return lambda n: getattr(eth_abi.packed, n + "_packed")


class ForeignRegistry(Exception):
    """The registry of the other codec was asked."""


def types_value(I, kind, n):
    q = SymSeq(n, lambda i: AbsStr(tstr(i)))
    if kind == "list":
        return I.new_list(q)
    if kind == "tuple":
        return q
    return CE.value(I, kind, n)


def run_encode(R, p):
    """encode(types, args)"""
    custom, packed = p["custom"], p["api"] == "packed"
    combos = [tuple(p["combo"])] if p["combo"] else []
    if not combos:
        combos += [(k, "list") for k in ("int", "none", "text", "opaque")] + [("list", k) for k in ("int", "none", "text", "bytes", "opaque")]
    comp_ = lambda j: encid(tstr(j))  # noqa: E731
    for tk, ak in combos:
        def body(I, tk=tk, ak=ak):
            ctx = I.ctx
            api = world(I, p)
            n, m = fresh_len(ctx, "n"), fresh_len(ctx, "m")
            ty = types_value(I, tk, n)
            val = CE.value(I, ak, m)
            if packed:
                comp = lambda j: nodyn(ctx, comp_(j))  # noqa: E731
            else:
                comp = comp_
            nm = f"encode {tk}/{ak}: "
            ps = CE.concat(ctx, n, comp) if packed else CE.layout(ctx, n, comp)[0]
            CE.size_bound(ctx, ps)
            k, v = attempt(I, api("encode"), ty, val)
            R.cover(nm + k)
            if tk not in ("list", "tuple") or ak not in ("list", "tuple"):
                R.ensure("C04", nm + "refused", k == "exc")
                return
            if k == "exc":
                if issubclass(v, EncodingError):
                    if ctx.decide(zint(m) == zint(n)):
                        R.ensure("C04 C01 C02 C03 C17", nm + "refused only if some value is outside of its domain", exists(ctx, n, lambda j: z3.Not(dom(comp_(j), item(j)))))
                    return
                if custom and issubclass(v, CustomErr):
                    R.ensure("C17", nm + "errors of custom coders are theirs", exists(ctx, n, lambda j: z3.And(z3.Not(dom(comp_(j), item(j))), F("cust", INT, V, BOOL)(comp_(j), item(j)))) if ctx.prove(zint(m) == zint(n)) else True)
                    return
                # not a refusal of the values: then a type is not supported
                R.ensure("C04 C01 C02 C03 C05 C17", nm + "other errors only if a type is not supported", exists(ctx, n, lambda j: z3.Not(known(tstr(j)))))
                return
            R.ensure("C04 C12", nm + "all types are supported", lambda: forall_goal(ctx, n, lambda j: known(tstr(j))))
            R.ensure("C04", nm + "as many values as types", zint(m) == zint(n))
            if not ctx.prove(zint(m) == zint(n)):
                return
            R.ensure("C04", nm + "all values are in the domain", lambda: forall_goal(ctx, n, lambda j: dom(comp_(j), item(j))))
            R.ensure("C03 C17" if packed else "C01 C02 C17", nm + "bytes are the " + ("concatenation" if packed else "head/tail layout"), lambda: beq(ctx, v, ps))

        R.explore(body)


def nodyn(ctx, c):
    """coders of the packed registry are never dynamic (proved for each of them)"""
    d = dyn(c)
    ctx.fact(("nodyn", d.get_id()), z3.Not(d))
    return c


def run_check(R, p):
    """is_encodable(type, value), is_encodable_type(type)"""
    custom = p["custom"]
    if p["api"] != "packed":
        def types(I):
            ctx = I.ctx
            api = world(I, p)
            t = tstr(ctx.fresh_int("i"))
            k, v = attempt(I, api("is_encodable_type"), AbsStr(t))
            R.cover("type " + k)
            if k == "exc":
                R.ensure("C05 C12", "is_encodable_type: only the multiple-entries error escapes", v is X.MultipleEntriesFound)
                return
            R.ensure("C05 C12", "is_encodable_type: True exactly if there is an encoder", boolterm(v) == known(t) if boolterm(v) is not None else False)

        R.explore(types)

    def body(I):
        ctx = I.ctx
        api = world(I, p)
        t, x = tstr(ctx.fresh_int("i")), item(ctx.fresh_int("j"))
        k, v = attempt(I, api("is_encodable"), AbsStr(t), M.AbsVal(x))
        R.cover("value " + k)
        d = z3.And(known(t), dom(encid(t), x))
        if k == "exc":
            if custom and issubclass(v, CustomErr):
                R.ensure("C05", "is_encodable: foreign errors are those of the coder", z3.And(known(t), z3.Not(dom(encid(t), x))))
                return
            R.ensure("C05", "is_encodable: does not raise", v is X.MultipleEntriesFound)
            return
        b = boolterm(v)
        R.ensure("C05", "is_encodable: a bool", b is not None)
        if b is not None:
            R.ensure("C05", "is_encodable: True exactly if encoding succeeds", b == d)

    R.explore(body)


def boolterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    return None


def run_decode(R, p):
    """decode(types, data, strict)"""
    custom = p["custom"]
    combos = [tuple(p["combo"])] if p["combo"] else []
    if not combos:
        combos += [("none", "bytes", "default"), ("text", "bytes", "default")] + [("list", x, "kw") for x in ("text", "int", "none", "list")]
    for tk, dk, mode in combos:
        def body(I, tk=tk, dk=dk, mode=mode):
            ctx = I.ctx
            ctx.edges = R.wants("C08")
            w = CD.World(I, R, custom)
            w.st = None
            w.nm = "decode: "
            api = world(I, p, w)
            n = fresh_len(ctx, "n")
            ty = types_value(I, tk, n)
            strict = z3.BoolVal(True) if mode == "default" else ctx.fresh_bool("strict")
            data = mkbytes(ctx, [w.d], bytes if dk == "bytes" else bytearray) if dk in ("bytes", "bytearray") else CE.value(I, dk, fresh_len(ctx, "dn"))
            args, kw = (ty, data), {}
            if mode == "kw":
                kw = {"strict": SBool(strict)}
            elif mode == "positional":
                args += (SBool(strict),)
            nm = f"decode {tk}/{dk} mode={mode}: "
            if not p["inline"]:
                return by_contract(R, I, p, w, nm, tk, dk, api, args, kw, n, strict)
            k, v = attempt(I, api("decode"), *args, **kw)
            R.cover(nm + k)
            if tk not in ("list", "tuple") or dk not in ("bytes", "bytearray"):
                R.ensure("C08 C10", nm + "refused", k == "exc" and (tk not in ("list", "tuple") or issubclass(v, TypeError)))
                return
            comp = lambda j: decid(tstr(j), strict)  # noqa: E731
            w.comp, w.n, w.pos = comp, n, z3.IntVal(0)
            L = zint(w.L)
            if k == "exc":
                if issubclass(v, (X.MultipleEntriesFound, X.NoEntriesFound, X.ABITypeError, X.ParseError)) and not issubclass(v, DecodingError):
                    R.ensure("C08 C12 C01 C17", nm + "type errors only if a type is not supported", exists(ctx, n, lambda j: z3.Not(known(tstr(j)))))
                    return
                good = issubclass(v, (DecodingError, UnicodeDecodeError)) or (custom and issubclass(v, CustomErr))
                R.ensure("C08 C17", nm + "errors are decoding errors", good)
                _, base, hl, H, b, at = CD.spec(w, ctx, "tuple")
                R.ensure("C01 C06 C07 C09 C10 C17", nm + "refused only if an item or an offset is bad", lambda: CD.exists_i(ctx, n, b))
                return
            R.ensure("C08 C12", nm + "all types are supported", lambda: forall_goal(ctx, n, lambda j: known(tstr(j))))
            _, base, hl, H, b, at = CD.spec(w, ctx, "tuple")
            if R.wants("C07 C06 C09 C10 C17"):
                R.ensure("C07 C06 C09 C10 C17", nm + "every item decodes in the mode asked for, every offset lies behind the head and inside the data", lambda: forall_goal(ctx, n, b))
            R.ensure("C10 C17 C01 C08", nm + "the result is a tuple", I.pytype(v) is tuple)
            R.ensure("C08 C10 C17 C01", nm + "one value per type", lambda: CD.seq_count(v) == zint(n))
            if ctx.prove(CD.seq_count(v) == zint(n)):
                R.ensure("C10 C01 C06 C09 C17", nm + "each value is read at its own position", lambda: CD.forall_values(I, v, n, lambda i: CD.val(comp(i), at(i))))

        R.explore(body)


class AbsTuple(Sym):
    """TupleDecoder by contract (proved in compdec): calling it at the position of a stream is a
    function of the component decoders, the data and the position."""

    def __init__(self, w, seq):
        self.w, self.seq = w, seq

    def sym_getattr(self, I, name):
        if name == "decode":
            return Model(lambda I, a, k: self.sym_call(I, a, k))
        if name == "decoders":
            return self.seq
        raise Unsupported(f"attribute {name} of the tuple decoder")

    def sym_truth(self, I):
        return True

    def sym_callable(self, I):
        return True

    def sym_call(self, I, args, kwargs):
        ctx, w = I.ctx, self.w
        vs = list(args) + list(kwargs.values())
        if len(vs) != 1 or not isinstance(vs[0], SObj) or not issubclass(vs[0].cls, D.ContextFramesBytesIO):
            raise Unsupported("tuple decoder called with something else than a stream")
        w.called.append((self, vs[0], dict(ctx.rec(vs[0].oid), **{"%origin": CD.origin(I, vs[0])})))
        if not ctx.decide(z3.Bool("tuple.ok")):
            if w.custom and ctx.decide(z3.Bool("tuple.custom")):
                I.raise_(CustomErr)
            I.raise_(DecodingError if ctx.decide(z3.Bool("tuple.derr")) else UnicodeDecodeError)
        return SymSeq(seq_len(self.seq), lambda i: M.AbsVal(F("tuple.val", INT, V)(zint(i))))


def make_tuple(w):
    def model(I, args, kwargs):
        if args or set(kwargs) != {"decoders"}:
            raise Unsupported("construction of the tuple decoder")
        seq = kwargs["decoders"]
        if isinstance(seq, SList):
            seq = I.ctx.rec(seq.oid)["v"]
        if not isinstance(seq, (tuple, SeqV)):
            raise Unsupported("component decoders")
        return AbsTuple(w, seq)

    return model


def by_contract(R, I, p, w, nm, tk, dk, api, args, kw, n, strict):
    ctx = I.ctx
    w.called = []
    I.contracts[id(D.TupleDecoder)] = make_tuple(w)
    k, v = attempt(I, api("decode"), *args, **kw)
    R.cover(nm + k)
    if tk not in ("list", "tuple") or dk not in ("bytes", "bytearray"):
        R.ensure("C08 C10", nm + "refused", k == "exc" and (tk not in ("list", "tuple") or issubclass(v, TypeError)))
        return
    if k == "exc" and issubclass(v, (X.MultipleEntriesFound, X.NoEntriesFound, X.ABITypeError, X.ParseError)):
        R.ensure("C08 C12 C01 C17 C06 C07 C09 C10", nm + "type errors only if a type is not supported", exists(ctx, n, lambda j: z3.Not(known(tstr(j)))))
        return
    if not w.called:
        raise Unsupported("the tuple decoder is not used")
    R.ensure("C08 C12", nm + "all types are supported", lambda: forall_goal(ctx, n, lambda j: known(tstr(j))))
    t, st, r0 = w.called[-1]
    EV = "C01 C06 C07 C08 C09 C10 C17"
    R.ensure(EV, nm + "one decoder per type", lambda: zint(seq_len(t.seq)) == zint(n))
    if not ctx.prove(zint(seq_len(t.seq)) == zint(n)):
        return

    def decs():
        j = ctx.fresh_int("j")
        good = []

        def go():
            if ctx.raw_check() == z3.unsat:
                raise Prune()
            x = seq_get(I, t.seq, j)
            good.append(isinstance(x, CD.AbsDec) and ctx.prove(x.c == decid(tstr(j), strict)))
            return "ok", None

        ctx.sub_explore(go, assume=[j >= 0, j < zint(n)], index=j, prefix="cd/")
        return all(good)

    R.ensure(EV, nm + "each type is decoded by its decoder, in the mode asked for", decs)
    R.ensure(EV, nm + "from the start of the data", z3.And(zint(term(r0["%pos"])) == 0, r0["%origin"] == 0))
    R.ensure(EV, nm + "the data is what was passed", lambda: beq(ctx, mkbytes(ctx, list(r0["%buf"])), [w.d]))
    if k == "exc":
        R.ensure("C08 C17", nm + "errors are those of decoding", z3.And(z3.Not(z3.Bool("tuple.ok")), z3.BoolVal(issubclass(v, (DecodingError, UnicodeDecodeError)) or (w.custom and issubclass(v, CustomErr)))))
        return
    R.ensure("C10 C17 C01 C08", nm + "the result is a tuple", I.pytype(v) is tuple)
    R.ensure("C08 C10 C17 C01", nm + "one value per type", lambda: CD.seq_count(v) == zint(n))
    if ctx.prove(CD.seq_count(v) == zint(n)):
        R.ensure("C10 C01 C06 C09 C17", nm + "the values are those decoded", lambda: CD.forall_values(I, v, n, lambda i: F("tuple.val", INT, V)(i)))


def run_history(R, p):
    """A call after a call after which the registrations have changed: as if it were the first."""
    op = p["op"]

    def body(I):
        ctx = I.ctx
        VER[0] = ""
        w = CD.World(I, R, False)
        w.st, w.nm, w.called = None, "decode: ", []
        api = world(I, p, w)
        I.contracts[id(D.TupleDecoder)] = make_tuple(w)
        ty = I.new_list((AbsStr(tstr(0)),)) if p["list"] else (AbsStr(tstr(0)),)
        t, x = tstr(0), item(0)
        strict = [SBool(ctx.fresh_bool(f"strict{i}")) for i in (0, 1)]
        data = mkbytes(ctx, [w.d])

        def call(i):
            if op == "decode":
                return attempt(I, api("decode"), ty, data, strict=strict[i])
            if op == "encode":
                return attempt(I, api("encode"), ty, (M.AbsVal(item(i)),))
            if op == "is_encodable":
                return attempt(I, api("is_encodable"), AbsStr(t), M.AbsVal(item(i)))
            return attempt(I, api("is_encodable_type"), AbsStr(t))

        call(0)
        VER[0] = "'"
        del w.called[:]
        x = item(1)
        k, v = call(1)
        nm = f"{op} after a change: "
        R.cover(nm + k)
        kn = known(t)
        if op in ("is_encodable", "is_encodable_type"):
            if k == "exc":
                R.ensure("C14", nm + "only the multiple-entries error escapes", v is X.MultipleEntriesFound)
                return
            b = boolterm(v)
            want = kn if op == "is_encodable_type" else z3.And(kn, dom(encid(t), x))
            R.ensure("C14", nm + "reflects the live registrations", b == want if b is not None else False)
        elif op == "decode":
            if k == "exc" and not w.called:
                R.ensure("C14 C09", nm + "type errors only if the type is not supported now", z3.Not(kn))
                return
            R.ensure("C14", nm + "the type is supported now", kn)
            if not w.called:
                raise Unsupported("the tuple decoder is not used")
            seq = w.called[-1][0].seq
            d = seq_get(I, seq, z3.IntVal(0)) if ctx.prove(zint(seq_len(seq)) == 1) else None
            if not isinstance(d, CD.AbsDec):
                raise Unsupported("component decoder")
            R.ensure("C14 C09", nm + "the decoder is the live one, in the mode of this call", d.c == decid(t, strict[1].t))
        else:
            if k == "exc" and not issubclass(v, EncodingError):
                R.ensure("C14", nm + "type errors only if the type is not supported now", z3.Not(kn))
                return
            if k == "exc":
                R.ensure("C14", nm + "refused only by the live encoder", z3.Not(dom(encid(t), x)))
                return
            R.ensure("C14", nm + "supported and in the domain now", z3.And(kn, dom(encid(t), x)))
            c = nodyn(ctx, encid(t)) if p["api"] == "packed" else encid(t)
            got = [CE.eblob(ctx, c, x)]
            if p["api"] == "packed" or not ctx.decide(dyn(c)):
                R.ensure("C14", nm + "bytes are those of the live encoder", lambda: beq(ctx, v, got))
            else:
                R.ensure("C14", nm + "bytes are those of the live encoder", lambda: beq(ctx, v, [Lit((32).to_bytes(32, "big"))] + got))

    R.explore(body)
    VER[0] = ""


def enc_jobs(tier, prop):
    apis = {"C03": ["packed"], "C04": ["default", "packed", "codec"], "C17": ["codec"]}.get(prop, ["default", "codec"])
    out = [{"api": a, "custom": prop == "C17", "combo": c} for a in apis for c in (["list", "list"], ["tuple", "tuple"], ["list", "tuple"])]
    if prop == "C04":
        out += [{"api": a, "custom": False, "combo": None} for a in apis]
    return out


def dec_jobs(tier, prop):
    combos = [["list", "bytes", m] for m in ("default", "kw", "positional")] + [["tuple", "bytearray", "kw"], ["tuple", "bytes", "default"]]
    if prop in ("C08", "C10"):
        combos += [None]
    return [{"api": a, "custom": prop == "C17", "combo": c, "inline": i} for i in ([False, True] if tier == "thorough" else [False])
            for a in (["codec"] if prop == "C17" else ["default", "codec"]) for c in combos]


register("codec-encode", "C01 C02 C03 C04 C12 C17", enc_jobs, run_encode, limit=120, boundable=True)
register("codec-check", "C05 C12", lambda tier, prop: [{"api": a, "custom": c} for a in ("default", "packed", "codec") for c in (False, True) if not (prop == "C12" and a == "packed")], run_check, limit=60)
register("codec-decode", "C01 C06 C07 C08 C09 C10 C12 C17", dec_jobs, run_decode, limit=200)
register("codec-history", "C09 C14", lambda tier, prop: [{"api": a, "custom": False, "op": o, "list": b} for a in ("default", "codec", "packed")
                                                        for o in ("decode", "encode", "is_encodable", "is_encodable_type") for b in (False, True)
                                                        if not (a == "packed" and o in ("decode", "is_encodable_type")) and not (prop == "C09" and o != "decode") and not (b and o[0] == "i")],
         run_history, limit=60, boundable=True)
