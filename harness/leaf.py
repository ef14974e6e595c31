"""Contracts of the coders of basic types: every encoder and decoder class of eth_abi, as built
by the registry for every concrete basic type, with unbounded symbolic arguments."""
from decimal import Decimal

from .base import *  # noqa: F401,F403
from .base import DecodingError, EncodingError, M, attempt, beq, register, veq
from vlib import refabi as R_
from vlib import native as N_
from vlib import replay as RP_

import eth_abi.decoding as D
from eth_abi.registry import registry, registry_packed

KINDS = ["int", "bool", "dec", "nan", "bytes", "bytearray", "text", "seq", "list", "none", "opaque"]
NONFIN = ["NaN", "sNaN", "Infinity", "-Infinity", "-NaN"]


class Val:
    """A symbolic value of one kind."""

    def __init__(self, I, t, kind):
        ctx = I.ctx
        self.t, self.kind = t, kind
        fam = t[0]
        if kind == "int":
            self.x = ctx.fresh_int("x")
            self.v = SInt(self.x)
        elif kind == "bool":
            self.b = ctx.fresh_bool("b")
            self.v = SBool(self.b)
        elif kind == "dec":
            # the value is y / 10**n
            self.n = t[2] if fam in ("fixed", "ufixed") else 0
            self.y = ctx.fresh("y", z3.RealSort())
            self.neg = ctx.fresh_bool("minus_zero")
            self.v = SDec(self.y / z3.RealVal(10**self.n), neg=self.neg)
        elif kind == "nan":
            self.v = Decimal(NONFIN[ctx.choose(len(NONFIN))])
        elif kind in ("bytes", "bytearray"):
            n = ctx.fresh_int("n")
            ctx.assume(z3.And(n >= 0, n <= core.SSIZE_MAX // 2))
            self.n = n
            self.blob = Blob("val", (), n)
            self.v = mkbytes(ctx, [A(self.blob, z3.IntVal(0), n)], bytes if kind == "bytes" else bytearray)
        elif kind == "text":
            self.v = M.SText(ctx.fresh("txt", M.V))
        elif kind in ("seq", "list"):
            n = ctx.fresh_int("n")
            ctx.assume(z3.And(n >= 0, n <= core.SSIZE_MAX // 2))
            q = SymSeq(n, lambda i: M.AbsVal(z3.Function("item", z3.IntSort(), M.V)(zint(i))))
            self.v = q if kind == "seq" else I.new_list(q)
        elif kind == "none":
            self.v = None
        else:
            self.v = M.SOpaque("opaque") if hasattr(M, "SOpaque") else SOpaque("opaque")

    def scaled(self):
        """The integer written for a fixed-point value (when in the domain)."""
        n = self.t[2]
        if self.kind == "int":
            return self.x * 10**n
        return self.s if hasattr(self, "s") else z3.ToInt(self.y)

    def dom(self, ctx):
        t, fam, kind = self.t, self.t[0], self.kind
        F, T = z3.BoolVal(False), z3.BoolVal(True)
        if fam in ("uint", "int"):
            if kind != "int":
                return F
            lo, hi = (0, 2 ** t[1] - 1) if fam == "uint" else (-(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1)
            return z3.And(self.x >= lo, self.x <= hi)
        if fam in ("ufixed", "fixed"):
            lo, hi = (0, 2 ** t[1] - 1) if fam == "ufixed" else (-(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1)
            if kind == "int":
                s = self.x * 10 ** t[2]
                return z3.And(s >= lo, s <= hi)
            if kind == "dec":
                y = self.y
                return z3.And(y >= lo, y <= hi, y == z3.ToReal(z3.ToInt(y)))
            return F
        if fam == "bool":
            return T if kind == "bool" else F
        if fam == "address":
            if kind == "text":
                return self.v.hexaddr()
            if kind in ("bytes", "bytearray"):
                return self.n == 20
            return F
        if fam == "bytesM":
            return self.n <= t[1] if kind in ("bytes", "bytearray") else F
        if fam == "bytes":
            return T if kind in ("bytes", "bytearray") else F
        if fam == "string":
            return self.v.valid() if kind == "text" else F
        raise AssertionError(t)

    def finding(self):
        """The region of the known finding (see known_findings.txt)."""
        if self.t[0] == "fixed" and self.kind == "dec":
            y = self.y
            return z3.And(y < 0, y != z3.ToReal(z3.ToInt(y)), y >= -(2 ** (self.t[1] - 1)))
        return None

    def spec(self, ctx, packed):
        """The bytes the specification prescribes."""
        t, fam = self.t, self.t[0]
        if fam in ("uint", "int", "ufixed", "fixed", "bool", "address"):
            if fam in ("uint", "int"):
                x, w = self.x, t[1] // 8
            elif fam in ("ufixed", "fixed"):
                x, w = self.scaled(), t[1] // 8
            elif fam == "bool":
                x, w = z3.If(self.b, z3.IntVal(1), z3.IntVal(0)), 1
            else:
                w = 20
                x = self.v.addrval(ctx) if self.kind == "text" else zint(core.piece_int(ctx, A(self.blob, z3.IntVal(0), 20)))
            if not packed:
                w = 32
            if fam in ("int", "fixed"):
                x = z3.If(x >= 0, x, x + 256**w)
            return [W(x, w)]
        if fam == "bytesM":
            w = t[1] if packed else 32
            return [A(self.blob, z3.IntVal(0), self.n), Rep(0, tsimp(w - self.n))]
        b = self.blob if fam == "bytes" else self.v.blob(ctx)
        n = b.len
        if packed:
            return [A(b, z3.IntVal(0), n)]
        pad = tsimp(((n + 31) / 32) * 32 - n)
        return [W(n, 32), A(b, z3.IntVal(0), n), Rep(0, pad)]

    def canon(self, I):
        ctx = I.ctx
        t, fam = self.t, self.t[0]
        if fam in ("uint", "int", "bool"):
            return self.v
        if fam in ("ufixed", "fixed"):
            return SDec(z3.ToReal(self.x)) if self.kind == "int" else self.v
        if fam == "address":
            if self.kind == "text":
                return M.NormAddr(self.v.addrval(ctx))
            return M.NormAddr(core.piece_int(ctx, A(self.blob, z3.IntVal(0), 20)))
        if fam == "bytesM":
            return SBytes([A(self.blob, z3.IntVal(0), self.n), Rep(0, tsimp(t[1] - self.n))])
        if fam == "bytes":
            return mkbytes(ctx, [A(self.blob, z3.IntVal(0), self.n)])
        return self.v


FULL = {8, 128, 256, 1, 20, 24, 32}


def kinds_for(t, params=None):
    # whether booleans count as numbers of fixed-point types is left open
    ks = [k for k in KINDS if not (k == "bool" and t[0] in ("fixed", "ufixed"))]
    if params is not None and not params.get("all_kinds"):
        own = {"uint": ("int", "bool"), "int": ("int", "bool"), "fixed": ("int", "dec", "nan"), "ufixed": ("int", "dec", "nan"),
               "bytesM": ("bytes", "bytearray")}.get(t[0])
        if own:
            ks = [k for k in ks if k in own]
    return ks


def all_kinds(s, tier):
    """Values of foreign types are run for some widths only in the quick tier."""
    t = parsed(s)
    return tier == "thorough" or t[1] is None or (t[1] in FULL and (len(t) == 2 or t[2] in (1, 18, 80)))


def parsed(s):
    """(family, size, scale) of a basic type string"""
    _, base, sub = R_.canon_type(R_.parse(s))
    if base == "bytes" and sub is not None:
        return ("bytesM", sub)
    if isinstance(sub, tuple):
        return (base,) + sub
    return (base, sub)


def get_coder(s, what, strict=True):
    if what == "std":
        return registry.get_encoder(s)
    if what == "packed":
        return registry_packed.get_encoder(s)
    return registry.get_decoder(s, strict=strict)


def flag(R, coder, t, packed, tags, nm):
    """Only bytes and string of the standard codec are dynamic."""
    def body(I):
        R.ensure(tags, nm + "classified as dynamic exactly if it is bytes or string", I.truth(I.call(getattr, (coder, "is_dynamic", False), {})) == (not packed and t[0] in ("bytes", "string")))
        R.cover("flag")

    if R.wants(tags):
        R.explore(body)


def run_enc(R, params):
    s, which = params["type"], params["codec"]
    packed = which == "packed"
    t = parsed(s)
    enc = get_coder(s, which)
    finding = N_.finding_present()
    bytesprop = "C03" if packed else "C02"
    flag(R, enc, t, packed, "C03" if packed else "C12 C02 C01", "enc: ")

    for kind in kinds_for(t, params):
        def body(I, kind=kind):
            ctx = I.ctx
            x = Val(I, t, kind)
            if finding and x.finding() is not None:
                ctx.assume(z3.Not(x.finding()))
            dom = x.dom(ctx)
            if R.wants("C05"):
                k2, v2 = attempt(I, I.getattr(enc, "validate_value"), x.v)
            k, v = attempt(I, enc, x.v)
            if R.wants("C15"):
                R.ensure("C15", f"enc {kind}: context restored", M.dec_ctx(I) is M.AMBIENT and not ctx.ambient_dirty)
                # the outcome is a function of the value alone
                R.ensure("C15", f"enc {kind}: outcome is that of the exact value", dom if k == "ok" else z3.Not(dom))
            if R.wants("C05"):
                R.ensure("C05", f"enc {kind}: validate agrees with encode", k == k2)
                if k2 == "exc":
                    R.ensure("C05", f"enc {kind}: validate refuses with EncodingError", issubclass(v2, EncodingError))
            if k == "exc":
                R.cover(f"{kind} refused")
                R.ensure("C04 C12", f"enc {kind}: only values outside of the domain are refused", z3.Not(dom))
                R.ensure("C04", f"enc {kind}: refusal is an EncodingError", issubclass(v, EncodingError))
                R.ensure("C01 C02 C03", f"enc {kind}: every value of the domain is encoded", z3.Not(dom))
                return
            R.cover(f"{kind} encoded")
            R.ensure("C04 C12", f"enc {kind}: only values of the domain are encoded", dom)
            if not ctx.prove(dom):
                return
            R.ensure(bytesprop + (" C15 C12" if packed else " C15 C01 C12"), f"enc {kind}: bytes are the specified ones", lambda: beq(ctx, v, x.spec(ctx, packed)))
            R.ensure("C05", f"enc {kind}: result is bytes", isinstance(v, (SBytes, bytes, bytearray)))
        R.explore(body)


    if packed or not R.wants("C01"):
        return
    for kind in kinds_for(t, params):
        for strict in (True, False):
            def back(I, kind=kind, strict=strict):
                """decode(spec(x)) == canon(x), over the contract of the encoder"""
                ctx = I.ctx
                x = Val(I, t, kind)
                if kind == "dec":
                    x.s = ctx.fresh_int("s")
                    x.y = z3.ToReal(x.s)
                    x.v = SDec(x.y / z3.RealVal(10**x.n), neg=x.neg)
                dom = z3.simplify(x.dom(ctx))
                if z3.is_false(dom):
                    return
                ctx.assume(dom)
                ps = x.spec(ctx, False)
                dec = get_coder(s, "dec", strict)
                pre = blob_piece(ctx, "pre")
                st = stream(I, [pre] + ps + [blob_piece(ctx, "post")])
                ctx.put(st.oid, "%pos", mkint(pre.n))
                kd, vd = attempt(I, dec, st)
                R.cover(f"decoded {kind}")
                R.ensure("C01", f"dec(enc) {kind} strict={strict}: succeeds", kd == "ok")
                if kd == "ok":
                    R.ensure("C01", f"dec(enc) {kind} strict={strict}: gives the canonical value", lambda: veq(I, vd, x.canon(I)))
                    R.ensure("C01", f"dec(enc) {kind} strict={strict}: consumes the encoding",
                             zint(term(ctx.rec(st.oid)["%pos"])) == zint(pre.n) + zint(rlen(ps)))

            R.explore(back)


def blob_piece(ctx, name):
    n = z3.Int(name + ".len")
    ctx.fact(("blob", name), z3.And(n >= 0, n < 2**61))
    return A(Blob(name, (), n), z3.IntVal(0), n)


def stream(I, pieces):
    return I.call(D.ContextFramesBytesIO, (mkbytes(I.ctx, pieces),))


def run_dec(R, params):
    """The decoder on arbitrary data at an arbitrary position."""
    s = params["type"]
    t = parsed(s)
    fam = t[0]
    for strict in (True, False):
        dec = get_coder(s, "dec", strict)
        flag(R, dec, t, False, "C12 C10 C01", f"dec strict={strict}: ")

        def body(I, strict=strict, dec=dec):
            ctx = I.ctx
            d = blob_piece(ctx, "data")
            L = d.n
            p = ctx.fresh_int("p")
            ctx.assume(z3.And(p >= 0, p <= L))
            st = stream(I, [d])
            ctx.put(st.oid, "%pos", mkint(p))
            k, v = attempt(I, dec, st)
            pos = zint(term(ctx.rec(st.oid)["%pos"]))
            nm = f"dec strict={strict}: "
            R.ensure("C15", nm + "context restored", M.dec_ctx(I) is M.AMBIENT and not ctx.ambient_dirty)
            enough = p + 32 <= L
            if k == "exc":
                ok_exc = issubclass(v, DecodingError) or (fam == "string" and issubclass(v, UnicodeDecodeError))
                R.ensure("C08 C06", nm + "errors are decoding errors", ok_exc)
                R.cover("refused")
            else:
                R.cover("decoded")
                R.ensure("C08 C06 C10", nm + "needs all its bytes", enough)
            if k == "ok":
                if not ctx.prove(enough):
                    return
                w = word(ctx, d, p)
            else:
                if not ctx.decide(enough):
                    return
                w = word(ctx, d, p)
            if fam in ("bytes", "string"):
                return dyn_contract(R, I, t, d, p, w, L, k, v, pos, strict, nm)
            can, val = word_spec(I, t, w)
            if k == "exc":
                R.ensure("C06 C09 C01 C12", nm + "only non-canonical words are refused", z3.Not(can))
                return
            R.ensure("C06 C09 C12", nm + "only canonical words are accepted", can)
            R.ensure("C10 C07 C08", nm + "consumes one word", pos == p + 32)
            if ctx.prove(can):
                R.ensure("C06 C09 C15 C10 C12", nm + "value is that of the word", lambda: veq(I, v, val))
                R.ensure("C06 C09 C15 C10 C12", nm + "value has the type", value_type(I, t, v))

        R.explore(body)


PYT = {"uint": int, "int": int, "bool": bool, "address": str, "bytesM": bytes, "fixed": Decimal, "ufixed": Decimal}


def value_type(I, t, v):
    return I.pytype(v) is PYT[t[0]]


def word(ctx, d, p):
    return zint(core.piece_int(ctx, A(d.blob, p, 32)))


def word_spec(I, t, w):
    """(canonical?, value) of a word."""
    fam = t[0]
    if fam in ("uint", "ufixed"):
        can = w < 2 ** t[1]
        v = w
    elif fam in ("int", "fixed"):
        m = 2 ** (t[1] - 1)
        can = z3.Or(w < m, w >= 2**256 - m)
        v = z3.If(w < m, w, w - 2**256)
    elif fam == "bool":
        return w <= 1, mkbool(w == 1)
    elif fam == "address":
        return w < 2**160, M.NormAddr(w)
    elif fam == "bytesM":
        k = t[1]
        return w % 256 ** (32 - k) == 0, SBytes([W(tsimp(w / 256 ** (32 - k)), k)])
    if fam in ("ufixed", "fixed"):
        return can, SDec(z3.ToReal(v) / z3.RealVal(10 ** t[2]))
    return can, mkint(v)


def dyn_contract(R, I, t, d, p, w, L, k, v, pos, strict, nm):
    """bytes / string: length word w at p, content behind it."""
    ctx = I.ctx
    n = w
    padded = ((n + 31) / 32) * 32
    fits = p + 32 + padded <= L
    start = z3.simplify(p + 32)
    if strict:
        if k == "exc":
            if not ctx.decide(fits):
                return
            zero = padding_zero(ctx, d, tsimp(start + n), tsimp(padded - n))
            if issubclass(v, UnicodeDecodeError):
                ok = d.blob.fn("isutf8", 2, z3.BoolSort())(start, n)
                R.ensure("C06 C09 C08", nm + "UnicodeDecodeError only if not utf-8", z3.Or(z3.Not(ok), n == 0) if t[0] == "string" else False)
                return
            R.ensure("C06 C09 C01", nm + "refused only for padding", z3.Not(zero))
            return
        R.ensure("C06 C08", nm + "content and padding are present", fits)
        if not ctx.prove(fits):
            return
        zero = padding_zero(ctx, d, tsimp(start + n), tsimp(padded - n))
        R.ensure("C06", nm + "padding is zero", zero)
        R.ensure("C10", nm + "consumes the padded content", pos == p + 32 + padded)
        content(R, I, t, d, start, n, v, nm)
        return
    have = z3.simplify(z3.If(start + n <= L, n, L - start))
    if k == "exc":
        R.ensure("C09 C08", nm + "refused only if not utf-8", t[0] == "string" and issubclass(v, UnicodeDecodeError))
        return
    content(R, I, t, d, start, tsimp(have), v, nm)


def content(R, I, t, d, start, n, v, nm):
    ctx = I.ctx
    if t[0] == "bytes":
        def cmp():
            if not isinstance(v, (SBytes, bytes)):
                return False
            if ctx.decide(zint(n) == 0):
                return zint(rlen(pieces_of(v))) == 0
            # the very bytes of the data
            ps = pieces_of(v)
            return z3.And(zint(rlen(ps)) == zint(n), same_slice(ctx, ps, d.blob, start))

        R.ensure("C06 C09 C10 C08", nm + "value is the content", cmp)
    else:
        def cmp2():
            if isinstance(v, str):
                return z3.And(z3.BoolVal(v == ""), zint(n) == 0)
            if not isinstance(v, M.SText):
                return False
            if ctx.prove(zint(n) == 0):
                return True
            want = d.blob.fn("text", 2, M.V)(start, n)
            return v.t == want

        R.ensure("C06 C09 C10 C08", nm + "value is the text of the content", cmp2)
        R.ensure("C06 C09", nm + "only utf-8 is accepted", lambda: True if ctx.prove(zint(n) == 0) else z3.Or(zint(n) == 0, d.blob.fn("isutf8", 2, z3.BoolSort())(start, zint(n))))


def same_slice(ctx, ps, blob, off):
    fs = []
    for p in ps:
        if isinstance(p, A) and p.blob.same(ctx, blob):
            fs.append(zint(p.off) == zint(off))
        elif isinstance(p, W):
            n = p.n if is_num(p.n) else ctx.unique(p.n)
            if n is None:
                raise NotAligned("word")
            fs.append(zint(p.v) == zint(core.piece_int(ctx, A(blob, off, n))))
        else:
            raise NotAligned("content of another kind")
        off = tsimp(zint(off) + zint(p.n))
    return z3.And(*fs) if fs else z3.BoolVal(True)


def padding_zero(ctx, d, off, n):
    """the n bytes at off are zero; n < 32"""
    z = d.blob.fn("zero", 2, z3.BoolSort())(off, n)
    ctx.fact(("zero", z.get_id()), z3.Implies(zint(n) <= 0, z))
    return z


def types_for(tier):
    out = [f"{f}{n}" for f in ("uint", "int") for n in range(8, 257, 8)]
    out += [f"bytes{n}" for n in range(1, 33)] + ["bool", "address", "bytes", "string", "function"]
    return out


def fixed_for(tier, prop=None):
    if tier != "thorough" and prop == "C12":
        return [f"{f}{m}x{n}" for f in ("ufixed", "fixed") for m, n in ((8, 1), (8, 80), (128, 18), (136, 79), (248, 80), (256, 1), (256, 80), (64, 10))]
    if tier == "thorough":
        return [f"{f}{m}x{n}" for f in ("ufixed", "fixed") for m in range(8, 257, 8) for n in range(1, 81)]
    sel = {(m, n) for m in (8, 16, 128, 248, 256) for n in (1, 2, 18, 79, 80)}
    sel |= {(m, 18) for m in range(8, 257, 8)} | {(128, n) for n in range(1, 81)}
    return [f"{f}{m}x{n}" for f in ("ufixed", "fixed") for m, n in sorted(sel)]


register("leaf-encoder", "C01 C02 C03 C04 C05 C12 C15", lambda tier, prop: [
    {"type": s, "codec": c, "all_kinds": all_kinds(s, tier) and (prop != "C12" or tier == "thorough")} for s in (types_for(tier) if prop != "C15" else []) + fixed_for(tier, prop) for c in ("std", "packed")
    if not (prop == "C02" and c == "packed") and not (prop == "C03" and c == "std") and not (prop in ("C01", "C12") and c == "packed")], run_enc, replay=RP_.leaf)
register("leaf-decoder", "C01 C06 C07 C08 C09 C10 C12 C15", lambda tier, prop: [
    {"type": s} for s in (types_for(tier) if prop != "C15" else []) + fixed_for(tier, prop) if not (prop == "C07" and s in ("bytes", "string"))], run_dec, may_be_empty=True, replay=RP_.leaf)
