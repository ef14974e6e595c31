"""Contracts of type strings: printing, item types, classification, validation, normalisation
(eth_abi/grammar.py) and the resolution of a type string to its coders (eth_abi/base.py,
eth_abi/registry.py, the from_type_str methods), over types of arbitrary base, size and shape.

A type is symbolic: any base name, no size / one size / two sizes (arbitrary positive
integers), any number of array dimensions, and for tuples any number of components, each only
known by the contract of its own type (induction over nesting).
"""
from .base import *  # noqa: F401,F403
from .base import M, attempt, register
from .comp import BOOL, F, INT, LIM, V, fresh_len

import eth_abi.base as B
import eth_abi.decoding as D
import eth_abi.encoding as E
import eth_abi.exceptions as X
import eth_abi.grammar as GR
import eth_abi.registry as G

SIGMA = ["string", "bytes", "int", "uint", "fixed", "ufixed", "address", "bool", "hash", "function", "byte"]
CODE = {s: i for i, s in enumerate(SIGMA)}


def code(s):
    if s not in CODE:
        CODE[s] = len(CODE)
    return CODE[s]


def litlen(s):
    return len(s.encode())


class AbsBase(Sym):
    """The base name of a basic type: an arbitrary nonempty alphabetic word."""
    pytype_ = str

    def __init__(self, ctx, t):
        self.t = t
        L = F("baselen", INT, INT)(t)
        ctx.fact(("bl", L.get_id()), z3.And(L >= 1, L < 2**40))
        self.blob = Blob("base", (t,), L)
        self.L = L

    def sym_eq(self, I, o):
        if isinstance(o, str):
            return mkbool(self.t == code(o)) if o.isascii() and o.isalpha() else False
        if isinstance(o, AbsBase):
            return mkbool(self.t == o.t)
        if o is None or isinstance(o, (int, tuple, SInt)):
            return False
        raise Unsupported("equality of a base name")

    def sym_pieces(self):
        return [A(self.blob, z3.IntVal(0), self.L)]

    def sym_truth(self, I):
        return True

    def sym_is(self, I, o):
        if o is None or isinstance(o, (bool, int)):
            return False
        raise Unsupported("identity of a base name")

    def sym_isinstance(self, I, T):
        return T in (str, object)


class AbsNode(Sym):
    """The parsimonious node of a type: only used for messages."""

    def sym_getattr(self, I, name):
        if name in ("text", "full_text"):
            return OpaqueText()
        if name in ("start", "end"):
            x = I.ctx.fresh_int("node")
            I.ctx.assume(z3.And(x >= 0, x < LIM))
            return SInt(x)
        raise Unsupported(f"node.{name}")

    def sym_is(self, I, o):
        return o is self

    def sym_truth(self, I):
        return True


class AbsComp(Sym):
    """A component type, known by the contract of ABIType.  norm: of the normalised string."""

    def __init__(self, i, norm=False):
        self.i, self.norm = zint(i), norm

    def f(self, name):
        return F(name + ("n" if self.norm else ""), INT, BOOL)(self.i)

    def blob(self, ctx):
        nm = "tyn" if self.norm else "ty"
        L = F(nm + "len", INT, INT)(self.i)
        ctx.fact(("tyl", L.get_id()), z3.And(L >= 1, L < 2**40))
        return A(Blob(nm, (self.i,), L), z3.IntVal(0), L)

    def dyn(self):
        # classification does not depend on how sizes of aliases are written, see type-resolve
        return self.f("tdyn")

    def valid(self, ctx):
        v = self.f("tvalid")
        if self.norm:
            ctx.fact(("cok", v.get_id()), z3.Implies(z3.Or(cok(self.i), ALLOK), v))
        return v

    def sym_getattr(self, I, name):
        if name == "to_type_str":
            return Model(lambda I, a, k: CompText(I.ctx, self))
        if name == "is_dynamic":
            return mkbool(self.dyn())
        if name == "validate":
            return Model(self.validate)
        raise Unsupported(f"attribute {name} of a component type")

    def validate(self, I, a, k):
        if not I.ctx.decide(self.valid(I.ctx)):
            I.raise_(X.ABITypeError)
        return None

    def sym_truth(self, I):
        return True


ALLOK = z3.Bool("allok")


def cok(i):
    """The type of component i is supported."""
    return F("cok", INT, BOOL)(zint(i))


class CompText(Sym):
    """The type string of a component."""
    pytype_ = str

    def __init__(self, ctx, c):
        self.c = c
        self.a = c.blob(ctx)

    def sym_pieces(self):
        return [self.a]

    def sym_truth(self, I):
        return True


class TD:
    """A symbolic type.  kind: basic | tuple; sub: none | int | pair; arr: dimensions or not."""

    def __init__(self, ctx, kind, sub="none", arr=False, base=None):
        self.kind, self.subkind, self.hasarr = kind, sub, arr
        if kind == "basic":
            self.b = ctx.fresh_int("base") if base is None else z3.IntVal(code(base))
            if base is None:
                ctx.assume(self.b >= 0)
            self.base = AbsBase(ctx, self.b)
            if sub == "none":
                self.sub = None
            else:
                xs = [ctx.fresh_int(n) for n in (("m",) if sub == "int" else ("m", "n"))]
                for x in xs:
                    # the grammar has no sizes below 1; CPython converts at most 4300 digits
                    ctx.assume(z3.And(x >= 1, x < 2**4000))
                self.xs = xs
                self.sub = SInt(xs[0]) if sub == "int" else tuple(SInt(x) for x in xs)
        else:
            self.nc = ctx.fresh_int("nc")
            ctx.assume(z3.And(self.nc >= 1, self.nc < LIM))
            self.comps = SymSeq(self.nc, AbsComp)
            self.comp = AbsComp
        self.nd = None
        self.arr = None
        if arr:
            self.nd = ctx.fresh_int("nd")
            ctx.assume(z3.And(self.nd >= 1, self.nd < LIM))
            self.arr = SymSeq(self.nd, lambda i: self.dim(ctx, i))
        self.node = AbsNode()
        self.norm = False

    def like(self, **kw):
        t = TD.__new__(TD)
        t.__dict__.update(self.__dict__)
        t.__dict__.update(kw)
        return t

    # ---- dimensions
    def isconst(self, i):
        return F("dimconst", INT, BOOL)(zint(i))

    def size(self, ctx, i):
        s = F("dimsize", INT, INT)(zint(i))
        ctx.fact(("dims", s.get_id()), z3.And(s >= 1, s < 2**4000))
        return s

    def dim(self, ctx, i):
        return (mkint(self.size(ctx, i)),) if ctx.decide(self.isconst(i)) else ()

    def make(self, I):
        if self.kind == "basic":
            return I.call(GR.BasicType, (self.base, self.sub, self.arr), {"node": self.node})
        return I.call(GR.TupleType, (self.comps, self.arr), {"node": self.node})

    # ---- specifications
    def dims_rope(self, ctx, nd):
        def gen(i):
            if ctx.decide(self.isconst(i)):
                return [Lit(b"["), core.dec_blob(ctx, self.size(ctx, i)), Lit(b"]")]
            return [Lit(b"[]")]

        ps = ctx.psum(nd, lambda i: core.rlen(gen(zint(term(i)))))
        return [Big(nd, gen, ps)]

    def rope(self, ctx, nd=None):
        if self.kind == "basic":
            ps = list(core.text_pieces(self.base))
            if self.subkind == "int":
                ps.append(core.dec_blob(ctx, self.xs[0]))
            elif self.subkind == "pair":
                ps += [core.dec_blob(ctx, self.xs[0]), Lit(b"x"), core.dec_blob(ctx, self.xs[1])]
        else:
            def gen(i):
                return [Lit(b","), self.comp(tsimp(zint(i) + 1)).blob(ctx)]

            n1 = tsimp(self.nc - 1)
            big = Big(n1, gen, ctx.psum(n1, lambda i: core.rlen(gen(zint(term(i))))))
            ps = [Lit(b"("), self.comp(0).blob(ctx), big, Lit(b")")]
        if self.hasarr:
            n = self.nd if nd is None else nd
            if nd is None or ctx.decide(zint(nd) >= 1):
                ps += self.dims_rope(ctx, n)
        return ps

    def is_(self, *names):
        return z3.Or(*[self.b == code(n) for n in names])

    def valid(self):
        """Valid sizes (known families only)."""
        k = self.subkind
        if k == "none":
            return z3.Not(self.is_("int", "uint", "fixed", "ufixed"))
        m = self.xs[0]
        bits = z3.And(m >= 8, m <= 256, m % 8 == 0)
        if k == "int":
            return z3.Or(z3.And(self.is_("int", "uint"), bits), z3.And(self.is_("bytes"), m <= 32))
        return z3.And(self.is_("fixed", "ufixed"), bits, self.xs[1] >= 1, self.xs[1] <= 80)


def teq(ctx, v, rope):
    t = core.text_pieces(v)
    if t is None:
        raise NotAligned("text is not tracked")
    return core.eq_formula(ctx, t, rope)


def same_arr(I, td, arr, nd):
    """arr is the first nd dimensions of the type."""
    ctx = I.ctx
    if not isinstance(arr, (tuple, SeqV)):
        return False
    if not ctx.prove(zint(seq_len(arr)) == zint(nd)):
        return False
    k = ctx.fresh_int("k")
    good = []

    def go():
        d = seq_get(I, arr, k)
        if not isinstance(d, tuple):
            raise Unsupported("dimension")
        const = ctx.decide(td.isconst(k))
        good.append(len(d) == 1 and ctx.prove(zint(term(d[0])) == td.size(ctx, k)) if const else d == ())
        return "ok", None

    ctx.sub_explore(go, assume=[k >= 0, k < zint(nd)], index=k, prefix="sa/")
    return all(good)


def run_type(R, p):
    op = p["op"]

    def run(I):
        ctx = I.ctx
        ctx.texts = True
        td = TD(ctx, p["kind"], p.get("sub", "none"), p["arr"])
        o = td.make(I)
        nm = f"{p['kind']} {op}: "
        if op == "to_type_str":
            k, v = attempt(I, I.getattr(o, "to_type_str"))
            R.ensure("C11", nm + "prints the type as it is written", lambda: k == "ok" and teq(ctx, v, td.rope(ctx)))
        elif op == "item_type":
            k, v = prop_(I, o, "item_type")
            if not p["arr"]:
                R.ensure("C11", nm + "a type that is no array has no item type", k == "exc" and issubclass(v, ValueError))
                return
            good = k == "ok" and isinstance(v, SObj) and v.cls is o.cls
            R.ensure("C11 C12", nm + "is a type of the same kind", good)
            if not good:
                return
            r = ctx.rec(v.oid)
            last = td.nd - 1
            if ctx.decide(last == 0):
                R.ensure("C11 C12", nm + "drops exactly the last dimension", r["arrlist"] is None)
            else:
                R.ensure("C11 C12", nm + "drops exactly the last dimension", lambda: same_arr(I, td, r["arrlist"], last))
            if td.kind == "basic":
                R.ensure("C11 C12", nm + "keeps base and sizes", r["base"] is td.base and same_sub(ctx, r["sub"], td.sub))
            else:
                R.ensure("C11 C12", nm + "keeps the components", r["components"] is td.comps)
            k, s = attempt(I, I.getattr(v, "to_type_str"))
            R.ensure("C11 C12", nm + "prints without the last dimension", lambda: k == "ok" and teq(ctx, s, td.rope(ctx, nd=last)))
        elif op == "flags":
            k, v = prop_(I, o, "is_array")
            R.ensure("C12", nm + "is_array", k == "ok" and v is p["arr"])
            k, v = prop_(I, o, "is_dynamic")
            b = v is True if isinstance(v, bool) else v.t if isinstance(v, SBool) else None
            if k != "ok" or b is None:
                R.ensure("C12", nm + "gives an answer", False)
                return
            b = ctx.decide(b) if not isinstance(b, bool) else b
            dynarr = lambda i: z3.And(i >= 0, i < td.nd, z3.Not(td.isconst(i))) if td.hasarr else z3.BoolVal(False)
            if td.kind == "basic":
                other = z3.Or(td.is_("string"), z3.And(td.is_("bytes"), z3.BoolVal(td.subkind == "none")))
                inner = lambda i: z3.BoolVal(False)
            else:
                other = z3.BoolVal(False)
                inner = lambda i: z3.And(i >= 0, i < td.nc, F("tdyn", INT, BOOL)(i))
            if b:
                R.ensure("C12", nm + "dynamic only for a reason", lambda: z3.Or(other, *[z3.Or(dynarr(i), inner(i)) for i in ctx.idx]))
            else:
                j = ctx.fresh_int("j")
                ctx.add_index(j)
                R.ensure("C12", nm + "static only if nothing is dynamic", z3.And(z3.Not(other), z3.Not(dynarr(j)), z3.Not(inner(j))))
        elif op == "validate":
            k, v = attempt(I, I.getattr(o, "validate"))
            R.cover(nm + k)
            if k == "exc":
                R.ensure("C12", nm + "refuses with a type error", issubclass(v, X.ABITypeError))
            if td.kind == "basic":
                known = td.is_(*[s for s in SIGMA if s not in ("hash", "function", "byte")])
                if k == "exc":
                    R.ensure("C12", nm + "no valid type is refused", z3.Implies(known, z3.Not(td.valid())))
                else:
                    R.ensure("C12", nm + "only valid types of the known families are accepted", z3.Implies(known, td.valid()))
            else:
                bad = lambda i: z3.And(i >= 0, i < td.nc, z3.Not(F("tvalid", INT, BOOL)(i)))
                if k == "exc":
                    R.ensure("C12", nm + "refused only for an invalid component", lambda: z3.Or(*[bad(i) for i in ctx.idx]))
                else:
                    j = ctx.fresh_int("j")
                    ctx.add_index(j)
                    R.ensure("C12", nm + "every component is validated", z3.Not(bad(j)))

    R.explore(run)


def prop_(I, o, name):
    try:
        return "ok", I.getattr(o, name)
    except PyExc as e:
        return "exc", e.val.cls


def same_sub(ctx, a, b):
    if b is None:
        return a is None
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same_sub(ctx, x, y) for x, y in zip(a, b))
    return isinstance(a, (SInt, int)) and ctx.prove(zint(term(a)) == zint(term(b)))


def type_jobs(tier, prop):
    out = []
    for op in (("to_type_str", "item_type") if prop == "C11" else ("item_type", "flags", "validate")):
        for kind, sub in [("basic", s) for s in ("none", "int", "pair")] + [("tuple", "none")]:
            for arr in (False, True):
                if prop == "C12" and op == "item_type" and not arr:
                    continue
                out.append({"op": op, "kind": kind, "sub": sub, "arr": arr})
    return out


# ------------------------------------------------------------------ type strings
def alternatives(pat):
    """The words a pattern of the form \\b(w1|w2|...)\\b matches: exactly the maximal words
    (runs of letters and digits) of a type string that are equal to one of them."""
    import re
    import re._parser as P
    if not isinstance(pat.pattern, str) or pat.flags & ~re.UNICODE:
        raise Unsupported("flags of the alias pattern")
    t = list(P.parse(pat.pattern, pat.flags))
    AT, BR, SP, LI = P.AT, P.BRANCH, P.SUBPATTERN, P.LITERAL
    if len(t) < 3 or t[0] != (AT, P.AT_BOUNDARY) or t[-1] != (AT, P.AT_BOUNDARY):
        raise Unsupported("alias pattern")

    def words(q):
        """all strings a sequence of literals, groups and branches can match"""
        out = [""]
        for op, av in q:
            if op is LI:
                nxt = [chr(av)]
            elif op is P.IN and all(o is LI for o, _ in av):
                nxt = [chr(v) for _, v in av]
            elif op is SP:
                if av[1] or av[2]:
                    raise Unsupported("alias pattern")
                nxt = words(av[3])
            elif op is BR:
                nxt = [w for alt in av[1] for w in words(alt)]
            elif op is P.MAX_REPEAT and av[0] == 0 and av[1] == 1:
                nxt = [""] + words(av[2])
            else:
                raise Unsupported("alias pattern")
            out = [a + b for a in out for b in nxt]
        return out

    ws = words(t[1:-1])
    if any(not (w.isascii() and w.isalnum()) for w in ws):
        raise Unsupported("alias pattern")
    return sorted(set(ws)), len(t) == 3 and t[1][0] is SP and t[1][1][0] == 1


class MatchObj(Sym):
    def __init__(self, w, whole):
        self.w, self.whole = w, whole

    def sym_getattr(self, I, name):
        if name == "group":
            return Model(self.group)
        raise Unsupported(f"match.{name}")

    def group(self, I, args, kwargs):
        if kwargs or not (args in ((), (0,)) or (args == (1,) and self.whole)):
            raise Unsupported("match.group")
        return self.w

    def sym_getitem(self, I, k):
        return self.group(I, (k,), {})


class TS(Sym):
    """The type string that is written like td."""
    pytype_ = str

    def __init__(self, td):
        self.td = td

    def sym_truth(self, I):
        return True

    def sym_eq(self, I, o):
        if o is self:
            return True
        if isinstance(o, str):
            return mkbool(is_literal(I.ctx, self.td, o))
        if isinstance(o, TS):
            if o.td is self.td:
                return True
            if self.td.kind == "tuple" or o.td.kind == "tuple":
                return mkbool(z3.Bool("same_after_norm"))
            return False if self.td.norm != o.td.norm else unsup("type strings")
        if o is None or isinstance(o, (int, tuple, SInt)):
            return False
        raise Unsupported("equality of type strings")

    def sym_is(self, I, o):
        if o is None or isinstance(o, (bool, int)):
            return False
        raise Unsupported("identity of a type string")

    def sym_isinstance(self, I, T):
        return T in (str, object)

    def sym_callable(self, I):
        return False

    def sym_re(self, I, pat, name, args, kwargs):
        if name != "sub" or len(args) != 2 or kwargs or args[1] is not self:
            raise Unsupported("regular expression on a type string")
        words, whole = alternatives(pat)
        td = self.td
        if td.kind == "tuple":
            if td.norm:
                return self  # idempotent below, by induction
            nt = td.like(norm=True, comps=SymSeq(td.nc, lambda i: AbsComp(i, True)), comp=lambda i: AbsComp(i, True))
            return TS(nt)
        for w in words:
            f = token_is(td, w)
            if f is not False and I.ctx.decide(f):
                out = I.call(args[0], (MatchObj(w, whole),)) if not isinstance(args[0], str) else unsup("template")
                return TS(token(I.ctx, td, out))
        return self


def unsup(s):
    raise Unsupported(s)


def split_token(w):
    """(base, sizes) of a word, or None"""
    import re
    m = re.fullmatch(r"([A-Za-z]+)(?:([1-9][0-9]*)(?:x([1-9][0-9]*))?)?", w) if isinstance(w, str) else None
    return None if m is None else (m[1], tuple(int(x) for x in m.groups()[1:] if x))


def token_is(td, w):
    """base and sizes of td are written w"""
    s = split_token(w)
    if s is None or len(s[1]) != {"none": 0, "int": 1, "pair": 2}[td.subkind]:
        return False
    base = td.b == code(s[0])
    return z3.And(base, *[x == y for x, y in zip(getattr(td, "xs", ()), s[1])])


def token(ctx, td, w):
    """td with base and sizes written w"""
    s = split_token(w)
    if s is None:
        raise Unsupported(f"replacement {w!r}")
    n = len(s[1])
    xs = [z3.IntVal(x) for x in s[1]]
    return td.like(norm=True, b=z3.IntVal(code(s[0])), base=s[0], subkind=("none", "int", "pair")[n], xs=xs,
                   sub=None if n == 0 else s[1][0] if n == 1 else s[1])


def is_literal(ctx, td, lit):
    """The type string td is the literal (printing and parsing are inverse, see type-objects)."""
    try:
        t = GR.parse(lit)
    except Exception:
        return z3.BoolVal(False)
    if td.hasarr != (t.arrlist is not None):
        return z3.BoolVal(False)
    if isinstance(t, GR.TupleType) != (td.kind == "tuple"):
        return z3.BoolVal(False)
    if td.kind == "tuple" or td.hasarr:
        raise Unsupported("comparison with a compound type string")
    f = token_is(td, lit)
    return z3.BoolVal(f) if isinstance(f, bool) else f


ALIASES = {"int": "int256", "uint": "uint256", "fixed": "fixed128x18", "ufixed": "ufixed128x18", "function": "bytes24", "byte": "bytes1"}


def run_norm(R, p):
    def run(I):
        ctx = I.ctx
        ctx.texts = True
        td = TD(ctx, p["kind"], p["sub"], p["arr"])
        q = TS(td)
        k, v = attempt(I, GR.normalize, q)
        nm = "normalize: "
        good = k == "ok" and isinstance(v, TS)
        R.ensure("C11", nm + "gives a type string", good)
        if not good:
            return
        if td.kind == "basic":
            want = None
            for a, c in ALIASES.items():
                if td.subkind == "none" and ctx.decide(td.b == code(a)):
                    want = c
            if want is None:
                R.ensure("C11", nm + "changes nothing but aliases", v.td is td or (v.td.hasarr == td.hasarr and v.td.arr is td.arr and v.td.subkind == td.subkind
                         and ctx.prove(z3.And(v.td.b == td.b, *[x == y for x, y in zip(getattr(td, "xs", ()), getattr(v.td, "xs", ()))]))))
            else:
                f = token_is(v.td, want)
                R.ensure("C11 C12", nm + "an alias becomes its canonical type", f)
                R.ensure("C11", nm + "the dimensions are kept", v.td.arr is td.arr)
        else:
            R.ensure("C11", nm + "every component is normalised, dimensions are kept", v.td.arr is td.arr and v.td.norm)
        k, w = attempt(I, GR.normalize, v)
        R.ensure("C11", nm + "is idempotent", k == "ok" and isinstance(w, TS) and w.td is v.td)

    R.explore(run)


register("type-normalize", "C11 C12", lambda tier, prop: [
    {"kind": k, "sub": s, "arr": a} for k, s in (("basic", "none"), ("basic", "int"), ("basic", "pair"), ("tuple", "none")) for a in (False, True)
    if prop != "C12" or s == "none" and k == "basic"], run_norm, limit=60)


# ------------------------------------------------------------------ resolution
class AbsItem(Sym):
    """The coder another lookup returned: key = component index, or the item of an array."""

    def __init__(self, key, dynf):
        self.key, self.dynf = key, dynf

    def sym_getattr(self, I, name):
        if name == "is_dynamic":
            return mkbool(self.dynf)
        raise Unsupported(f"attribute {name} of a nested coder")

    def sym_is(self, I, o):
        if o is None or isinstance(o, (bool, int)):
            return False
        if isinstance(o, AbsItem):
            return mkbool(z3.And(self.key[1] == o.key[1], z3.BoolVal(self.key[0] == o.key[0])))
        raise Unsupported("identity of a nested coder")

    def sym_eq(self, I, o):
        return self.sym_is(I, o)

    def sym_truth(self, I):
        return True

    def sym_callable(self, I):
        return True

    def sym_isinstance(self, I, T):
        if T in (str, bytes, int, type, tuple, list, dict):
            return False
        if T in (G.BaseCoder, E.BaseEncoder, D.BaseDecoder):
            return True
        if isinstance(T, type) and issubclass(T, D.HeadTailDecoder):
            return False
        raise Unsupported("type of a nested coder")


def supported(td):
    k = td.subkind
    if k == "none":
        return td.is_("string", "bytes", "bool", "address", *ALIASES)
    m = td.xs[0]
    bits = z3.And(m >= 8, m <= 256, m % 8 == 0)
    if k == "int":
        return z3.Or(z3.And(td.is_("int", "uint"), bits), z3.And(td.is_("bytes"), m <= 32))
    return z3.And(td.is_("fixed", "ufixed"), bits, td.xs[1] >= 1, td.xs[1] <= 80)


def canonical(ctx, td):
    """td after normalisation (specification)"""
    if td.kind == "tuple":
        return td.like(norm=True, comps=SymSeq(td.nc, lambda i: AbsComp(i, True)), comp=lambda i: AbsComp(i, True))
    for a, c in ALIASES.items():
        if td.subkind == "none" and ctx.decide(td.b == code(a)):
            return token(ctx, td, c)
    return td


class Same:
    """Two coders are the same: class and attributes, at every index."""

    def __init__(self, I):
        self.I = I

    def __call__(self, a, b, depth=0):
        I, ctx = self.I, self.I.ctx
        if a is b:
            return True
        if depth > 6:
            raise Unsupported("deep coder")
        if isinstance(a, AbsItem) or isinstance(b, AbsItem):
            return isinstance(a, AbsItem) and isinstance(b, AbsItem) and a.key[0] == b.key[0] and ctx.prove(zint(a.key[1]) == zint(b.key[1]))
        if isinstance(a, SObj) and isinstance(b, SObj):
            if a.oid == b.oid:
                return True
            if a.cls is not b.cls:
                return False
            x, y = ctx.rec(a.oid), ctx.rec(b.oid)

            def get(r, n):
                return r[n] if n in r else getattr(a.cls, n, None)

            return all(self(get(x, n), get(y, n), depth + 1) for n in sorted(set(x) | set(y)))
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            T = (SInt, int) if isinstance(a, SInt) or isinstance(b, SInt) else (SBool, bool)
            if not (isinstance(a, T) and isinstance(b, T)):
                return False
            ta, tb = term(a), term(b)
            if T[0] is SBool:
                ta, tb = (z3.BoolVal(t) if isinstance(t, bool) else t for t in (asb(a), asb(b)))
                return ctx.prove(ta == tb)
            return ctx.prove(zint(ta) == zint(tb))
        if isinstance(a, SList):
            a = I.list_v(a)
        if isinstance(b, SList):
            b = I.list_v(b)
        if isinstance(a, (tuple, SeqV)) and isinstance(b, (tuple, SeqV)):
            if not ctx.prove(zint(seq_len(a)) == zint(seq_len(b))):
                return False
            k = ctx.fresh_int("k")
            good = []

            def go():
                good.append(self(seq_get(I, a, k), seq_get(I, b, k), depth + 1))
                return "ok", None

            ctx.sub_explore(go, assume=[k >= 0, k < zint(seq_len(a))], index=k, prefix=f"same{depth}/")
            return all(good)
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported(f"comparison of coder attributes {a!r} {b!r}")
        return type(a) is type(b) and a == b


def asb(v):
    return v.t if isinstance(v, SBool) else bool(v)


ARRAYS = {"std-e": (E.SizedArrayEncoder, E.DynamicArrayEncoder, "item_encoder"), "std-d": (D.SizedArrayDecoder, D.DynamicArrayDecoder, "item_decoder"),
          "packed-e": (E.PackedArrayEncoder, E.PackedArrayEncoder, "item_encoder")}
KNOWN = {E.SizedArrayEncoder, E.DynamicArrayEncoder, D.SizedArrayDecoder, D.DynamicArrayDecoder, E.PackedArrayEncoder, E.TupleEncoder, D.TupleDecoder}


def run_resolve(R, p):
    codec, side = p["codec"], p["side"]
    reg = G.registry if codec == "std" else G.registry_packed
    which = reg.get_encoder if side == "e" else reg.get_decoder

    def run(I):
        ctx = I.ctx
        ctx.texts = True
        nm = f"{codec} {'encoder' if side == 'e' else 'decoder'} of {p['kind']}{'[]' if p['arr'] else ''}: "
        if p["kind"] == "no-type":
            q = TS(TD(ctx, "basic"))

            def parse(I, args, kwargs):
                if len(args) != 1 or args[0] is not q:
                    raise Unsupported("grammar.parse")
                I.raise_(X.ParseError if ctx.decide(z3.Bool("perr")) else ValueError)

            I.contracts[id(GR.parse)] = parse
            ctx.assume(z3.And(*[q.td.b != code(s) for s in SIGMA]))
            k, v = attempt(I, which.__wrapped__, q)
            R.ensure("C12 C11", nm + "a string that is no type has no coder", k == "exc" and v is not X.MultipleEntriesFound)
            return
        td = TD(ctx, p["kind"], p["sub"], p["arr"])
        cn = canonical(ctx, td)
        q = TS(td)
        state = {"nested": []}

        def parse(I, args, kwargs):
            if len(args) != 1 or kwargs:
                raise Unsupported("grammar.parse")
            if isinstance(args[0], TS):
                return args[0].td.make(I)
            if isinstance(args[0], str):
                return GR.parse(args[0])
            raise Unsupported("grammar.parse of another text")

        def nested(I, args, kwargs):
            vs = list(args) + list(kwargs.values())
            if not vs or any(x is not True for x in vs[1:]):
                raise Unsupported("nested lookup")
            s = vs[0]
            if td.kind == "tuple" and not td.hasarr:
                if not isinstance(s, CompText):
                    raise Unsupported("nested lookup of something else than a component")
                c = s.c
                if not c.norm:
                    raise Unsupported("lookup of a component that is not normalised")
                if not I.ctx.decide(cok(c.i)):
                    I.raise_(X.ABITypeError)
                return AbsItem(("comp", c.i), z3.BoolVal(False) if codec == "packed" else c.dyn())
            if not td.hasarr:
                raise Unsupported("nested lookup for a basic type")
            R.ensure("C11 C12", nm + "the item coder is the coder of the item type", lambda: teq(I.ctx, s, cn.rope(I.ctx, nd=tsimp(td.nd - 1))))
            okf = supported(td) if td.kind == "basic" else ALLOK
            if not I.ctx.decide(okf):
                I.raise_(X.ABITypeError)
            return AbsItem(("item", z3.IntVal(0)), z3.BoolVal(False) if codec == "packed" else z3.Bool("itemdyn"))

        I.contracts[id(GR.parse)] = parse
        I.contracts[id(which)] = nested
        k, v = attempt(I, which.__wrapped__, q)
        R.cover(nm + k)
        if k == "exc":
            R.ensure("C12", nm + "no two registrations match", v is not X.MultipleEntriesFound)
            if td.kind == "basic":
                R.ensure("C12 C11", nm + "every valid type is supported", z3.Not(supported(td)))
            elif td.hasarr:
                R.ensure("C12 C11", nm + "every valid type is supported", z3.Not(ALLOK))
            else:
                R.ensure("C12 C11", nm + "every valid type is supported", lambda: z3.Or(*[z3.And(i >= 0, i < td.nc, z3.Not(cok(i))) for i in ctx.idx]))
            return
        same = Same(I)
        if td.kind == "basic" and not td.hasarr:
            R.ensure("C12", nm + "only valid types are supported", supported(td))
            if cn is not td:
                k2, v2 = attempt(I, which.__wrapped__, TS(cn))
                R.ensure("C11 C12", nm + "an alias has the coder of its canonical type", lambda: k2 == "ok" and same(v, v2))
            return
        if not isinstance(v, SObj) or v.cls not in KNOWN:
            raise Unsupported("another coder class")
        if td.hasarr:
            R.ensure("C12", nm + "only valid types are supported", supported(td) if td.kind == "basic" else ALLOK)
            S, Dy, kw = ARRAYS[f"{codec}-{side}"]
            last = tsimp(td.nd - 1)
            item = AbsItem(("item", z3.IntVal(0)), z3.BoolVal(False) if codec == "packed" else z3.Bool("itemdyn"))
            if ctx.decide(td.isconst(last)):
                want = I.call(S, (), {"array_size": mkint(td.size(ctx, last)), kw: item})
            else:
                want = I.call(Dy, (), {kw: item})
            R.ensure("C12 C11", nm + "the coder has the last dimension and the coder of the items", lambda: same(v, want))
            return
        j = ctx.fresh_int("j")
        ctx.add_index(j)
        R.ensure("C12", nm + "only valid types are supported", z3.Implies(z3.And(j >= 0, j < td.nc), cok(j)))
        seq = SymSeq(td.nc, lambda i: AbsItem(("comp", zint(i)), z3.BoolVal(False) if codec == "packed" else AbsComp(i, True).dyn()))
        want = I.call(E.TupleEncoder, (), {"encoders": seq}) if side == "e" else I.call(D.TupleDecoder, (), {"decoders": seq})
        R.ensure("C12 C11", nm + "the coder has the coders of the components in order", lambda: same(v, want))

    R.explore(run)


register("type-resolve", "C11 C12", lambda tier, prop: [
    {"codec": c, "side": d, "kind": k, "sub": s, "arr": a} for c, d in (("std", "e"), ("std", "d"), ("packed", "e"))
    for k, s in (("basic", "none"), ("basic", "int"), ("basic", "pair"), ("tuple", "none"), ("no-type", "none")) for a in (False, True)
    if not (k == "no-type" and a)], run_resolve, limit=90, boundable=True)


register("type-objects", "C11 C12", type_jobs, run_type, limit=60, boundable=True)
