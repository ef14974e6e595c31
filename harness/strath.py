"""Contracts of the hypothesis strategies (eth_abi/tools/_strategies.py, utils/numeric.scale_places).

hypothesis is a dependency and enters by contract: integers(lo, hi) generates exactly the integers
lo..hi, decimals(lo, hi, places=k) exactly the finite multiples of 10**-k there, binary(a, b) the
byte strings of a..b bytes, text() UTF-8 representable text, booleans() both booleans, lists(s, a, b)
the lists of a..b items of s, tuples(*s) the tuples with an item of each, s.map(f) the f(x) for x of s.
"""
import inspect
from decimal import Decimal

from .base import *  # noqa: F401,F403
from .base import EncodingError, M, attempt, register
from .comp import F, INT, LIM, V, fresh_len
from .leaf import fixed_for, parsed, types_for
from .typeh import ALIASES, TD, TS, AbsComp, CompText, canonical, cok, supported, teq, ALLOK

import eth_utils
import eth_abi.grammar as GR
import eth_abi.registry as G
from hypothesis import strategies as st


def S_():
    import eth_abi.tools._strategies as S

    return S


class Strat(Sym):
    """A strategy: kind and arguments."""

    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw

    def sym_getattr(self, I, name):
        if name == "map":
            return Model(lambda I, a, k: Strat("map", src=self, f=(list(a) + list(k.values()))[0]))
        raise Unsupported(f"strategy.{name}")

    def sym_isinstance(self, I, T):
        return T in (st.SearchStrategy, object)

    def sym_truth(self, I):
        return True

    def sym_callable(self, I):
        return False

    def sym_is(self, I, o):
        if o is None:
            return False
        raise Unsupported("identity of strategies")


ALLOWED = {
    "integers": (st.integers, ("min_value", "max_value")),
    "decimals": (st.decimals, ("min_value", "max_value", "allow_nan", "allow_infinity", "places")),
    "binary": (st.binary, ("min_size", "max_size")),
    "text": (st.text, ("alphabet", "min_size", "max_size")),
    "booleans": (st.booleans, ()),
    "lists": (st.lists, ("elements", "min_size", "max_size")),
}


def make(kind, args, kw):
    fn, names = ALLOWED[kind]
    kw = dict(kw)
    if len(args) > len(names):
        raise Unsupported(f"arguments of {kind}")
    for n, a in zip(names, args):
        if n in kw:
            raise Unsupported(f"arguments of {kind}")
        kw[n] = a
    if set(kw) - set(names):
        raise Unsupported(f"arguments of {kind}: {sorted(set(kw) - set(names))}")
    return Strat(kind, **kw)


def contracts(I):
    for kind, (fn, _) in ALLOWED.items():
        I.contracts[id(fn)] = lambda I, a, k, kind=kind: make(kind, a, k)

    def tuples(I, a, k):
        if k:
            raise Unsupported("arguments of tuples")
        return Strat("tuples", items=a if isinstance(a, SeqV) else tuple(a))

    tuples.takes_seq = True
    I.contracts[id(st.tuples)] = tuples
    I.contracts[id(eth_utils.to_checksum_address)] = checksum


def checksum(I, args, kwargs):
    (v,) = args
    ctx = I.ctx
    if isinstance(v, SBytes) and ctx.prove(zint(rlen(v.p)) == 20):
        t = M.SText(ctx.fresh("addr", M.V))
        ctx.assume(z3.And(t.hexaddr(), t.valid()))
        return t
    raise Unsupported("to_checksum_address")


def lift(s):
    """A strategy hypothesis built when the module was imported."""
    if isinstance(s, Strat):
        return s
    if type(s).__name__ != "LazyStrategy":
        raise Unsupported(f"strategy {s!r}")
    for kind, (fn, _) in ALLOWED.items():
        if s.function is fn or s.function is inspect.unwrap(fn):
            r = make(kind, s._LazyStrategy__args, s._LazyStrategy__kwargs)
            for name, f in s._transformations:
                if name != "map":
                    raise Unsupported(f"strategy.{name}")
                r = Strat("map", src=r, f=f)
            return r
    raise Unsupported(f"strategy {s!r}")


def unsup(s):
    raise Unsupported(s)


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, Decimal, SInt, SDec)):
        raise Unsupported(f"bound {x!r}")
    return M.rat(x)


def draw(I, s):
    """(value, scaled source integer | None, (lo, hi, places))"""
    ctx = I.ctx
    k, kw = s.kind, s.kw
    if k == "integers":
        lo, hi = kw.get("min_value"), kw.get("max_value")
        m = ctx.fresh_int("m")
        for b, f in ((lo, lambda b: z3.ToReal(m) >= b), (hi, lambda b: z3.ToReal(m) <= b)):
            if b is not None:
                ctx.assume(f(num(b)))
        return SInt(m), m, (lo, hi, 0)
    if k == "decimals":
        lo, hi, p = kw.get("min_value"), kw.get("max_value"), kw.get("places")
        if lo is None or hi is None or not isinstance(p, int) or kw.get("allow_nan") or kw.get("allow_infinity"):
            raise Unsupported("decimals without bounds or places")
        m = ctx.fresh_int("m")
        y = z3.ToReal(m) / z3.RealVal(10**p)
        ctx.assume(z3.And(y >= num(lo), y <= num(hi)))
        return SDec(y, (m, p)), m, (lo, hi, p)
    if k == "booleans":
        return SBool(ctx.fresh_bool("b")), None, None
    if k == "binary":
        a, b = kw.get("min_size", 0), kw.get("max_size")
        n = fresh_len(ctx, "n")
        ctx.assume(n >= zint(term(a)))
        if b is not None:
            ctx.assume(n <= zint(term(b)))
        u = ctx.unique(n)
        if u is not None:
            n = u
        return mkbytes(ctx, [A(Blob("val", (), n), z3.IntVal(0), n)]), None, None
    if k == "text":
        al = kw.get("alphabet")
        if al is not None and "codec='utf-8'" not in repr(al):
            raise Unsupported("alphabet")
        t = M.SText(ctx.fresh("txt", M.V))
        ctx.assume(t.valid())
        return t, None, None
    if k == "map":
        v, m, r = draw(I, s.kw["src"])
        return I.call(s.kw["f"], (v,), {}), m, r
    raise Unsupported(f"draw from {k}")


def run_basic(R, p):
    S = S_()
    for s in p["types"]:
        t = parsed(s)

        def body(I, s=s, t=t):
            ctx = I.ctx
            contracts(I)
            nm = s + ": "
            # proved in typeh
            I.contracts[id(GR.normalize)] = lambda I, a, k: GR.normalize(*a, **k) if all(isinstance(x, str) for x in a) else unsup("normalize")
            k, v = attempt(I, S.get_abi_strategy, s)
            R.ensure("C16", nm + "has a strategy", k == "ok")
            if k != "ok":
                return
            d = lift(v)
            try:
                x, m, rng = draw(I, d)
            except PyExc:
                R.ensure("C16", nm + "values can be generated", False)
                return
            R.cover("drawn " + t[0])
            enc = G.registry.get_encoder(s)
            k2, v2 = attempt(I, I.getattr(enc, "validate_value"), x)
            R.ensure("C16", nm + "every generated value is encodable", k2 == "ok")
            if t[0] == "bytesM":
                R.ensure("C16", nm + "of the declared length", lambda: zint(rlen(pieces_of(x))) == t[1])
            if t[0] not in ("uint", "int", "ufixed", "fixed"):
                return
            n = t[2] if len(t) > 2 else 0
            lo, hi = (0, 2 ** t[1] - 1) if t[0][0] == "u" else (-(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1)
            if m is None:
                raise Unsupported("numeric strategy without a source")
            a, b, pl = rng
            ok = a is not None and b is not None
            # all integers lo .. hi are drawn and value m / 10**n is made of m
            R.ensure("C16", nm + "the bounds are those of the type", z3.And(num(a) * 10**pl == lo, num(b) * 10**pl == hi) if ok else False)
            if isinstance(x, (SInt, SDec, int, Decimal)):
                R.ensure("C16 C15", nm + "the whole range is generated", M.rat(x) == z3.ToReal(m) / z3.RealVal(10**n))
            else:
                R.ensure("C16", nm + "numbers", False)

        R.explore(body)


class ItemStrat(Strat):
    def __init__(self, key):
        super().__init__("item")
        self.key = key


def run_compound(R, p):
    S = S_()

    def run(I):
        ctx = I.ctx
        ctx.texts = True
        contracts(I)
        nm = f"{p['kind']}{'[]' if p['arr'] else ''}: "
        td = TD(ctx, p["kind"], p["sub"], p["arr"])
        if td.kind == "basic":
            if td.subkind == "none":
                ctx.assume(z3.And(*[td.b != typecode(a) for a in ALIASES]))  # canonical form
            ctx.assume(supported(td))
        cn = canonical(ctx, td)
        q = TS(td)
        reg = S.strategy_registry
        get = S.StrategyRegistry.get_strategy

        def parse(I, args, kwargs):
            if len(args) != 1 or kwargs:
                raise Unsupported("grammar.parse")
            if isinstance(args[0], TS):
                return args[0].td.make(I)
            if isinstance(args[0], str):
                return GR.parse(args[0])
            raise Unsupported("grammar.parse of another text")

        def nested(I, args, kwargs):
            vs = list(args) + list(kwargs.values())
            s = vs[1]
            if td.hasarr:
                R.ensure("C16", nm + "items are of the item type", lambda: teq(I.ctx, s, cn.rope(I.ctx, nd=tsimp(td.nd - 1))))
                return ItemStrat(z3.IntVal(0))
            if not isinstance(s, CompText):
                raise Unsupported("strategy of something else than a component")
            return ItemStrat(s.c.i)

        I.contracts[id(GR.parse)] = parse
        I.contracts[id(get)] = nested
        try:
            k, v = "ok", I.call_fn(get, (reg, q), {})
        except PyExc as e:
            k, v = "exc", e.val.cls
        R.cover(nm + k)
        R.ensure("C16", nm + "has a strategy", k == "ok")
        if k != "ok":
            return
        v = lift(v)
        if td.hasarr:
            if v.kind != "lists":
                raise Unsupported("strategy of an array")
            R.ensure("C16", nm + "lists of items", isinstance(v.kw.get("elements"), ItemStrat))
            last = tsimp(td.nd - 1)
            a, b = v.kw.get("min_size", 0), v.kw.get("max_size")
            if ctx.decide(td.isconst(last)):
                R.ensure("C16", nm + "exactly the declared number of items", lambda: z3.And(zint(term(a)) == td.size(ctx, last), zint(term(b)) == td.size(ctx, last)) if b is not None else False)
            else:
                R.ensure("C16", nm + "any number of items", lambda: z3.And(zint(term(a)) == 0, z3.BoolVal(b is None)))
            return
        if v.kind != "tuples":
            raise Unsupported("strategy of a tuple")
        items = v.kw["items"]
        R.ensure("C16", nm + "one item per component", lambda: zint(seq_len(items)) == td.nc)
        if not ctx.prove(zint(seq_len(items)) == td.nc):
            return

        def each():
            j = ctx.fresh_int("j")
            good = []

            def go():
                if ctx.raw_check() == z3.unsat:
                    raise Prune()
                x = seq_get(I, items, j)
                good.append(isinstance(x, ItemStrat) and ctx.prove(x.key == j))
                return "ok", None

            ctx.sub_explore(go, assume=[j >= 0, j < td.nc], index=j, prefix="st/")
            return all(good)

        R.ensure("C16", nm + "each item of the type of its component", each)

    R.explore(run)


def typecode(a):
    from .typeh import code

    return code(a)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


register("strategy-basic", "C16 C15", lambda tier, prop: [
    {"types": c} for c in chunks((types_for(tier) if prop == "C16" else []) + fixed_for("thorough"), 64)], run_basic, limit=90)
register("strategy-compound", "C16", lambda tier, prop: [
    {"kind": k, "sub": s, "arr": a} for k, s, a in (("basic", "none", True), ("basic", "int", True), ("basic", "pair", True), ("tuple", "none", True), ("tuple", "none", False))],
    run_compound, limit=90, boundable=True)
