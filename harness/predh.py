"""Contracts of the lookups the library ships: what Equals, BaseEquals, has_arrlist and
is_base_tuple match, for every type and every attribute, and when two lookups are equal (the
registry's contracts use lookups only by their equality and what they match)."""
from .base import *  # noqa: F401,F403
from .base import M, attempt, register
from .regh import AbsStr, fresh
from .typeh import GR, SIGMA, TD, TS, AbsBase, code

import eth_abi.exceptions as X
import eth_abi.registry as G


class Pair(G.Predicate):
    """A lookup of a user, built on the library's base class."""

    __slots__ = ("left", "right")

    def __init__(self, left, right):
        self.left = left
        self.right = right

    def __call__(self, type_str):
        return self.left == type_str


class Pair2(Pair):
    """Another class, with the same attributes."""

    __slots__ = ()

    def __iter__(self):
        yield self.left
        yield self.right


SUBS = (None, True, False)


def make(I, which):
    """(lookup, attributes)"""
    ctx = I.ctx
    if which == "Equals":
        v = fresh(ctx, "value")
        return I.call(G.Equals, (AbsStr(v),)), (v,)
    if which in ("Pair", "Pair2"):
        a, b = fresh(ctx, "left"), fresh(ctx, "right")
        return I.call(Pair if which == "Pair" else Pair2, (AbsStr(a), AbsStr(b))), (a, b)
    v = fresh(ctx, "base")
    ws = SUBS[ctx.choose(3)]
    return I.call(G.BaseEquals, (AbsStr(v),), {"with_sub": ws}), (v, ws)


def truth(I, v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(I.truth(v)))


def run_eq(R, p):
    def run(I):
        ctx = I.ctx
        I.extra_interpret.add(__name__)
        x, ax = make(I, p["a"])
        y, ay = make(I, p["b"])
        nm = f"{p['a']} == {p['b']}: "
        want = z3.BoolVal(p["a"] == p["b"])
        if p["a"] == p["b"]:
            for s, t in zip(ax, ay):
                want = z3.And(want, s == t if isinstance(s, z3.ExprRef) else z3.BoolVal(s is t))
        kind, v = attempt(I, Model(lambda I, a, k: M.equal(I, a[0], a[1])), x, y)
        R.cover(nm + kind)
        R.ensure("C13", nm + "lookups are equal exactly if class and attributes are", truth(I, v) == want if kind == "ok" else False)
        if kind == "ok" and ctx.decide(want):
            h1, v1 = attempt(I, hash, x)
            h2, v2 = attempt(I, hash, y)
            R.ensure("C13", nm + "equal lookups have equal hashes", (lambda: M.equal(I, v1, v2)) if h1 == h2 == "ok" else False)

    R.explore(run)


def run_match(R, p):
    def run(I):
        ctx = I.ctx
        ctx.texts = True
        if p["what"] == "Equals":
            pred, (v,) = make(I, "Equals")
            q = fresh(ctx, "query")
            kind, r = attempt(I, pred, AbsStr(q))
            R.ensure("C13 C12", "Equals matches exactly its value", (truth(I, r) == (q == v)) if kind == "ok" else False)
            return
        bad = p["kind"] == "no-type"
        td = TD(ctx, "basic" if bad else p["kind"], p["sub"], p["arr"])
        q = TS(td)

        def parse(I, args, kwargs):
            if len(args) != 1 or kwargs or args[0] is not q:
                raise Unsupported("grammar.parse")
            if bad:
                I.raise_(X.ParseError if ctx.decide(z3.Bool("perr")) else ValueError)
            return td.make(I)

        I.contracts[id(GR.parse)] = parse
        if p["what"] == "BaseEquals":
            ws = SUBS[ctx.choose(3)]
            b = ctx.fresh_int("wanted")
            ctx.assume(b >= 0)
            pred = I.call(G.BaseEquals, (AbsBase(ctx, b),), {"with_sub": ws})
            want = z3.And(z3.BoolVal(not bad and td.kind == "basic" and not td.hasarr and (ws is None or ws is (td.subkind != "none"))), td.b == b if td.kind == "basic" else True)
        elif p["what"] == "has_arrlist":
            pred, want = G.has_arrlist, z3.BoolVal(not bad and td.hasarr)
        else:
            pred, want = G.is_base_tuple, z3.BoolVal(not bad and td.kind == "tuple" and not td.hasarr)
        kind, r = attempt(I, pred, q)
        R.cover(p["what"] + kind)
        R.ensure("C13 C12", f"{p['what']} on {p['kind']} {p['sub']}{'[]' if p['arr'] else ''}: matches exactly what it is documented to match", (truth(I, r) == want) if kind == "ok" else False)

    R.explore(run)


KINDS = ["Equals", "BaseEquals", "Pair", "Pair2"]
register("lookup-equality", "C13", lambda tier, prop: [{"a": a, "b": b} for a in KINDS for b in KINDS], run_eq, limit=30)
register("lookup-match", "C12 C13", lambda tier, prop: [{"what": "Equals"}] + [
    {"what": w, "kind": k, "sub": s, "arr": a} for w in ("BaseEquals", "has_arrlist", "is_base_tuple")
    for k, s in (("basic", "none"), ("basic", "int"), ("basic", "pair"), ("tuple", "none"), ("no-type", "none")) for a in (False, True)
    if not (k == "no-type" and a)], run_match, limit=30)
