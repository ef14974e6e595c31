"""Harness plumbing: one job = one function (or coder) of /repo under contract, run through the
verification-condition generator in pyvc."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import core, interp, models as M  # noqa: E402
from pyvc.core import *  # noqa: E402,F401,F403
from pyvc.core import Ctx, NotAligned, PyExc, SBool, Unsupported, eq_formula, pieces_of, z3  # noqa: E402
from pyvc.interp import *  # noqa: E402,F401,F403
from pyvc.interp import Interp  # noqa: E402

from eth_abi.exceptions import DecodingError, EncodingError  # noqa: E402,F401

ALL = frozenset(f"C{i:02d}" for i in range(1, 18))


class Run:
    """One job being verified for one property (or for all, prop=None)."""

    def __init__(self, prop, ctx):
        self.prop, self.ctx = prop, ctx

    def wants(self, props):
        return self.prop is None or props == "*" or self.prop in props.split()

    def ensure(self, props, name, cond):
        """Obligation `name`, a part of the properties `props`.  cond may be a thunk."""
        if not self.wants(props) or self.ctx.speculative:
            return True
        label = f"{props}:{name}" if self.prop is None else name
        try:
            if callable(cond):
                cond = cond()
            if isinstance(cond, SBool):
                cond = cond.t
        except NotAligned as e:
            o = self.ctx.obl.setdefault(label, core.Obligation(label))
            o.bad.append(("unaligned", None, str(e)))
            return False
        return self.ctx.ensure(label, cond)

    def cover(self, name):
        self.ctx.cover(name)

    def explore(self, fn, **kw):
        ctx = self.ctx

        def thunk():
            ctx.ambient_dirty = False
            I = Interp(ctx)
            fn(I)

        ctx.explore(thunk)


def attempt(I, f, *args, **kw):
    """('ok', value) or ('exc', class)"""
    try:
        return "ok", I.call(f, args, kw)
    except PyExc as e:
        return "exc", e.val.cls


def beq(ctx, a, b):
    """Equality of a bytes value and spec pieces."""
    if not isinstance(a, (core.SBytes, bytes, bytearray)):
        return False
    return eq_formula(ctx, pieces_of(a), b)


def veq(I, a, b):
    try:
        r = M.equal(I, a, b)
    except Unsupported as e:
        raise NotAligned(str(e))
    return r.t if isinstance(r, SBool) else bool(r)


class Harness:
    """name, props (ids it contributes obligations to), jobs(tier), run(R, params)."""

    def __init__(self, name, props, jobs, run, replay=None, limit=60, boundable=False, may_be_empty=False):
        self.name, self.props, self.jobs, self.run, self.replay, self.limit = name, frozenset(props.split()), jobs, run, replay, limit
        self.boundable, self.may_be_empty = boundable, may_be_empty


REG = {}


def register(*a, **k):
    h = Harness(*a, **k)
    REG[h.name] = h
    return h


def execute(hname, params, prop, bounded=None, timeout_ms=8000):
    """Run one job; returns a plain dict."""
    h = REG[hname]
    t0 = time.time()
    interp.FUNCS_SEEN.clear()
    ctx = Ctx(timeout_ms=timeout_ms, bounded=bounded)
    R = Run(prop, ctx)
    err = None
    try:
        h.run(R, params)
    except Unsupported as e:
        err = f"unsupported: {e}"
    except RecursionError:
        err = "unsupported: recursion"
    except z3.Z3Exception as e:
        err = f"solver: {e}"
    except Exception as e:
        err = f"engine: {type(e).__name__}: {e} @ {traceback.format_exc().strip().splitlines()[-3:]}"
    obl = {}
    for n, o in ctx.obl.items():
        obl[n] = {"ok": o.ok, "bad": [(r, {k: str(v) for k, v in (m or {}).items()}, str(i) if i else None) for r, m, i in o.bad[:4]]}
    return {
        "harness": hname, "params": params, "err": err, "obl": obl, "covers": sorted(ctx.covers),
        "checks": ctx.stats.checks, "stime": ctx.stats.time, "cvc5": ctx.stats.cvc5, "unknown": ctx.stats.unknown,
        "paths": ctx.stats.paths, "loops": ctx.loops_summarised, "notes": sorted(ctx.notes), "funcs": dict(interp.FUNCS_SEEN),
        "wall": time.time() - t0,
    }
