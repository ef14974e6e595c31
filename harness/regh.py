"""Contracts of the registry: PredicateMapping as a partial map, ABIRegistry's operations, caches
and copies, over mappings of arbitrary content and size.

The content of a mapping is two maps, predicate -> coder and label -> predicate, related by the
invariant: every label refers to a live predicate, different labels to different predicates.
Each operation is verified from an arbitrary state that satisfies the invariant, and re-establishes
it; histories follow by induction.  Lookups (predicates) are known by their equality and by
match(p, t); equality and hash of the library's own predicates are obligations of their own.
"""
from .base import *  # noqa: F401,F403
from .base import M, attempt, register
from .comp import BOOL, F, INT, V, fresh_len

import eth_abi.exceptions as X
import eth_abi.registry as G
from pyvc import loops
from pyvc.interp import MapFilter, MapSeg


def match(p, t):
    return F("match", V, V, BOOL)(p, t)


def eqkey(s):
    return F("eqkey", V, V)(s)


class AbsStr(Sym):
    """An arbitrary str."""
    pytype_ = str

    def __init__(self, t):
        self.t = t

    def sym_eq(self, I, o):
        if isinstance(o, AbsStr):
            return mkbool(self.t == o.t)
        if isinstance(o, (AbsPred, SObj)) or o is None:
            return False
        raise Unsupported("equality of an abstract string")

    def sym_callable(self, I):
        return False

    def sym_truth(self, I):
        return I.ctx.decide(F("nonempty", V, BOOL)(self.t))

    def sym_is(self, I, o):
        if o is None:
            return False
        raise Unsupported("identity of strings")

    def sym_copy(self, I):
        return self


class AbsPred(Sym):
    """A lookup function known by its equality and by what it matches."""

    def __init__(self, t):
        self.t = t

    def sym_eq(self, I, o):
        t = predterm(I, o)
        if t is None:
            return False
        return mkbool(self.t == t)

    def sym_callable(self, I):
        return True

    def sym_truth(self, I):
        return True

    def sym_is(self, I, o):
        if o is None:
            return False
        if isinstance(o, AbsPred) and o.t.eq(self.t):
            return True
        raise Unsupported("identity of predicates")

    def sym_isinstance(self, I, T):
        if T in (str, bytes, int, type, tuple, list):
            return False
        raise Unsupported("type of a predicate")

    def sym_call(self, I, args, kwargs):
        if len(args) != 1 or kwargs or not isinstance(args[0], AbsStr):
            raise Unsupported("predicate called with something else than the type string")
        return mkbool(match(self.t, args[0].t))

    def sym_copy(self, I):
        return self


class AbsCoder(Sym):
    """A registered coder: a class (iscls, iscoder: of the library's coder protocol) or an instance
    or callable, shared by everybody who looks it up."""

    def __init__(self, t):
        self.t = t

    def sym_isinstance(self, I, T):
        if T is type:
            return I.ctx.decide(F("iscls", V, BOOL)(self.t))
        if T in (str, bytes, int, tuple, list, dict):
            return False
        raise Unsupported("type of a coder")

    def sym_issubclass(self, I, T):
        if T not in (G.BaseCoder, G.encoding.BaseEncoder, G.decoding.BaseDecoder):
            raise Unsupported("issubclass of a coder")
        return I.ctx.decide(F("iscoder", V, BOOL)(self.t))

    def sym_is(self, I, o):
        if o is None:
            return False
        if isinstance(o, AbsCoder):
            return mkbool(self.t == o.t)
        raise Unsupported("identity of a coder")

    def sym_eq(self, I, o):
        return self.sym_is(I, o)

    def sym_truth(self, I):
        return True

    def sym_callable(self, I):
        return True

    def sym_getattr(self, I, name):
        if name == "from_type_str":
            return Model(self.made)
        return decoder_attr(self, I, name, mkbool(F("strict0", V, BOOL)(self.t)))

    def sym_setattr(self, I, name, v):
        if name != "strict":
            raise Unsupported("assignment to a registered coder")
        I.run_.ensure("C09 C14 C17", "the mode of a shared decoder is left alone", asbool(v) == F("strict0", V, BOOL)(self.t))

    def made(self, I, args, kwargs):
        vs = list(args) + list(kwargs.values())
        if len(vs) != 2 or not isinstance(vs[0], AbsStr) or not isinstance(vs[1], SObj):
            raise Unsupported("from_type_str called differently")
        if I.ctx.decide(F("madefail", V, V, BOOL)(self.t, vs[0].t)):
            I.raise_(X.ABITypeError)
        return AbsMade(self.t, vs[0].t, vs[1].oid, I.ctx.alloc({"strict": True}))

    def sym_copy(self, I):
        return AbsMade(self.t, None, None, I.ctx.alloc({"strict": mkbool(F("strict0", V, BOOL)(self.t))}))


def asbool(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


def decoder_attr(o, I, name, strict):
    if name == "is_dynamic":
        if I.ctx.decide(F("nodyn", V, BOOL)(o.t)):
            I.raise_(AttributeError, name)
        return mkbool(F("isdyn", V, BOOL)(o.t))
    if name == "strict":
        return strict
    raise Unsupported(f"attribute {name} of a coder")


class AbsMade(Sym):
    """What from_type_str of coder class t returned for a type string and a registry, or
    (s is None) a private copy of a registered instance."""

    def __init__(self, t, s, reg, oid):
        self.t, self.s, self.reg, self.oid = t, s, reg, oid

    def sym_getattr(self, I, name):
        return decoder_attr(self, I, name, I.ctx.rec(self.oid)["strict"])

    def sym_setattr(self, I, name, v):
        if name != "strict":
            raise Unsupported("assignment to a coder")
        I.ctx.put(self.oid, "strict", v)

    def sym_isinstance(self, I, T):
        if T in (str, bytes, int, type, tuple, list, dict):
            return False
        raise Unsupported("type of a coder")

    def sym_is(self, I, o):
        if o is None:
            return False
        return isinstance(o, AbsMade) and o.oid == self.oid

    def sym_truth(self, I):
        return True

    def sym_copy(self, I):
        return AbsMade(self.t, self.s, self.reg, I.ctx.alloc({"strict": I.ctx.rec(self.oid)["strict"]}))


def predterm(I, o):
    """The key term of a lookup."""
    if isinstance(o, AbsPred):
        return o.t
    if isinstance(o, SObj) and o.cls is G.Equals:
        v = I.ctx.rec(o.oid).get("value")
        if isinstance(v, AbsStr):
            t = eqkey(v.t)
            I.ctx.fact(("eqk", t.get_id()), F("eqinv", V, V)(t) == v.t)
            return t
    if isinstance(o, AbsStr) or o is None:
        return None
    raise Unsupported(f"lookup {o!r}")


def strterm(I, o):
    if isinstance(o, AbsStr):
        return o.t
    if isinstance(o, (AbsPred, SObj)) or o is None:
        return None
    raise Unsupported(f"label {o!r}")


def fresh(ctx, nm):
    c = z3.Const(f"{nm}!{ctx.cnt}", V)
    ctx.cnt += 1
    return c


_ROLES = {}


def roles():
    """The attributes that hold the registrations, found by what they hold rather than by name."""
    if not _ROLES:
        try:
            def probe(x):
                return False

            pm = G.PredicateMapping("probe")
            pm.add(probe, 1, "a label")
            d = {k: v for k, v in vars(pm).items() if isinstance(v, dict)}
            _ROLES["values"], = (k for k, v in d.items() if probe in v)
            _ROLES["labels"], = (k for k, v in d.items() if "a label" in v and k != _ROLES["values"])
            for side in ("enc", "dec"):
                reg = G.ABIRegistry()
                getattr(reg, f"register_{side}oder")(probe, probe)
                _ROLES[side], = (k for k, v in vars(reg).items() if isinstance(v, G.PredicateMapping) and probe in vars(v)[_ROLES["values"]])
        except Exception as e:
            _ROLES.clear()
            raise Unsupported(f"how registrations are held is not understood: {e!r}")
    return _ROLES


def maps_of(rec):
    r = roles()
    if r["values"] not in rec or r["labels"] not in rec:
        raise Unsupported("PredicateMapping is not made of two dicts")
    return rec[r["values"]], rec[r["labels"]]


class MapState:
    """A PredicateMapping of arbitrary content."""

    def __init__(self, I, nm, obj):
        ctx = self.ctx = I.ctx
        self.I, self.nm, self.obj = I, nm, obj
        self.n, self.m = fresh_len(ctx, nm + "n"), fresh_len(ctx, nm + "m")
        self.lp = F(nm + ".lp", V, V)
        self.linv = F(nm + ".linv", V, V)
        self.vals = MapSeg(nm + ".vals", self.n, V, AbsPred, lambda t: AbsCoder(F(nm + ".val", V, V)(t)), predterm)
        self.labs = MapSeg(nm + ".labs", self.m, V, AbsStr, lambda t: AbsPred(self.lp(t)), strterm, on_key=self.label_inv)
        r = ctx.rec(obj.oid)
        self.dv, self.dl = maps_of(r)
        if not (isinstance(self.dv, SDict) and isinstance(self.dl, SDict)):
            raise Unsupported("PredicateMapping is not made of two dicts")
        ctx.put(self.dv.oid, "v", self.vals)
        ctx.put(self.dl.oid, "v", self.labs)

    def label_inv(self, ctx, l, inr):
        p = self.lp(l)
        ctx.fact(("linv", self.nm, l.get_id()), z3.Implies(inr, z3.And(self.linv(p) == l, self.has0(self.vals, p))))

    # the map before
    def has0(self, seg, t):
        i = seg.index(self.I, t)
        return z3.And(i >= 0, i < zint(seg.n))

    def live(self, t):
        return self.has0(self.vals, t)

    def labelled(self, l):
        return self.has0(self.labs, l)

    def value(self, t):
        return F(self.nm + ".val", V, V)(t)

    # the map after
    def entries(self, d):
        return self.ctx.rec(d.oid)["v"]

    def cur(self):
        r = self.ctx.rec(self.obj.oid)
        return maps_of(r)

    def member(self, q, t, termof):
        """(formula: t is a key, term of its value)"""
        hit, val = z3.BoolVal(False), None
        for p in (q.parts if isinstance(q, SeqConcat) else [q]):
            if isinstance(p, tuple):
                for k, v in p:
                    kt = termof(self.I, k)
                    if kt is None:
                        continue
                    c = kt == t
                    hit = z3.Or(hit, c)
                    vt = self.valterm(v)
                    val = vt if val is None else z3.If(c, vt, val)
                continue
            base, lo, hi = (p.base, p.lo, p.hi) if isinstance(p, (SeqSlice, MapFilter)) else (p, 0, p.n)
            if not isinstance(base, MapSeg):
                raise NotAligned("content of the mapping is not known")
            i = base.index(self.I, t)
            self.ctx.add_index(i)
            c = z3.And(i >= zint(lo), i < zint(hi))
            if isinstance(p, MapFilter):
                c = z3.And(c, p.cond(t))
            hit = z3.Or(hit, c)
            vt = self.valterm(base.mkval(t))
            val = vt if val is None else z3.If(c, vt, val)
        return hit, val

    def valterm(self, v):
        if isinstance(v, AbsCoder):
            return v.t
        t = predterm(self.I, v)
        if t is None:
            raise NotAligned(f"value {v!r} in the mapping")
        return t

    def after(self, k, l):
        """live and value of lookup k, labelled and target of label l, now"""
        dv, dl = self.cur()
        hv, vv = self.member(self.entries(dv), k, predterm)
        hl, ll = self.member(self.entries(dl), l, strterm)
        return hv, vv, hl, ll

    def is_state(self, live, value, labelled, target):
        """The state is now the given one, for an arbitrary lookup and an arbitrary label."""
        ctx = self.ctx
        k, l = fresh(ctx, "k"), fresh(ctx, "l")
        hv, vv, hl, ll = self.after(k, l)
        fs = [hv == live(k), hl == labelled(l)]
        if vv is not None:
            fs.append(z3.Implies(hv, vv == value(k)))
        if ll is not None:
            fs.append(z3.Implies(hl, ll == target(l)))
        return z3.And(*fs)

    def unchanged(self):
        return self.is_state(self.live, self.value, self.labelled, self.lp)

    def untouched(self):
        """by identity"""
        return self.cur() == (self.dv, self.dl) and self.entries(self.dv) is self.vals and self.entries(self.dl) is self.labs

    def inv(self):
        ctx = self.ctx
        l1, l2, k = fresh(ctx, "l1"), fresh(ctx, "l2"), fresh(ctx, "k")
        _, _, h1, t1 = self.after(k, l1)
        _, _, h2, t2 = self.after(k, l2)
        if t1 is None:
            return z3.BoolVal(True)
        hv, _, _, _ = self.after(t1, l1)
        return z3.And(z3.Implies(h1, hv), z3.Implies(z3.And(h1, h2, t1 == t2), l1 == l2))

    # ---- specifications
    def added(self, p, v, l):
        return self.is_state(
            lambda k: z3.Or(self.live(k), k == p), lambda k: z3.If(k == p, v, self.value(k)),
            (lambda x: z3.Or(self.labelled(x), x == l)) if l is not None else self.labelled,
            (lambda x: z3.If(x == l, p, self.lp(x))) if l is not None else self.lp)

    def removed(self, p):
        return self.is_state(
            lambda k: z3.And(self.live(k), k != p), self.value,
            lambda x: z3.And(self.labelled(x), self.lp(x) != p), self.lp)


def new_mapping(I, nm):
    return MapState(I, nm, I.call(G.PredicateMapping, ("registry",)))


def run_mapping(R, p):
    op = p["op"]

    def run(I):
        ctx = I.ctx
        I.run_ = R
        s = new_mapping(I, "m")
        if op == "add":
            pr, co = fresh(ctx, "pred"), fresh(ctx, "coder")
            lab = fresh(ctx, "label") if p["label"] else None
            kind, v = attempt(I, I.getattr(s.obj, "add"), AbsPred(pr), AbsCoder(co), *([AbsStr(lab)] if p["label"] else []))
            refuse = z3.Or(s.live(pr), s.labelled(lab) if lab is not None else z3.BoolVal(False))
            check_add(R, s, "add", kind, v, refuse, pr, co, lab)
        elif op in ("remove_by_equality", "remove-pred"):
            pr = fresh(ctx, "pred")
            kind, v = attempt(I, I.getattr(s.obj, "remove" if op == "remove-pred" else op), AbsPred(pr))
            check_remove(R, s, op, kind, v, s.live(pr), pr)
        elif op in ("remove_by_label", "remove-label"):
            lab = fresh(ctx, "label")
            kind, v = attempt(I, I.getattr(s.obj, "remove" if op == "remove-label" else op), AbsStr(lab))
            check_remove(R, s, op, kind, v, s.labelled(lab), s.lp(lab))
        elif op == "find":
            q = fresh(ctx, "query")
            kind, v = attempt(I, I.getattr(s.obj, "find"), AbsStr(q))
            check_find(R, s, "find", kind, v, q)
            R.ensure("C13 C14", "find: changes nothing", s.untouched)
        elif op == "copy":
            kind, c = attempt(I, G.copy.copy, s.obj) if p["via"] == "copy.copy" else attempt(I, I.getattr(s.obj, "copy"))
            R.ensure("C14", "copy: succeeds", kind == "ok" and isinstance(c, SObj) and c.cls is G.PredicateMapping and c.oid != s.obj.oid)
            R.ensure("C14", "copy: original untouched", s.untouched)
            if kind == "ok" and isinstance(c, SObj):
                check_copy(R, s, c, "copy")

    R.explore(run)


def check_copy(R, s, c, nm):
    ctx = s.ctx
    r = ctx.rec(c.oid)
    cv, cl = maps_of(r)
    R.ensure("C14", nm + ": no shared state", isinstance(cv, SDict) and isinstance(cl, SDict) and not {cv.oid, cl.oid} & {s.dv.oid, s.dl.oid} and cv.oid != cl.oid)
    s2 = MapState.__new__(MapState)
    s2.__dict__.update(s.__dict__)
    s2.obj = c
    R.ensure("C14 C13", nm + ": same registrations", lambda: s2.is_state(s.live, s.value, s.labelled, s.lp))


def check_add(R, s, nm, kind, v, refuse, pr, co, lab):
    ctx = s.ctx
    R.cover(f"{nm}: {kind}")
    if kind == "exc":
        R.ensure("C13", nm + ": refused with a ValueError", issubclass(v, ValueError))
        R.ensure("C13", nm + ": refused only if the lookup or label is live", refuse)
        R.ensure("C13 C14", nm + ": a refused registration changes nothing", s.unchanged)
    else:
        R.ensure("C13", nm + ": a live lookup or label is refused", z3.Not(refuse))
        if ctx.prove(z3.Not(refuse)):
            R.ensure("C13 C14", nm + ": adds exactly this registration", lambda: s.added(pr, co, lab))
    R.ensure("C13 C14", nm + ": labels refer to live registrations, each to its own", s.inv)


def check_remove(R, s, nm, kind, v, present, pr):
    ctx = s.ctx
    R.cover(f"{nm}: {kind}")
    if kind == "exc":
        R.ensure("C13", nm + ": refused with a KeyError", issubclass(v, KeyError))
        R.ensure("C13", nm + ": refused only if not live", z3.Not(present))
        R.ensure("C13 C14", nm + ": a refused removal changes nothing", s.unchanged)
    else:
        R.ensure("C13", nm + ": removing what is not live is refused", present)
        if ctx.prove(present):
            R.ensure("C13 C14", nm + ": removes exactly this registration and its label", lambda: s.removed(pr))
    R.ensure("C13 C14", nm + ": labels refer to live registrations, each to its own", s.inv)


def find_goals(s, q):
    """entry i matches, as a term over the index"""
    def hit(i):
        i = zint(i)
        s.vals.get(s.I, i)
        return match(s.vals.K(i), q)
    return hit


def instantiate(ctx):
    """Counting lemmas of the summarised loops at all indices; witnesses for counts."""
    for L in list(ctx.loop_table.values()):
        for ps in list(L.counts.values()) + list(L.sums.values()):
            if ps is not None:
                for i in list(ctx.idx):
                    ps.at(i)


def witnesses(I, upto=2):
    """Iterations that appended items 0 .. upto-1 to the filtered sequences of this path."""
    ctx = I.ctx
    for L in list(ctx.loop_table.values()):
        for loc, ps in L.counts.items():
            if ps is None:
                continue
            for k in range(upto):
                if ctx.prove(zint(ps.at(L.n)) > k):
                    loops.LoopSeg(L, loc, L.n).get(I, k)


def check_find(R, s, nm, kind, v, q, made=None):
    """made(coder term) -> expected value check for coder classes"""
    ctx = s.ctx
    hit = find_goals(s, q)
    n = zint(s.n)
    R.cover(f"{nm}: {kind}" + (f" {v.__name__}" if kind == "exc" else ""))
    if kind == "exc":
        R.ensure("C13", nm + ": fails only with the lookup errors", v in (X.NoEntriesFound, X.MultipleEntriesFound))
        if v is X.NoEntriesFound:
            k = ctx.fresh_int("any")
            ctx.add_index(k)
            R.ensure("C13 C05 C12", nm + ": no-entries error only if nothing matches", z3.Implies(z3.And(k >= 0, k < n), z3.Not(hit(k))))
        else:
            witnesses(s.I)
            instantiate(ctx)
            cand = [i for i in ctx.idx]
            R.ensure("C13", nm + ": multiple-entries error only if two match", lambda: z3.Or(*[
                z3.And(i >= 0, i < n, j >= 0, j < n, i != j, hit(i), hit(j)) for a, i in enumerate(cand) for j in cand[a + 1:]]) if len(cand) > 1 else False)
        return
    cand = [i for i in ctx.idx]
    R.ensure("C13 C14 C17 C12", nm + ": returns the coder of a matching live registration", lambda: z3.Or(*[
        z3.And(i >= 0, i < n, hit(i), coder_is(s, v, i)) for i in cand]) if cand else False)
    a, b = ctx.fresh_int("a"), ctx.fresh_int("b")
    ctx.add_index(a)
    ctx.add_index(b)
    instantiate(ctx)
    R.ensure("C13 C12", nm + ": no second registration matches", z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, hit(a), hit(b)), a == b))


def coder_is(s, v, i):
    t = s.value(s.vals.K(zint(i)))
    if isinstance(v, AbsCoder):
        return v.t == t
    if isinstance(v, AbsMade):
        return v.t == t
    return z3.BoolVal(False)


register("registry-mapping", "C13 C14", lambda tier, prop: (
    [{"op": "add", "label": x} for x in (False, True)]
    + [{"op": o} for o in ("remove_by_equality", "remove-pred", "remove_by_label", "remove-label", "find")]
    + [{"op": "copy", "via": v} for v in ("copy", "copy.copy")]), run_mapping, limit=60, boundable=True)


# ------------------------------------------------------------------ ABIRegistry
class RegState:
    def __init__(self, I, nm, reg=None):
        self.I, ctx = I, I.ctx
        self.ctx = ctx
        self.reg = reg if reg is not None else I.call(G.ABIRegistry)
        r = ctx.rec(self.reg.oid)
        self.em, self.dm = r.get(roles()["enc"]), r.get(roles()["dec"])
        if not (isinstance(self.em, SObj) and isinstance(self.dm, SObj)):
            raise Unsupported("the registry is not made of two mappings")
        self.enc, self.dec = MapState(I, nm + "e", self.em), MapState(I, nm + "d", self.dm)
        self.ec, self.dc = r.get("get_encoder"), r.get("get_decoder")
        for c, m in ((self.ec, self.enc), (self.dc, self.dec)):
            if not isinstance(c, M.CacheObj):
                raise Unsupported("get_encoder / get_decoder is not a cache")
            ctx.put(c.oid, "any", True)  # arbitrary entries, coherent with the content now

    def coherent(self, which):
        """No entry of the cache predates the last change of the registrations."""
        ctx = self.ctx
        m, c = (self.enc, self.ec) if which == "e" else (self.dec, self.dc)
        r = ctx.rec(self.reg.oid)
        if r.get(roles()["enc" if which == "e" else "dec"]) is not (self.em if which == "e" else self.dm):
            raise Unsupported("the mapping object was replaced")
        if r["get_encoder" if which == "e" else "get_decoder"] is not c:
            raise Unsupported("the cache object was replaced")
        rec = ctx.rec(c.oid)
        if rec["entries"]:
            raise Unsupported("entries added to the cache by a change")
        return True if not rec["any"] else m.unchanged()


def with_parse(I):
    """grammar.parse by contract: an ABI type or a parse error, depending on the string only."""
    def parse(I, args, kwargs):
        if len(args) != 1 or kwargs or not isinstance(args[0], AbsStr):
            raise Unsupported("grammar.parse of something else")
        if not I.ctx.decide(F("parses", V, BOOL)(args[0].t)):
            I.raise_(X.ParseError)
        return M.AbsVal(F("parsed", V, V)(args[0].t))

    I.contracts[id(G.grammar.parse)] = parse


def run_ops(R, p):
    op, side, kind_ = p["op"], p.get("side"), p.get("lookup")

    def run(I):
        ctx = I.ctx
        I.run_ = R
        with_parse(I)
        S = RegState(I, "r")
        nm = f"{op}({kind_ or ''}{' label' if p.get('label') else ''}): "
        if op in ("register", "unregister"):
            co, co2 = fresh(ctx, "coder"), fresh(ctx, "coder2")
            if kind_ == "callable":
                pr = fresh(ctx, "pred")
                lk = AbsPred(pr)
            elif kind_ == "str":
                st = fresh(ctx, "str")
                lk = AbsStr(st)
                pr = predterm(I, I.call(G.Equals, (lk,)))
            else:
                lk = {"int": 5, "none": None}[kind_]
            lab = fresh(ctx, "label") if p.get("label") else None
            if op == "register":
                name = {"e": "register_encoder", "d": "register_decoder", "b": "register"}[side]
                args = (lk, AbsCoder(co), AbsCoder(co2)) if side == "b" else (lk, AbsCoder(co) if side == "e" else AbsCoder(co2))
                k, v = attempt(I, I.getattr(S.reg, name), *args, **({"label": AbsStr(lab)} if lab is not None else {}))
                if kind_ == "str":
                    lab = st  # a string lookup is its own label
            else:
                name = {"e": "unregister_encoder", "d": "unregister_decoder", "b": "unregister"}[side]
                k, v = attempt(I, I.getattr(S.reg, name), lk)
            nm = f"{name}({kind_}{' label' if p.get('label') else ''}): "
            R.cover(nm + k)
            maps = {"e": [(S.enc, co)], "d": [(S.dec, co2)], "b": [(S.enc, co), (S.dec, co2)]}[side]
            if kind_ in ("int", "none"):
                R.ensure("C13", nm + "neither lookup nor label is refused", k == "exc" and issubclass(v, TypeError))
                for m in (S.enc, S.dec):
                    R.ensure("C13 C14", nm + "changes nothing", m.unchanged)
            else:
                def refuse(m):
                    if op == "register":
                        return z3.Or(m.live(pr), m.labelled(lab) if lab is not None else z3.BoolVal(False))
                    return z3.Not(m.live(pr) if kind_ == "callable" else m.labelled(st))

                def done(m, c):
                    if op == "register":
                        return m.added(pr, c, lab)
                    return m.removed(pr if kind_ == "callable" else m.lp(st))

                want = ValueError if op == "register" else KeyError
                if k == "ok":
                    for m, c in maps:
                        R.ensure("C13", nm + "refused if live" if op == "register" else nm + "refused if not live", z3.Not(refuse(m)))
                        if ctx.prove(z3.Not(refuse(m))):
                            R.ensure("C13 C14", nm + "has exactly its effect", lambda m=m, c=c: done(m, c))
                else:
                    R.ensure("C13", nm + "refusals are value / key errors", issubclass(v, want))
                    R.ensure("C13", nm + "refused only if need be", z3.Or(*[refuse(m) for m, _ in maps]))
                    # the first refusal stops it
                    for q, (m, c) in enumerate(maps):
                        if ctx.decide(refuse(m)):
                            for m2, _ in maps[q:]:
                                R.ensure("C13 C14", nm + "what is refused changes nothing", m2.unchanged)
                            break
                        R.ensure("C13 C14", nm + "has exactly its effect", lambda m=m, c=c: done(m, c))
                for m in (S.enc, S.dec):
                    if m not in [x for x, _ in maps]:
                        R.ensure("C13 C14", nm + "the other registry is left alone", m.unchanged)
            for m in (S.enc, S.dec):
                R.ensure("C13 C14", nm + "labels refer to live registrations, each to its own", m.inv)
            for w in "ed":
                R.ensure("C14 C13", nm + "cached coders reflect the live registrations", lambda w=w: S.coherent(w))
        elif op == "lookup":
            q = fresh(ctx, "query")
            m, c = (S.enc, S.ec) if side == "e" else (S.dec, S.dc)
            ctx.put(c.oid, "any", False)
            strict = SBool(ctx.fresh_bool("strict"))
            name = p["via"]
            f = I.getattr(S.reg, name)
            args = (AbsStr(q),) + ((strict,) if p.get("strict") else ())
            k, v = attempt(I, f, *args)
            nm = name + ": "
            R.cover(nm + k + (f" {v.__name__}" if k == "exc" else ""))
            R.ensure("C13 C14", nm + "changes no registration", lambda: S.enc.untouched() and S.dec.untouched())
            if name == "has_encoder":
                hit = find_goals(m, q)
                if k == "exc":
                    R.ensure("C05 C13", nm + "only the multiple-entries error escapes", v is X.MultipleEntriesFound)
                    return
                want, w = attempt(I, I.getattr(S.reg, "get_encoder"), AbsStr(q))
                R.ensure("C05 C12", nm + "True exactly if an encoder is obtained", v is (want == "ok"))
                return
            made_ok = k == "exc" and v in (X.ParseError, X.ABITypeError)
            if made_ok:
                # parse error: nothing matches and the string is no type; type error: from_type_str refused
                if v is X.ParseError:
                    R.ensure("C13 C05", nm + "parse error only for strings that do not parse", z3.Not(F("parses", V, BOOL)(q)))
                    check_find(R, m, name, "exc", X.NoEntriesFound, q)
                return
            if k == "exc" and v is X.NoEntriesFound:
                R.ensure("C13", nm + "no-entries error for strings that parse", F("parses", V, BOOL)(q))
            check_find(R, m, name, k, v, q)
            if k == "ok":
                iscls = lambda: z3.And(F("iscls", V, BOOL)(v.t), F("iscoder", V, BOOL)(v.t))
                if isinstance(v, AbsMade) and v.s is not None:
                    R.ensure("C14 C17 C12", nm + "a class is built for this string and this registry", z3.And(iscls(), v.s == q, z3.BoolVal(v.reg == S.reg.oid)))
                elif isinstance(v, (AbsCoder, AbsMade)):
                    R.ensure("C17 C14", nm + "anything but a coder class is used as registered", z3.Not(iscls()))
                else:
                    R.ensure("C13 C17", nm + "returns what was registered", False)
                    return
                if side == "d":
                    d = z3.And(z3.Not(F("nodyn", V, BOOL)(v.t)), F("isdyn", V, BOOL)(v.t))
                    mode = F("strict0", V, BOOL)(v.t) if isinstance(v, AbsCoder) else asbool(ctx.rec(v.oid)["strict"])
                    want = strict.t if p.get("strict") else z3.BoolVal(True)
                    R.ensure("C09 C06", nm + "a dynamic decoder has the mode that was asked for", z3.Implies(d, mode == want))
                    if isinstance(v, AbsMade):
                        R.ensure("C06 C09", nm + "other decoders stay strict", z3.Implies(z3.Not(d), z3.Or(mode, mode == F("strict0", V, BOOL)(v.t))))
                if name in ("get_encoder", "get_decoder"):
                    k2, v2 = attempt(I, f, *args)
                    R.ensure("C14 C09", nm + "the same coder is returned as long as nothing changes", k2 == "ok" and same_coder(ctx, v, v2))
        elif op == "copy":
            k, c = attempt(I, I.getattr(S.reg, "copy")) if p["via"] == "copy" else attempt(I, G.copy.copy if p["via"] == "copy.copy" else G.copy.deepcopy, S.reg)
            good = k == "ok" and isinstance(c, SObj) and c.cls is G.ABIRegistry and c.oid != S.reg.oid
            R.ensure("C14", "copy: a new registry", good)
            R.ensure("C14", "copy: original untouched", lambda: S.enc.untouched() and S.dec.untouched())
            if not good:
                return
            r = ctx.rec(c.oid)
            for a, m in ((roles()["enc"], S.enc), (roles()["dec"], S.dec)):
                cm = r.get(a)
                R.ensure("C14", "copy: own mappings", isinstance(cm, SObj) and cm.oid not in (S.em.oid, S.dm.oid))
                if isinstance(cm, SObj):
                    check_copy(R, m, cm, "copy")
            for a, w in (("get_encoder", S.ec), ("get_decoder", S.dc)):
                cc = r.get(a)
                if not (isinstance(cc, M.CacheObj) and isinstance(cc.fn, BoundMethod)):
                    raise Unsupported("get_encoder / get_decoder of the copy is not a cache of a method")
                own = cc.oid != w.oid and cc.fn.self_.oid == c.oid and not ctx.rec(cc.oid)["entries"] and not ctx.rec(cc.oid)["any"]
                R.ensure("C14", "copy: own, empty caches of its own lookups", own)

    R.explore(run)


def same_coder(ctx, a, b):
    """The same object, or one built alike."""
    if a is b:
        return True
    if type(a) is not type(b) or not isinstance(a, (AbsCoder, AbsMade)):
        return False
    if isinstance(a, AbsCoder):
        return a.t == b.t
    if (a.s is None) != (b.s is None) or a.reg != b.reg:
        return False
    r1, r2 = ctx.rec(a.oid), ctx.rec(b.oid)
    return z3.And(a.t == b.t, a.s == b.s if a.s is not None else True, asbool(r1["strict"]) == asbool(r2["strict"]))


def ops_jobs(tier, prop):
    out = []
    if prop in ("C13", "C14"):
        for s in "edb":
            for k in ("callable", "str"):
                for l in (False, True):
                    out.append({"op": "register", "side": s, "lookup": k, "label": l})
                out.append({"op": "unregister", "side": s, "lookup": k})
        out += [{"op": o, "side": "b", "lookup": k} for o in ("register", "unregister") for k in ("int", "none")]
    if prop == "C14":
        out += [{"op": "copy", "via": v} for v in ("copy", "copy.copy", "copy.deepcopy")]
    if prop not in ("C06", "C09"):
        out += [{"op": "lookup", "side": "e", "via": v} for v in (("has_encoder",) if prop == "C05" else ("get_encoder",))]
    if prop != "C05":
        out += [{"op": "lookup", "side": "d", "via": v, "strict": b} for v in ("get_decoder",) for b in (False, True)]
    return out


register("registry-ops", "C05 C06 C09 C13 C14 C17", ops_jobs, run_ops, limit=60, boundable=True)
