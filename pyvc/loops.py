"""Loops over sequences of symbolic length.

The invariant of such a loop is computed, then checked: the body is run once at a generic
iteration j; every location it changes gets a closed form as a function of the iteration
(unchanged / start value plus prefix sum of the increments / sequence or byte string extended
by what each iteration appends / flag some iteration sets / temporary).  The closed forms are the loop invariant: the
body is run again from the state they describe at j, and the solver has to show that it ends
in the state they describe at j+1.  Exceptional exits are the first iteration i0 whose body
leaves, all earlier ones having completed normally.
"""
import z3

from . import core
from .core import A, Big, Blob, Forall, Poison, PSum, PyExc, Prune, SBool, SBytes, SInt, Unsupported, intern_psum, mkint, tsimp, zint
from .interp import BreakX, ContinueX, HavocSeq, ReturnX, SeqConcat, SeqV, references, same_val, seq_concat, seq_len, seq_suffix

ABSENT = object()
TEXT = (str, core.SStr)


def bytes_type(v):
    return v.pytype if isinstance(v, SBytes) else type(v)


class LoopSeg(SeqV):
    """What the iterations 0 .. upto-1 of a loop appended to a sequence."""

    def __init__(self, loop, loc, upto):
        self.loop, self.loc, self.upto = loop, loc, upto

    @property
    def n(self):
        ps = self.loop.counts[self.loc]
        if ps is None:
            return self.upto
        return ps.at(self.upto)

    def get(self, I, i):
        ps = self.loop.counts[self.loc]
        if ps is not None:
            return self.select(I, ps, zint(i))
        items = self.loop.items_at(I, self.loc, i)
        return items[0]

    def select(self, I, ps, k):
        """Item k of a filtered sequence: appended by the iteration s with c(s) <= k < c(s+1)."""
        ctx = I.ctx
        up = zint(self.upto)
        if not ctx.prove(z3.And(k >= 0, k < zint(ps.at(self.upto)))):
            raise Unsupported("item of a filtered sequence outside of its range")
        f = z3.Function(ps.id + ".sel", *[b.sort() for b in ps.outer], z3.IntSort(), z3.IntSort())
        s = f(*ps.outer, k)
        g = z3.And(k >= 0, k < zint(ps.at(self.upto)))
        c0, c1 = zint(ps.at(s)), zint(ps.at(z3.simplify(s + 1)))
        ctx.fact(("sel", s.get_id()), z3.Implies(g, z3.And(s >= 0, s < up, c0 <= k, k < c1)))
        ctx.add_index(s)
        items = self.loop.items_at(I, self.loc, s)
        for m in range(len(items)):
            if m == len(items) - 1 or ctx.decide(k == c0 + m):
                return items[m]
        raise Prune()

    def for_each(self, I, cb):
        def step(i):
            for x in self.loop.items_at(I, self.loc, i):
                cb(x)

        sym_loop(I, self.upto, step)


class Loop:
    def __init__(self):
        self.kinds = {}
        self.counts = {}
        self.sums = {}
        self.flags = {}  # loc -> the constant iterations set it to
        self.flagged = {}  # loc -> value after the loop

    def flag_at(self, loc, i):
        fn = z3.Function(f"{self.lid}.flag{list(self.flags).index(loc)}", *[b.sort() for b in self.outer], z3.IntSort(), z3.BoolSort())
        return fn(*self.outer, zint(i))

    def heap_at(self, ctx, i):
        h = dict(self.H0)
        for (oid, key), kind in self.kinds.items():
            v = self.value_at(ctx, (oid, key), i)
            r = dict(h[oid])
            if v is ABSENT:
                r.pop(key, None)
            else:
                r[key] = v
            h[oid] = r
        return h

    def value_at(self, ctx, loc, i):
        kind = self.kinds[loc]
        v0 = self.H0[loc[0]].get(loc[1], ABSENT)
        i = tsimp(i)
        if kind == "same":
            return v0
        if isinstance(i, int) and i == 0 and kind != "poison":
            return v0
        if kind == "int":
            return mkint(zint(v0) + zint(self.sums[loc].at(i)))
        if kind == "seq":
            return seq_concat(v0, LoopSeg(self, loc, i))
        if kind == "rope":
            big = Big(i, lambda k: self.pieces_at(loc, k), self.sums[loc])
            if isinstance(v0, TEXT):
                return core.mkstr(ctx, core.text_pieces(v0) + [big])
            return core.mkbytes(ctx, core.pieces_of(v0) + [big], bytes_type(v0))
        if kind == "flag":
            if loc in self.flagged and same_term(i, self.flagged[loc][0]):
                return self.flagged[loc][1]
            return SBool(self.flag_at(loc, i))
        if kind == "poison":
            return Poison()
        raise AssertionError(kind)

    def run_at(self, I, i):
        """Effects of iteration i (0 <= i < n), as {loc: appended}.  Decisions the body takes
        become decisions of the current path."""
        ctx = I.ctx
        i = z3.simplify(zint(i))
        key = (self.lid, i.get_id())
        if key in ctx.reexec_memo:
            return ctx.reexec_memo[key][1]
        if not ctx.prove(z3.And(i >= 0, i < zint(self.n))):
            raise Unsupported("element of a loop result outside of its range")
        ctx.add_index(i)
        saved = (ctx.heap, ctx.cnt, ctx.prefix, ctx.binders)
        h = self.heap_at(ctx, i)
        for o, r in ctx.heap.items():
            if o not in h:
                h[o] = r
        ctx.heap = h
        base = dict(h)
        ctx.cnt, ctx.prefix, ctx.binders = 0, self.lid + "/", self.outer + [i]
        try:
            self.step(SInt(i))
        except (PyExc, BreakX, ReturnX):
            raise Prune()  # iterations below n complete normally on this path
        finally:
            new = ctx.heap
            ctx.heap, ctx.cnt, ctx.prefix, ctx.binders = saved
        for o, r in new.items():
            if o not in base:
                ctx.heap[o] = r
        out = {}
        for loc, kind in self.kinds.items():
            if kind == "seq":
                s = seq_suffix(new[loc[0]][loc[1]], base[loc[0]][loc[1]])
                if s is None:
                    raise Unsupported("loop result is not an extension")
                out[loc] = s
            elif kind == "rope":
                out[loc] = rope_suffix(new[loc[0]][loc[1]], base[loc[0]][loc[1]])
        ctx.reexec_memo[key] = (i, out)
        return out

    def items_at(self, I, loc, i):
        return self.run_at(I, i)[loc]

    def pieces_at(self, loc, i):
        return self.run_at(self.I, i)[loc]


def rope_suffix(new, old):
    if isinstance(old, TEXT) != isinstance(new, TEXT):
        return None
    pieces = core.text_pieces if isinstance(old, TEXT) else core.pieces_of
    a, b = pieces(new), pieces(old)
    if len(a) < len(b):
        return None
    for k, q in enumerate(b):
        if a[k] is q:
            continue
        if isinstance(a[k], A) and isinstance(q, A) and a[k].blob is q.blob and k == 0 and zint(a[k].n).eq(zint(q.n)):
            continue
        return None
    return a[len(b):]


def changed_locs(base, new, only):
    out = []
    for oid in only:
        r0, r1 = base.get(oid), new.get(oid)
        if r0 is r1:
            continue
        for k in set(r0) | set(r1):
            a, b = r0.get(k, ABSENT), r1.get(k, ABSENT)
            if a is ABSENT or b is ABSENT or not same_val(a, b):
                out.append((oid, k))
    return sorted(out, key=str)


_NAMES = {}


def names_in(t):
    """Names of all function symbols and constants of a term (memoised; keeps the term alive)."""
    got = _NAMES.get(t.get_id())
    if got is not None:
        return got[1]
    if len(_NAMES) > 200000:
        _NAMES.clear()
    out = set()
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        for x in t.children():
            out |= names_in(x)
    else:
        for x in t.children():
            out |= names_in(x)
    out = frozenset(out)
    _NAMES[t.get_id()] = (t, out)
    return out


def contains(t, names):
    if isinstance(t, int):
        return False
    return not names_in(t).isdisjoint(names)


def sym_loop(I, n, step0):
    ctx = I.ctx
    n = tsimp(n)

    def step(i):
        try:
            step0(i)
        except ContinueX:
            pass

    if isinstance(n, int):
        for k in range(n):
            step(k)
        return
    if ctx.cap is not None and not ctx.decide(zint(n) <= ctx.cap):
        ctx.notes.add("capped")
        raise Prune()
    if ctx.bounded is not None:
        for k in range(ctx.bounded + 1):
            if ctx.decide(zint(n) <= k):
                return
            ctx.add_index(z3.IntVal(k))
            step(k)
        ctx.notes.add("bounded")
        raise Prune()
    if ctx.decide(zint(n) <= 0):
        return
    u = ctx.unique(n)
    if u is not None and u <= 8:
        for k in range(u):
            step(k)
        return
    L = Loop()
    L.I, L.n, L.step = I, n, step
    L.lid = f"{ctx.prefix}L{ctx.cnt}"
    ctx.cnt += 1
    L.outer = list(ctx.binders)
    L.H0 = dict(ctx.heap)
    ctx.loops_summarised += 1
    j = z3.Const(L.lid + ".j", z3.IntSort())
    rng = [j >= 0, j < zint(n)]
    oids = list(L.H0)

    def run():
        base0 = dict(ctx.heap)
        try:
            step(SInt(j))
            for (oid, key), hv in havoc.items():
                v = ctx.heap[oid].get(key)
                if isinstance(hv, SBool) and isinstance(v, SBool) and not same_val(v, base0[oid].get(key)):
                    ctx.put(oid, key, ctx.decide(v.t))
            return "normal", None
        except PyExc as e:
            return "exc", e.val.cls
        except BreakX:
            return "break", None
        except ReturnX:
            return "return", None

    # phase A: which locations change, and how
    havoc = {}
    hnames = set()
    for _round in range(6):
        h = dict(L.H0)
        for (oid, key), v in havoc.items():
            r = dict(h[oid])
            if v is ABSENT:
                r.pop(key, None)
            else:
                r[key] = v
            h[oid] = r
        save = ctx.heap
        ctx.heap = h
        ctx.speculative += 1
        try:
            outs = ctx.sub_explore(run, assume=rng, index=j, prefix=L.lid + "/")
        finally:
            ctx.heap = save
            ctx.speculative -= 1
        normals = [o for o in outs if o.kind == "normal"]
        new = []
        for o in normals:
            for loc in changed_locs(h, o.heap, oids):
                if loc not in havoc and loc not in new:
                    new.append(loc)
        if not new:
            break
        for loc in new:
            v0 = L.H0[loc[0]].get(loc[1], ABSENT)
            nm = f"{L.lid}.h{len(havoc)}"
            if v0 is ABSENT:
                havoc[loc] = ABSENT
            elif isinstance(v0, (SInt, int)) and not isinstance(v0, bool):
                havoc[loc] = SInt(z3.Int(nm))
                hnames.add(nm)
            elif isinstance(v0, (SBool, bool)):
                havoc[loc] = SBool(z3.Bool(nm))
                hnames.add(nm)
            elif isinstance(v0, (SBytes, bytes, bytearray)):
                if bytes_type(v0) is bytearray and references(L.H0, v0) != 1:
                    raise Unsupported("change of a shared byte array")
                hl = z3.Int(nm + ".len")
                hnames.add(nm + ".len")
                havoc[loc] = SBytes([A(Blob(nm, (), hl), z3.IntVal(0), hl)], bytes_type(v0))
            elif isinstance(v0, TEXT):
                hl = z3.Int(nm + ".len")
                hnames.add(nm + ".len")
                havoc[loc] = core.SStr([A(Blob(nm, (), hl), z3.IntVal(0), hl)])
            elif isinstance(v0, (tuple, SeqV)):
                hl = z3.Int(nm + ".len")
                hnames.add(nm + ".len")
                havoc[loc] = HavocSeq(hl)
            else:
                havoc[loc] = Poison()
    else:
        raise Unsupported("loop state does not settle")

    # read off the closed forms
    def finals(loc):
        return [(o, o.heap[loc[0]].get(loc[1], ABSENT)) for o in normals]

    L.kinds = {}
    deltas = {}
    for loc, hv in havoc.items():
        fs = finals(loc)
        if hv is ABSENT or isinstance(hv, Poison) or not fs:
            L.kinds[loc] = "poison"
        elif all(same_val(v, hv) for _, v in fs):
            L.kinds[loc] = "same"
        elif isinstance(hv, SBool):
            sets = {v if isinstance(v, bool) else None for o, v in fs if not same_val(v, hv) and not unchanged_flag(o, v, hv)}
            if len(sets) == 1 and None not in sets:
                L.kinds[loc] = "flag"
                L.flags[loc] = sets.pop()
            else:
                L.kinds[loc] = "poison"
        elif isinstance(hv, SInt):
            ds = []
            for o, v in fs:
                if v is ABSENT or not isinstance(v, (int, SInt)) or isinstance(v, bool):
                    ds = None
                    break
                d = tsimp(zint(v) - hv.t)
                if contains(d, {hv.t.decl().name()}):
                    ds = None
                    break
                ds.append(d)
            if ds is None:
                L.kinds[loc] = "poison"
            elif all(isinstance(d, int) and d == 0 for d in ds):
                L.kinds[loc] = "same"
            else:
                L.kinds[loc] = "int"
                deltas[loc] = ds
        elif isinstance(hv, HavocSeq):
            ss = [seq_suffix(v, hv) if isinstance(v, (tuple, SeqV)) else None for _, v in fs]
            if any(s is None for s in ss):
                L.kinds[loc] = "poison"
            elif all(len(s) == 0 for s in ss):
                L.kinds[loc] = "same"
            else:
                L.kinds[loc] = "seq"
        elif isinstance(hv, (SBytes, core.SStr)):
            ss = [rope_suffix(v, hv) if isinstance(v, (SBytes, bytes, bytearray) + TEXT) else None for _, v in fs]
            L.kinds[loc] = "poison" if any(s is None for s in ss) else "rope"
    # phase B: install the closed forms, collect the exact path conditions, then verify.
    # Increments may depend on other closed forms, so they are recomputed until they settle.
    resolved = set(l for l, k in L.kinds.items() if k not in ("int", "seq", "rope"))
    pending = [l for l, k in L.kinds.items() if k in ("int", "seq", "rope")]
    for _round in range(len(pending) + 2):
        progress = False
        for loc in list(pending):
            kind = L.kinds[loc]
            # closed forms of resolved locations replace their unknown entry values
            subs = []
            for l2, hv2 in havoc.items():
                if isinstance(hv2, SInt):
                    if L.kinds[l2] == "same":
                        subs.append((hv2.t, zint(L.H0[l2[0]][l2[1]])))
                    elif L.kinds[l2] == "int" and l2 in L.sums:
                        subs.append((hv2.t, zint(L.H0[l2[0]][l2[1]]) + zint(L.sums[l2].at(j))))
                elif isinstance(hv2, HavocSeq) and L.kinds[l2] == "seq" and l2 in L.counts:
                    v0 = L.H0[l2[0]][l2[1]]
                    cn = L.counts[l2]
                    subs.append((hv2.n, zint(seq_len(v0)) + (j if cn is None else zint(cn.at(j)))))
            sub = (lambda t: z3.substitute(t, *subs)) if subs else (lambda t: t)

            def clean(fs):
                return [f for f in map(sub, fs) if not contains(f, hnames)]

            d, facts = None, []
            cnts = set()
            for o, v in finals(loc):
                hv = havoc[loc]
                if kind == "int":
                    x = tsimp(zint(v) - hv.t)
                elif kind == "seq":
                    x = len(seq_suffix(v, hv))
                    cnts.add(x)
                else:
                    x = core.rlen(rope_suffix(v, hv))
                x = tsimp(sub(zint(x)))
                # a guess: phase B checks that the sums built from it are right
                c = z3.And(*clean(o.conds)) if clean(o.conds) else z3.BoolVal(True)
                d = x if d is None else (d if same_term(x, d) else z3.If(c, zint(x), zint(d)))
                facts.extend(clean(o.defs))
                fs = clean(o.facts)
                if fs:
                    facts.append(z3.Implies(z3.And(*map(sub, o.conds)), z3.And(*fs)))
            if kind == "seq" and cnts == {1}:
                L.counts[loc] = None
                pending.remove(loc)
                progress = True
                continue
            dt = z3.simplify(zint(d))
            if contains(dt, hnames):
                continue
            facts = [f for f in facts if not contains(f, hnames)]
            ident = f"{L.lid}.S{len(L.sums) + len(L.counts)}"
            ps = intern_psum(ctx, ident, n, j, dt, facts)
            if kind == "seq":
                L.counts[loc] = ps
            else:
                L.sums[loc] = ps
            pending.remove(loc)
            progress = True
        if not pending:
            break
        if not progress:
            # a rope or int whose increment depends on itself: give up on it
            raise Unsupported(f"loop-carried value without closed form: {[(l[1], L.kinds[l]) for l in pending]}")
    ctx.loop_table[L.lid] = L

    def run_b():
        ctx.heap = L.heap_at(ctx, j)
        base = dict(ctx.heap)
        k, v = run()
        marks = {}
        if k == "normal":
            for loc, kind in L.kinds.items():
                new = ctx.heap[loc[0]].get(loc[1], ABSENT)
                old = base[loc[0]].get(loc[1], ABSENT)
                if kind == "poison":
                    continue
                if kind == "flag":
                    sets = new is L.flags[loc] and not isinstance(old, bool)
                    if not (sets or same_val(new, old) or (isinstance(new, bool) and ctx.prove(zbool(old) == new))):
                        raise Unsupported("loop invariant (flag) not inductive")
                    marks[loc] = sets
                    continue
                if kind == "same":
                    if not same_val(new, old):
                        if isinstance(new, (int, SInt)) and isinstance(old, (int, SInt)) and ctx.prove(zint(new) == zint(old)):
                            continue
                        raise Unsupported(f"loop invariant (unchanged) not inductive: {loc[1]}")
                elif kind == "int":
                    want = zint(L.H0[loc[0]][loc[1]]) + zint(L.sums[loc].at(z3.simplify(j + 1)))
                    if not ctx.prove(zint(new) == want):
                        raise Unsupported(f"loop invariant (sum) not inductive: {loc[1]}")
                elif kind == "seq":
                    s = seq_suffix(new, old)
                    if s is None or (L.counts[loc] is None and len(s) != 1):
                        raise Unsupported("loop invariant (sequence) not inductive")
                    if L.counts[loc] is not None and not ctx.prove(
                        zint(L.counts[loc].at(z3.simplify(j + 1))) == zint(L.counts[loc].at(j)) + len(s)
                    ):
                        raise Unsupported("loop invariant (count) not inductive")
                elif kind == "rope":
                    s = rope_suffix(new, old)
                    if s is None or not ctx.prove(
                        zint(L.sums[loc].at(z3.simplify(j + 1))) == zint(L.sums[loc].at(j)) + zint(core.rlen(s))
                    ):
                        raise Unsupported("loop invariant (bytes) not inductive")
            for loc in changed_locs(base, ctx.heap, oids):
                if loc not in L.kinds:
                    raise Unsupported(f"loop changes {loc[1]} unexpectedly")
            return k, marks
        return k, v

    save = ctx.heap
    try:
        outs = ctx.sub_explore(run_b, assume=rng, index=j, prefix=L.lid + "/")
    finally:
        ctx.heap = save
    exits = [o for o in outs if o.kind != "normal"]
    normals = [o for o in outs if o.kind == "normal"]
    norm = z3.Or(*[z3.And(*(o.conds + o.facts)) for o in normals]) if normals else z3.BoolVal(False)

    def resolve_flags(upto):
        """The flags after the iterations 0 .. upto-1, all of which complete normally."""
        for loc, c in L.flags.items():
            v0 = L.H0[loc[0]][loc[1]]
            mark = lambda o: o.value[loc]  # noqa: E731
            off = z3.Or(*[z3.And(*(o.conds + o.facts)) for o in normals if not mark(o)])
            on = z3.Or(*[z3.And(*(o.conds + o.facts)) for o in normals if mark(o)])
            fl, b0 = L.flag_at(loc, j), zbool(v0)
            if ctx.choose(2) == 0:
                ctx.add_forall(Forall(0, upto, j, z3.And(off, fl == b0)))
                L.flagged[loc] = (upto, v0)
            else:
                w = ctx.fresh_int("set")
                ctx.assume(z3.And(w >= 0, w < zint(upto), z3.substitute(on, (j, w)), z3.substitute(fl, (j, w)) == b0))
                ctx.add_index(w)
                ctx.add_forall(Forall(0, w, j, z3.And(off, fl == b0)))
                ctx.add_forall(Forall(z3.simplify(w + 1), upto, j, fl == c))
                L.flagged[loc] = (upto, c)
        if L.flags and ctx.raw_check() == z3.unsat:
            raise Prune()

    if exits and ctx.choose(2) == 1:
        i0 = ctx.fresh_int("i0")
        ctx.assume(z3.And(i0 >= 0, i0 < zint(n)))
        ctx.add_forall(Forall(0, i0, j, norm))
        ctx.add_index(i0)
        resolve_flags(i0)
        if ctx.edges:
            ctx.add_index(z3.simplify(i0 - 1))
        if ctx.raw_check() == z3.unsat:
            raise Prune()
        ctx.heap = merge_new(L.heap_at(ctx, i0), ctx.heap)
        saved = (ctx.cnt, ctx.prefix, ctx.binders)
        ctx.cnt, ctx.prefix, ctx.binders = 0, L.lid + "/", L.outer + [i0]
        try:
            step(SInt(i0))
        finally:
            ctx.cnt, ctx.prefix, ctx.binders = saved
        raise Prune()  # i0 is the iteration that leaves
    ctx.add_forall(Forall(0, n, j, norm))
    if ctx.edges:
        ctx.add_index(z3.simplify(zint(n) - 1))
    if not normals:
        raise Prune()
    resolve_flags(n)
    ctx.heap = merge_new(L.heap_at(ctx, n), ctx.heap)


def merge_new(h, cur):
    for o, r in cur.items():
        if o not in h:
            h[o] = r
    return h


def unchanged_flag(o, v, hv):
    """On this path the flag was found to be what it is set to."""
    lit = hv.t if v is True else z3.Not(hv.t) if v is False else None
    return lit is not None and any(c.eq(lit) for c in o.conds)


def zbool(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(x)


def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zint(a).eq(zint(b))
