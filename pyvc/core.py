"""pyvc core: solver context, path exploration, symbolic values, byte ropes, prefix sums.

A harness is a thunk that is re-executed once per path.  Every mutable thing of the
interpreted program lives in `ctx.heap` (object id -> immutable record), so that a loop body
can be run again from any iteration's entry state.
"""
import functools
import subprocess
import sys
import tempfile
import time

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param("memory_max_size", 3000)
SSIZE_MAX = 2**63 - 1


class Unsupported(Exception):
    """The verifier has no rule for this construct: nothing is decided."""


class Prune(Exception):
    """The current path is infeasible."""


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, val):
        self.val = val


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return f"ExcVal({self.cls.__name__})"


def pyraise(cls, *args):
    raise PyExc(ExcVal(cls, args))


# ---------------------------------------------------------------- scalar values
class Sym:
    """Base of all engine-level values."""


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SDec(Sym):
    """A finite decimal with exact value t (a real term); ic = (int term, scale) if the
    value is known to be int/10**scale."""

    __slots__ = ("t", "ic", "neg")

    def __init__(self, t, ic=None, neg=None):
        self.t = z3.simplify(t)
        self.ic = ic
        self.neg = neg  # is the value, if it is zero, a minus zero? None: not tracked

    def __repr__(self):
        return f"SDec({self.t})"


class OpaqueText(Sym):
    """Text whose content is irrelevant (error messages)."""

    pytype = str


class SStr(Sym):
    """Text as a rope of pieces (of its UTF-8 form)."""

    pytype_ = str

    def __init__(self, p):
        self.p = p


class SOpaque(Sym):
    """A Python object of a type unrelated to every type the code asks about."""

    def __init__(self, name="opaque"):
        self.name = name


class Poison(Sym):
    """Value of a loop temporary outside of its iteration."""


def mkint(t):
    if isinstance(t, int):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def term(x):
    """z3 term or python number of an integer value."""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not an int: {x!r}")


def zint(x):
    x = term(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def tsimp(t):
    """Simplified term; numerals become python ints."""
    if isinstance(t, (int, bool)):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def is_num(t):
    return isinstance(t, int)


# ---------------------------------------------------------------- exploration
class Frame:
    def __init__(self, trace):
        self.trace = list(trace)
        self.pos = 0
        self.alts = []
        self.conds = []
        self.facts = []
        self.defs = []  # the facts that hold unconditionally


class PathOut:
    def __init__(self, kind, value, conds, facts, heap, defs=()):
        self.kind, self.value, self.conds, self.facts, self.heap, self.defs = kind, value, conds, facts, heap, defs

    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


class Forall:
    def __init__(self, lo, hi, j, body):
        self.lo, self.hi, self.j, self.body = lo, hi, j, body


class Stats:
    def __init__(self):
        self.checks = 0
        self.time = 0.0
        self.paths = 0
        self.cvc5 = 0
        self.unknown = 0


class Obligation:
    __slots__ = ("name", "ok", "bad", "detail")

    def __init__(self, name):
        self.name = name
        self.ok = 0
        self.bad = []


MAX_PATHS = 4000


class Ctx:
    def __init__(self, timeout_ms=8000, bounded=None):
        self.timeout = timeout_ms
        # None, or the concrete length used for symbolic sequences; a negative number: lengths stay
        # symbolic, but only paths on which they are at most that many are explored
        self.bounded = bounded if bounded is None or bounded >= 0 else None
        self.cap = -bounded if bounded is not None and bounded < 0 else None
        self.stats = Stats()
        self.obl = {}
        self.covers = {}
        self.solver = None
        self.loops_summarised = 0
        self.notes = set()
        self.speculative = 0  # >0 while a loop body is run from a guessed state
        self.edges = False  # also instantiate quantified facts at the last iterations of loops
        self.texts = False  # track the content of texts

    # -- solver
    def new_solver(self):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set("timeout", self.timeout)
        s.set("random_seed", 7)
        return s

    def raw_check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.time += time.time() - t
        self.stats.checks += 1
        return r

    def add(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self.solver.add(f)

    def assume(self, f):
        if isinstance(f, SBool):
            f = f.t
        if f is True:
            return
        if f is False:
            raise Prune()
        self.add(f)
        self.fr.facts.append(f)

    def fact(self, key, f):
        """A definitional fact, asserted once per solver scope."""
        for s in self.once:
            if key in s:
                return
        self.once[-1].add(key)
        if f is not True:
            self.add(f)
            self.fr.facts.append(f)
            self.fr.defs.append(f)

    def prove(self, f):
        """Is f a consequence of the path?  True / False."""
        return self.prove3(f) == "yes"

    def prove_quick(self, f, ms=300):
        """prove, given up soon"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        self.solver.set("timeout", ms)
        try:
            return self.raw_check(z3.Not(f)) == z3.unsat
        finally:
            self.solver.set("timeout", self.timeout)

    def prove3(self, f):
        if isinstance(f, SBool):
            f = f.t
        if isinstance(f, bool):
            if f:
                return "yes"
            f = z3.BoolVal(False)
        f = z3.simplify(f)
        if z3.is_true(f):
            return "yes"
        key = f.get_id()
        m = self.pcache.get(key)
        if m is not None and m[1] == "yes":
            return "yes"
        r = self.raw_check(z3.Not(f))
        if r == z3.unsat:
            self.pcache[key] = (f, "yes")
            return "yes"
        if r == z3.sat:
            return "no"
        return self.fallback(f)

    def fallback(self, f):
        self.stats.unknown += 1
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*self.solver.assertions())
        s.add(z3.Not(f))
        t = time.time()
        r = s.check()
        self.stats.time += time.time() - t
        if r == z3.unsat:
            return "yes"
        if r == z3.sat:
            return "no"
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
                fh.write("(set-logic ALL)\n" + s.to_smt2())
                fh.flush()
                t = time.time()
                out = subprocess.run(
                    ["cvc5", "--tlimit", str(self.timeout), fh.name],
                    capture_output=True, text=True, timeout=self.timeout / 1000 + 10,
                ).stdout
                self.stats.time += time.time() - t
                self.stats.cvc5 += 1
                if out.strip().startswith("unsat"):
                    return "yes"
        except Exception:
            pass
        return "unknown"

    # -- exploration
    def explore(self, thunk):
        """Run thunk on every feasible path of the program."""
        work = [[]]
        while work:
            tr = work.pop()
            self.stats.paths += 1
            if self.stats.paths > MAX_PATHS:
                raise Unsupported("too many paths")
            self.solver = self.new_solver()
            self.fr = Frame(tr)
            self.heap = {}
            self.next_oid = 1
            self.cnt = 0
            self.loopcnt = 0
            self.prefix = ""
            self.binders = []
            self.once = [set()]
            self.pcache = {}
            self.idx = []
            self.foralls = []
            self.pss = []
            self.reexec_memo = {}
            self.loop_table = {}
            self.approx = False
            try:
                thunk()
            except Prune:
                pass
            work.extend(self.fr.alts)

    def sub_explore(self, thunk, assume=(), index=None, prefix=None):
        """All paths of thunk from the current state, in a nested scope; the current state
        is restored afterwards.  thunk returns (kind, value)."""
        outs = []
        saved = (self.fr, self.heap, self.cnt, self.prefix, self.binders, self.pcache)
        nfor, nidx, nps = len(self.foralls), len(self.idx), len(self.pss)
        work = [[]]
        runs = 0
        while work:
            tr = work.pop()
            runs += 1
            if runs > 400:
                raise Unsupported("too many paths in a loop body")
            self.solver.push()
            self.once.append(set())
            self.fr = Frame(tr)
            self.heap = dict(saved[1])
            self.pcache = dict(saved[5])
            memo = self.reexec_memo
            self.reexec_memo = dict(memo)
            if index is not None:
                self.binders = saved[4] + [index]
                self.prefix = prefix
                self.cnt = 0
            try:
                for a in assume:
                    self.assume(a)
                if index is not None:
                    self.add_index(index)
                kind, value = thunk()
                outs.append(PathOut(kind, value, self.fr.conds, self.fr.facts, self.heap, self.fr.defs))
            except Prune:
                pass
            finally:
                alts = self.fr.alts
                self.solver.pop()
                self.once.pop()
                del self.foralls[nfor:]
                del self.idx[nidx:]
                del self.pss[nps:]
                self.reexec_memo = memo
                self.fr, self.heap, self.cnt, self.prefix, self.binders, self.pcache = saved
            work.extend(alts)
        return outs

    def decide(self, cond):
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        fr = self.fr
        if fr.pos < len(fr.trace):
            d = fr.trace[fr.pos]
            fr.pos += 1
        else:
            # a branch that cannot be excluded in time is explored
            self.solver.set("timeout", min(2500, self.timeout))
            r1 = self.raw_check(cond)
            r2 = self.raw_check(z3.Not(cond))
            self.solver.set("timeout", self.timeout)
            if r1 == z3.unsat and r2 == z3.unsat:
                raise Prune()
            if r1 == z3.unsat:
                d = False
            elif r2 == z3.unsat:
                d = True
            else:
                d = True
                fr.alts.append(fr.trace + [False])
            fr.trace.append(d)
            fr.pos += 1
        f = cond if d else z3.Not(cond)
        self.solver.add(f)
        fr.conds.append(f)
        return d

    def choose(self, k):
        """Nondeterministic choice 0..k-1 (every alternative is explored)."""
        fr = self.fr
        if fr.pos < len(fr.trace):
            d = fr.trace[fr.pos]
        else:
            d = 0
            for i in range(1, k):
                fr.alts.append(fr.trace + [i])
            fr.trace.append(0)
        fr.pos += 1
        return d

    # -- symbols
    def fresh(self, name, sort=None):
        sort = z3.IntSort() if sort is None else sort
        k = self.cnt
        self.cnt += 1
        nm = f"{self.prefix}{name}!{k}"
        if not self.binders:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[b.sort() for b in self.binders], sort)
        return f(*self.binders)

    def fresh_int(self, name):
        return self.fresh(name, z3.IntSort())

    def fresh_bool(self, name):
        return self.fresh(name, z3.BoolSort())

    def unique(self, t):
        """The python int that t must equal on this path, or None."""
        t = tsimp(t)
        if is_num(t):
            return t
        if self.raw_check() != z3.sat:
            return None
        v = self.solver.model().eval(t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        return v.as_long() if self.prove(t == v) else None

    # -- heap
    def alloc(self, rec):
        o = self.next_oid
        self.next_oid += 1
        self.heap[o] = rec
        return o

    def rec(self, oid):
        return self.heap[oid]

    def put(self, oid, key, val):
        r = dict(self.heap[oid])
        r[key] = val
        self.heap[oid] = r

    def delete(self, oid, key):
        r = dict(self.heap[oid])
        del r[key]
        self.heap[oid] = r

    # -- quantified facts, instantiated at the index terms of the path
    def add_index(self, i):
        i = tsimp(i)
        if is_num(i):
            i = z3.IntVal(i)
        if any(i.eq(k) for k in self.idx):
            return
        self.idx.append(i)
        for f in self.foralls:
            self.inst(f, i)

    def add_forall(self, f):
        self.foralls.append(f)
        for i in self.idx:
            self.inst(f, i)

    def inst(self, f, i):
        b = z3.substitute(f.body, (f.j, i))
        g = z3.Implies(z3.And(zint(f.lo) <= i, i < zint(f.hi)), b)
        self.add(g)
        self.fr.facts.append(g)

    # -- obligations
    def ensure(self, name, cond, info=None):
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = Obligation(name)
        if isinstance(cond, SBool):
            cond = cond.t
        r = self.prove3(cond) if cond is not None else "unaligned"
        if r == "yes":
            o.ok += 1
            return True
        model = None
        if r == "no" and self.approx:
            r = "approx"
        if r in ("no", "approx"):
            # get a model for the report
            if self.raw_check(z3.Not(cond) if not isinstance(cond, bool) else z3.BoolVal(True)) == z3.sat:
                model = self.solver.model()
        o.bad.append((r, model_dict(model), info))
        return False

    def cover(self, name):
        """Reachability: this point is reached on a satisfiable path."""
        if self.covers.get(name):
            return
        if self.raw_check() == z3.sat:
            self.covers[name] = True

    # -- prefix sums
    def psum(self, n, f, name="S"):
        """Prefix sums of the (path dependent) integer terms f(j), 0 <= j < n."""
        return make_psum(self, n, f, name)


def model_dict(m):
    if m is None:
        return None
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_rational_value(v):
                out[d.name()] = v.as_fraction()
            elif z3.is_bool(v):
                out[d.name()] = z3.is_true(v)
        elif d.arity() == 1 and ".be" in d.name():
            try:
                for e in m[d].as_list()[:-1]:
                    out[f"{d.name()}({e[0]})"] = e[1].as_long()
                out[f"{d.name()}(*)"] = m[d].else_value().as_long()
            except (AttributeError, z3.Z3Exception):
                pass
    return out


# ---------------------------------------------------------------- prefix sums
class PSum:
    """S(i) = sum of d(j) for 0 <= j < i.  d is a term over the constant `j`; `ctxfacts` are
    facts about d (implications over j)."""

    def __init__(self, ctx, ident, n, j, d, facts, nonneg, const, low=0):
        self.ctx, self.id, self.n, self.j, self.d, self.facts = ctx, ident, n, j, d, facts
        self.nonneg, self.const, self.low = nonneg, const, low
        self.outer = tuple(ctx.binders)

    def F(self, i):
        f = z3.Function(self.id, *[b.sort() for b in self.outer], z3.IntSort(), z3.IntSort())
        return f(*self.outer, zint(i))

    def dat(self, i):
        return z3.substitute(self.d, (self.j, zint(i)))

    def at(self, i):
        ctx = self.ctx
        i = tsimp(term(i))
        if is_num(i) and i <= 0:
            return z3.IntVal(0)
        if self.const is not None:
            return tsimp(zint(i) * self.const) if is_num(self.const) or is_num(i) else self.use(i)
        return self.use(i)

    def use(self, i):
        ctx = self.ctx
        i = zint(i)
        t = self.F(i)
        key = ("ps", t.get_id())
        for s in ctx.once:
            if key in s:
                return t
        ctx.once[-1].add(key)
        n = zint(self.n)
        zero = z3.IntVal(0)
        fs = [self.F(zero) == 0]
        for k in (i, z3.simplify(i - 1)):
            dk = self.dat(k)
            g = z3.And(k >= 0, k < n)
            fs.append(z3.Implies(g, self.F(z3.simplify(k + 1)) == self.F(k) + dk))
            for ft in self.facts:
                fs.append(z3.Implies(g, z3.substitute(ft, (self.j, k))))
        if self.nonneg:
            fs.append(z3.Implies(z3.And(0 <= i, i <= n), z3.And(t >= 0, t <= self.F(n))))
            fs.append(z3.Implies(z3.And(0 <= i, i < n), t + self.dat(i) <= self.F(n)))
            if self.low:
                # every summand is at least low
                fs.append(z3.Implies(z3.And(0 <= i, i <= n), t >= self.low * i))
            for k in ctx.idx + [n]:
                if k.eq(i):
                    continue
                fk = self.F(k)
                fs.append(z3.Implies(z3.And(0 <= i, i < k, k <= n), t + self.dat(i) <= fk))
                fs.append(z3.Implies(z3.And(0 <= k, k < i, i <= n), fk + self.dat(k) <= t))
        if self.const is not None and self.const is not True and not is_num(self.const):
            fs.append(t == i * self.const)
        f = z3.And(*fs)
        ctx.add(f)
        ctx.fr.facts.append(f)
        ctx.fr.defs.append(f)
        return t


def make_psum(ctx, n, f, name):
    """f(j) -> integer value; it may branch (ctx.decide) on facts about j."""
    n = tsimp(term(n))
    jid = f"{ctx.prefix}ps{ctx.cnt}"
    ctx.cnt += 1
    j = z3.Const(jid + ".j", z3.IntSort())
    if ctx.binders:
        # the summand may depend on the enclosing indices through its own terms only
        pass
    zn = zint(n)
    outs = ctx.sub_explore(
        lambda: ("ok", tsimp(term(f(SInt(j))))), assume=[j >= 0, j < zn], index=j, prefix=jid + "/"
    )
    if not outs:
        return PSum(ctx, jid, n, j, z3.IntVal(0), [], True, 0)
    facts = []
    d = None
    for o in outs:
        c = o.cond()
        facts.extend(o.defs)
        if o.facts:
            facts.append(z3.Implies(c, z3.And(*o.facts)))
        d = zint(o.value) if d is None else z3.If(c, zint(o.value), d)
    return intern_psum(ctx, jid, n, j, d, facts)


def free_of(t, j):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(j):
            return False
        todo.extend(x.children())
    return True


def intern_psum(ctx, ident, n, j, d, facts):
    d = z3.simplify(d)
    n = tsimp(n)
    zn = zint(n)
    # reuse an existing sum with the same summands (decided by the solver at a generic index)
    for p in ctx.pss:
        ctx.solver.push()
        try:
            ctx.solver.add(j >= 0, j < zn, *facts)
            ctx.solver.add(*[z3.substitute(x, (p.j, j)) for x in p.facts])
            for fa in ctx.foralls:
                ctx.solver.add(z3.Implies(z3.And(zint(fa.lo) <= j, j < zint(fa.hi)), z3.substitute(fa.body, (fa.j, j))))
            same = ctx.raw_check(z3.substitute(p.d, (p.j, j)) != d) == z3.unsat
            same = same and ctx.raw_check(z3.Not(zn <= zint(p.n))) == z3.unsat
        finally:
            ctx.solver.pop()
        if same:
            return p
    const = None
    ctx.solver.push()
    ctx.solver.add(j >= 0, j < zn, *facts)
    for fa in ctx.foralls:
        ctx.solver.add(z3.Implies(z3.And(zint(fa.lo) <= j, j < zint(fa.hi)), z3.substitute(fa.body, (fa.j, j))))
    nonneg = ctx.raw_check(z3.Not(d >= 0)) == z3.unsat
    v = None
    if ctx.raw_check() == z3.sat:
        v = ctx.solver.model().eval(d, model_completion=True)
        if z3.is_int_value(v) and ctx.raw_check(d != v) == z3.unsat:
            const = v.as_long()
    low = 0
    if nonneg and const is None:
        for m in (32, 1):
            if ctx.raw_check(z3.Not(d >= m)) == z3.unsat:
                low = m
                break
    ctx.solver.pop()
    p = PSum(ctx, ident, n, j, d, facts, nonneg, const, low)
    ctx.pss.append(p)
    return p


def refine_psums(ctx):
    """Sums whose summands are all the same number on this path."""
    new = False
    for p in ctx.pss:
        if p.const is not None:
            continue
        j, zn = p.j, zint(p.n)
        c = None
        ctx.solver.push()
        try:
            ctx.solver.add(j >= 0, j < zn, *p.facts)
            for fa in ctx.foralls:
                ctx.solver.add(z3.Implies(z3.And(zint(fa.lo) <= j, j < zint(fa.hi)), z3.substitute(fa.body, (fa.j, j))))
            if ctx.raw_check() == z3.sat:
                v = ctx.solver.model().eval(p.d, model_completion=True)
                if z3.is_int_value(v) and ctx.raw_check(p.d != v) == z3.unsat:
                    c = v.as_long()
        finally:
            ctx.solver.pop()
        if c is not None:
            new = True
            for k in ctx.idx + [zn]:
                ctx.assume(z3.Implies(z3.And(k >= 0, k <= zn), p.F(k) == c * k))
    return new


# ---------------------------------------------------------------- ropes
class Blob:
    """An abstract byte string, identified by a name and argument terms."""

    def __init__(self, name, args, length, info=None):
        self.name, self.args, self.len, self.info = name, tuple(args), length, info

    def same(self, ctx, other):
        if self is other:
            return True
        if self.name != other.name or len(self.args) != len(other.args):
            return False
        return all(a.eq(b) or ctx.prove(a == b) for a, b in zip(self.args, other.args))

    def fn(self, suffix, nargs, sort):
        f = z3.Function(
            f"{self.name}.{suffix}", *[a.sort() for a in self.args], *[z3.IntSort()] * nargs, sort
        )
        return lambda *xs: f(*self.args, *[zint(x) for x in xs])


class Lit:
    def __init__(self, b):
        self.b = b
        self.n = len(b)


class W:
    """n bytes, big endian, of 0 <= v < 256**n."""

    def __init__(self, v, n):
        self.v, self.n = v, n


class Rep:
    def __init__(self, byte, n):
        self.byte, self.n = byte, n


class A:
    def __init__(self, blob, off, n):
        self.blob, self.off, self.n = blob, off, n


class Big:
    """Concatenation of gen(0), ..., gen(cnt-1); ps are the prefix sums of their lengths."""

    def __init__(self, cnt, gen, ps):
        self.cnt, self.gen, self.ps = cnt, gen, ps
        self._n = None

    @property
    def n(self):
        return self.ps.at(self.cnt)


class NotAligned(Exception):
    pass


def rlen(pieces):
    t = 0
    for p in pieces:
        t = t + p.n
    return tsimp(t)


def add_piece(ctx, out, p):
    if is_num(tsimp(p.n)) and tsimp(p.n) == 0:
        return
    if out:
        q = out[-1]
        if isinstance(q, Lit) and isinstance(p, Lit):
            out[-1] = Lit(q.b + p.b)
            return
        if isinstance(q, Rep) and isinstance(p, Rep) and q.byte == p.byte:
            out[-1] = Rep(q.byte, tsimp(q.n + p.n))
            return
        if isinstance(q, Rep) and q.byte == 0 and isinstance(p, W):
            out[-1] = W(p.v, tsimp(q.n + p.n))
            return
        if isinstance(q, Rep) and q.byte == 255 and isinstance(p, W):
            L = ctx.unique(p.n)
            R = ctx.unique(q.n)
            if L is not None and R is not None and R + L <= 64:
                out[-1] = W(tsimp(p.v + (256 ** (R + L) - 256**L)), R + L)
                return
        if isinstance(q, A) and isinstance(p, A) and q.blob.same(ctx, p.blob):
            if tsimp(zint(q.off) + zint(q.n) - zint(p.off)) == 0:
                out[-1] = A(q.blob, q.off, tsimp(q.n + p.n))
                return
    out.append(p)


def norm(ctx, pieces):
    out = []
    for p in pieces:
        add_piece(ctx, out, p)
    return out


class SBytes(Sym):
    def __init__(self, pieces, pytype=bytes):
        self.p = pieces
        self.pytype = pytype

    def __repr__(self):
        return f"SBytes({[type(x).__name__ for x in self.p]})"


def pieces_of(x):
    if isinstance(x, SBytes):
        return x.p
    if isinstance(x, (bytes, bytearray)):
        return [Lit(bytes(x))] if x else []
    raise Unsupported(f"not bytes: {x!r}")


def mkbytes(ctx, pieces, pytype=bytes):
    ps = norm(ctx, pieces)
    if not ps:
        return pytype()
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, Lit):
            return pytype(p.b)
        if isinstance(p, W) and is_num(p.v) and is_num(p.n):
            return pytype(p.v.to_bytes(p.n, "big"))
        if isinstance(p, Rep) and is_num(p.n) and p.n <= 4096:
            return pytype(bytes([p.byte]) * p.n)
    return SBytes(ps, pytype)


def text_pieces(x):
    """Pieces of a str value, or None if its content is not tracked."""
    if isinstance(x, str):
        return [Lit(x.encode())] if x else []
    if isinstance(x, SStr):
        return x.p
    h = getattr(x, "sym_pieces", None)
    return h() if h is not None else None


def mkstr(ctx, pieces):
    ps = norm(ctx, pieces)
    if not ps:
        return ""
    if len(ps) == 1 and isinstance(ps[0], Lit):
        return ps[0].b.decode()
    return SStr(ps)


def dec_blob(ctx, n):
    """The decimal digits of an integer."""
    n = tsimp(term(n))
    if is_num(n):
        return Lit(str(n).encode())
    L = z3.Function("declen", z3.IntSort(), z3.IntSort())(zint(n))
    ctx.fact(("declen", L.get_id()), z3.And(L >= 1, L <= 2**40))
    return A(Blob("dec", (zint(n),), L, info=("dec", zint(n))), z3.IntVal(0), L)


def piece_int(ctx, p):
    """Integer value of a piece of concrete length (big endian)."""
    if isinstance(p, Lit):
        return int.from_bytes(p.b, "big")
    if isinstance(p, W):
        return p.v
    n = p.n if is_num(p.n) else ctx.unique(p.n)
    if n is None:
        raise NotAligned("symbolic length")
    if isinstance(p, Rep):
        return int.from_bytes(bytes([p.byte]) * n, "big")
    if isinstance(p, A):
        if n > 64:
            raise NotAligned("long blob")
        v = p.blob.fn(f"be{n}", 1, z3.IntSort())(p.off)
        ctx.fact(("be", v.get_id()), z3.And(v >= 0, v < 256**n))
        return v
    raise NotAligned("big")


def to_int(ctx, x):
    """int.from_bytes(x, 'big')"""
    ps = norm(ctx, pieces_of(x))
    while ps and isinstance(ps[0], Rep) and ps[0].byte == 0:
        ps = ps[1:]
    if not ps:
        return 0
    if len(ps) == 1 and isinstance(ps[0], W):
        return tsimp(ps[0].v)
    v = 0
    for p in ps:
        n = p.n if is_num(p.n) else ctx.unique(p.n)
        if n is None or n > 64:
            raise Unsupported("from_bytes of bytes of unknown length")
        try:
            v = v * 256**n + piece_int(ctx, p)
        except NotAligned as e:
            raise Unsupported(f"from_bytes: {e}")
    return tsimp(v)


def take(ctx, ps, k):
    """Split pieces at k (0 <= k <= length, both known to hold on the path)."""
    k = tsimp(k)
    left = []
    rest = list(ps)
    while True:
        if is_num(k) and k == 0:
            return left, rest
        if not rest:
            return left, rest
        p = rest[0]
        n = tsimp(p.n)
        if is_num(n) and is_num(k):
            ge = k >= n
        else:
            if ctx.prove(zint(k) >= zint(n)):
                ge = True
            elif ctx.prove(zint(k) < zint(n)):
                ge = False
            elif ctx.prove(zint(k) == 0):
                return left, rest
            else:
                ge = ctx.decide(zint(k) >= zint(n))
        if ge:
            left.append(p)
            rest.pop(0)
            k = tsimp(k - n)
            continue
        if not is_num(k) and ctx.prove(zint(k) == 0):
            return left, rest
        a, b = split_piece(ctx, p, k)
        return left + a, b + rest[1:]


def split_piece(ctx, p, k):
    """0 <= k < len(p), k not 0."""
    if isinstance(p, Lit):
        kk = k if is_num(k) else ctx.unique(k)
        if kk is None:
            if len(set(p.b)) == 1:
                return [Rep(p.b[0], k)], [Rep(p.b[0], tsimp(p.n - k))]
            raise Unsupported("symbolic split of a literal")
        return [Lit(p.b[:kk])], [Lit(p.b[kk:])]
    if isinstance(p, Rep):
        return [Rep(p.byte, k)], [Rep(p.byte, tsimp(p.n - k))]
    if isinstance(p, A):
        kk = k if is_num(k) else ctx.unique(k)
        n = p.n if is_num(p.n) else None
        if n is not None and n <= 64 and kk is not None:
            v = piece_int(ctx, p)
            m = 256 ** (n - kk)
            return [W(tsimp(zint(v) / m), kk)], [W(tsimp(zint(v) % m), n - kk)]
        return [A(p.blob, p.off, k)], [A(p.blob, tsimp(zint(p.off) + k), tsimp(p.n - zint(k)))]
    if isinstance(p, W):
        kk = k if is_num(k) else ctx.unique(k)
        n = p.n if is_num(p.n) else ctx.unique(p.n)
        if n is None and not is_num(p.v):
            raise Unsupported("split of a word of unknown width")
        if kk is None and n is not None and n <= 40:
            for j in range(1, n):
                if j == n - 1 or ctx.decide(zint(k) == j):
                    kk = j
                    break
        if kk is None or n is None:
            raise Unsupported("symbolic split of a word")
        m = 256 ** (n - kk)
        return [W(tsimp(zint(p.v) / m), kk)], [W(tsimp(zint(p.v) % m), n - kk)]
    if isinstance(p, Big):
        ps, cnt = p.ps, p.cnt
        for i in list(reversed(ctx.idx)) + [z3.IntVal(0)]:
            for c in (i, z3.simplify(i + 1)):
                s0 = ps.at(c)
                if not ctx.prove(z3.And(c >= 0, c < zint(cnt))):
                    continue
                if ctx.prove(zint(s0) == zint(k)):
                    return [sub_big(p, 0, c)], [sub_big(p, c, cnt)]
        for i in list(reversed(ctx.idx)) + [z3.IntVal(0)]:
            if not ctx.prove(z3.And(i >= 0, i < zint(cnt))):
                continue
            s0, s1 = ps.at(i), ps.at(z3.simplify(i + 1))
            if ctx.prove(z3.And(zint(s0) <= zint(k), zint(k) < zint(s1))):
                chunk = p.gen(i)
                a, b = take(ctx, chunk, tsimp(zint(k) - zint(s0)))
                return [sub_big(p, 0, i)] + a, b + [sub_big(p, z3.simplify(i + 1), cnt)]
        raise Unsupported("split inside an unknown element of a concatenation")
    raise Unsupported("split")


class SubBig(Big):
    """Elements lo .. hi-1 of a Big."""

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    @property
    def n(self):
        return tsimp(zint(self.base.ps.at(self.hi)) - zint(self.base.ps.at(self.lo)))


def sub_big(p, lo, hi):
    if isinstance(p, SubBig):
        raise Unsupported("nested sub concatenation")
    return SubBig(p, tsimp(lo), tsimp(hi))


def expand_sub(ctx, ps):
    """Give the first element of a leading SubBig as pieces of its own."""
    out = []
    for p in ps:
        if isinstance(p, SubBig) and not out:
            if ctx.prove(zint(p.lo) >= zint(p.hi)):
                continue
            if ctx.prove(zint(p.lo) < zint(p.hi)):
                out.extend(p.base.gen(p.lo))
                nxt = tsimp(zint(p.lo) + 1)
                if not ctx.prove(zint(nxt) >= zint(p.hi)):
                    out.append(SubBig(p.base, nxt, p.hi))
                continue
        out.append(p)
    return out


def drop_take(ctx, ps, a, n):
    """n bytes at offset a (both in range on this path)."""
    _, rest = take(ctx, ps, a)
    out = []
    need = tsimp(n)
    for _ in range(12):
        if is_num(need) and need == 0:
            return out
        while rest and isinstance(rest[0], SubBig):
            # is the whole remainder wanted?
            whole = rest[0]
            if ctx.prove(zint(whole.n) <= zint(need)) and not ctx.prove(zint(whole.lo) + 1 >= zint(whole.hi)):
                break
            new = expand_sub(ctx, rest)
            if new == rest or (new and isinstance(new[0], SubBig)):
                raise Unsupported("cannot expand concatenation")
            rest = new
        if not rest:
            return out
        p = rest[0]
        if isinstance(p, SubBig):
            out.append(p)
            need = tsimp(zint(need) - zint(p.n))
            rest = rest[1:]
            continue
        n0 = tsimp(p.n)
        if (is_num(n0) and is_num(need) and n0 <= need) or ctx.prove(zint(n0) <= zint(need)):
            out.append(p)
            rest = rest[1:]
            need = tsimp(zint(need) - zint(n0))
            if not is_num(need) and ctx.prove(need == 0):
                return out
            continue
        a2, _ = take(ctx, [p], need)
        return out + a2
    raise Unsupported("slice over too many pieces")


def zero_formula(ctx, ps):
    fs = []
    for p in ps:
        if isinstance(p, Lit):
            if any(p.b):
                return False
        elif isinstance(p, W):
            fs.append(zint(p.v) == 0)
        elif isinstance(p, Rep):
            if p.byte != 0:
                fs.append(zint(p.n) == 0)
        elif isinstance(p, A):
            n = p.n if is_num(p.n) else None
            if n is not None and n <= 64:
                fs.append(zint(piece_int(ctx, p)) == 0)
            else:
                z = p.blob.fn("zero", 2, z3.BoolSort())(p.off, p.n)
                ctx.fact(("zero", z.get_id()), z3.Implies(zint(p.n) <= 0, z))
                fs.append(z)
        else:
            raise NotAligned("zero test of a concatenation")
    return z3.And(*fs) if fs else True


def all_zero(ps):
    return all((isinstance(p, Rep) and p.byte == 0) or (isinstance(p, Lit) and not any(p.b)) for p in ps)


def eq_formula(ctx, a, b):
    """Formula for equality of two ropes.  Raises NotAligned if none can be given."""
    a = norm(ctx, a)
    b = norm(ctx, b)
    la, lb = rlen(a), rlen(b)
    leq = True if (is_num(la) and is_num(lb) and la == lb) else (zint(la) == zint(lb))
    if leq is not True and ctx.prove(z3.Not(leq)):
        return False
    if not a and not b:
        return True
    if not a or not b:
        return zint(rlen(a or b)) == 0
    for x, y in ((a, b), (b, a)):
        if all_zero(y):
            z = zero_formula(ctx, x)
            if z is False:
                return False
            return z3.And(leq, z) if leq is not True or z is not True else True
    if is_num(la) and is_num(lb) and la == lb and la <= 64:
        try:
            va = vb = 0
            for p in a:
                va = va * 256 ** lenc(ctx, p) + zint(piece_int(ctx, p))
            for p in b:
                vb = vb * 256 ** lenc(ctx, p) + zint(piece_int(ctx, p))
            return va == vb
        except NotAligned:
            pass
    if leq is not True and not ctx.prove(leq) and not (refine_psums(ctx) and ctx.prove(leq)):
        # compare under the assumption that the lengths agree
        if not ctx.decide(leq):
            return False
        return eq_formula(ctx, a, b)
    conj = []
    a, b = list(a), list(b)
    steps = 0
    while a or b:
        steps += 1
        if steps > 40:
            raise NotAligned("too many pieces")
        while a and not is_num(a[0].n) and ctx.prove(zint(a[0].n) == 0):
            a.pop(0)
        while b and not is_num(b[0].n) and ctx.prove(zint(b[0].n) == 0):
            b.pop(0)
        if not a and not b:
            break
        if not a or not b:
            rest = a or b
            conj.append(zint(rlen(rest)) == 0)
            break
        p, q = a[0], b[0]
        if isinstance(p, Big) and isinstance(q, Big):
            cp, cq = big_count(p), big_count(q)
            if ctx.prove(cp == cq):
                if not eq_big(ctx, p, q):
                    raise NotAligned("concatenations differ")
                a.pop(0)
                b.pop(0)
                continue
            if ctx.prove(cp > cq):
                a[0:1] = peel(ctx, p)
            elif ctx.prove(cp < cq):
                b[0:1] = peel(ctx, q)
            else:
                raise NotAligned("concatenations of different count")
            continue
        if isinstance(p, Big):
            a[0:1] = peel(ctx, p)
            continue
        if isinstance(q, Big):
            b[0:1] = peel(ctx, q)
            continue
        pn, qn = tsimp(p.n), tsimp(q.n)
        if isinstance(p, A) and isinstance(q, A) and p.blob.same(ctx, q.blob) and ctx.prove(zint(p.off) == zint(q.off)):
            if ctx.prove(zint(pn) == zint(qn)):
                a.pop(0)
                b.pop(0)
                continue
        try:
            if ctx.prove(zint(pn) == zint(qn)):
                n = lenp(ctx, p)
                if isinstance(p, Rep) and isinstance(q, Rep):
                    if p.byte != q.byte:
                        conj.append(zint(pn) == 0)
                elif isinstance(p, W) and isinstance(q, W):
                    conj.append(zint(p.v) == zint(q.v))
                elif n is not None and n <= 64:
                    conj.append(zint(piece_int(ctx, p)) == zint(piece_int(ctx, q)))
                else:
                    raise NotAligned("pieces of different kind")
                a.pop(0)
                b.pop(0)
            elif ctx.prove(zint(pn) < zint(qn)) and not isinstance(q, Big):
                x, y = split_piece(ctx, q, pn)
                b[0:1] = x + y
            elif ctx.prove(zint(pn) > zint(qn)) and not isinstance(p, Big):
                x, y = split_piece(ctx, p, qn)
                a[0:1] = x + y
            else:
                raise NotAligned("cannot order the pieces")
        except Unsupported as e:
            raise NotAligned(str(e))
    return z3.And(*conj) if conj else True


def lenp(ctx, p):
    n = tsimp(p.n)
    return n if is_num(n) else ctx.unique(n)


def lenc(ctx, p):
    n = lenp(ctx, p)
    if n is None:
        raise NotAligned("symbolic length")
    return n


def parts(x):
    return (x.base, x.lo, x.hi) if isinstance(x, SubBig) else (x, 0, x.cnt)


def big_count(x):
    _, lo, hi = parts(x)
    return z3.simplify(zint(hi) - zint(lo))


def peel(ctx, p):
    """The first element of a concatenation as pieces of its own."""
    base, lo, hi = parts(p)
    if not ctx.decide(zint(lo) < zint(hi)):
        return []
    try:
        first = base.gen(zint(lo))
    except Unsupported as e:
        raise NotAligned(str(e))
    return list(first) + [SubBig(base, tsimp(zint(lo) + 1), hi)]


def eq_big(ctx, p, q):
    """Equal number of elements, and element by element equal (decided at a generic index)."""
    (pb, pl, ph), (qb, ql, qh) = parts(p), parts(q)
    if pb is qb and ctx.prove(z3.And(zint(pl) == zint(ql), zint(ph) == zint(qh))):
        return True
    if not ctx.prove(zint(ph) - zint(pl) == zint(qh) - zint(ql)):
        return False
    jid = f"{ctx.prefix}eq{ctx.cnt}"
    ctx.cnt += 1
    j = z3.Const(jid + ".j", z3.IntSort())
    ok = []

    def run():
        try:
            f = eq_formula(ctx, pb.gen(z3.simplify(zint(pl) + j)), qb.gen(z3.simplify(zint(ql) + j)))
        except (NotAligned, Unsupported):
            f = False
        ok.append(ctx.prove(f))
        return "ok", None

    ctx.sub_explore(run, assume=[j >= 0, j < zint(ph) - zint(pl)], index=j, prefix=jid + "/")
    return all(ok)
