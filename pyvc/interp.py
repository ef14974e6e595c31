"""Symbolic interpreter for the real Python source of /repo (and eth_utils): functions are
located through the live function objects and interpreted from the AST of the file they were
loaded from."""
import ast
import builtins
import functools
import types

from . import core
from .core import (
    Blob, ExcVal, OpaqueText, Poison, PyExc, SBool, SBytes, SDec, SInt, SOpaque, Sym, Unsupported,
    mkbool, mkint, term, tsimp, zint, z3,
)


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class FrameObj:
    __slots__ = ("oid", "parent", "glob", "cells", "locals", "yield_cb", "nonlocals", "name", "cls", "self0")

    def __init__(self, oid, parent, glob, cells, locs, name):
        self.oid, self.parent, self.glob, self.cells, self.locals, self.name = oid, parent, glob, cells, locs, name
        self.yield_cb = None
        self.nonlocals = ()
        self.self0 = None


class Closure(Sym):
    """A function defined by interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class BoundMethod(Sym):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinMethod(Sym):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SObj(Sym):
    """An instance of a real class, attributes in the symbolic heap."""

    def __init__(self, cls, oid):
        self.cls, self.oid = cls, oid

    def __repr__(self):
        return f"<SObj {self.cls.__name__}>"


class SList(Sym):
    """A list; its content is the sequence rec['v']."""

    def __init__(self, oid):
        self.oid = oid


class SDict(Sym):
    """A dict with concrete keys; rec['v'] is a tuple of (key, value)."""

    def __init__(self, oid):
        self.oid = oid


class SuperObj(Sym):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Model(Sym):
    """An engine-level callable: fn(interp, args, kwargs)."""

    def __init__(self, fn, name="model"):
        self.fn, self.name = fn, name


class GenExp(Sym):
    once = None  # heap cell of an iterator: how far it has been used

    def __init__(self, node, frame, first):
        self.node, self.frame, self.first = node, frame, first


class GenObj(Sym):
    """A generator: run(cb) executes the body, calling cb for every yielded value."""

    once = None

    def __init__(self, run, node=None, frame=None):
        self.run, self.node, self.frame = run, node, frame


class SeqV(Sym):
    """Immutable sequence of symbolic length; subclasses define n and get(i)."""

    pytype = tuple


class SymSeq(SeqV):
    def __init__(self, n, getter, pytype=tuple):
        self.n, self.getter, self.pytype = n, getter, pytype

    def get(self, I, i):
        return self.getter(i)


class SeqConcat(SeqV):
    def __init__(self, parts, pytype=tuple):
        self.parts, self.pytype = parts, pytype

    @property
    def n(self):
        return tsimp(sum((zint(seq_len(p)) for p in self.parts), z3.IntVal(0)))

    def get(self, I, i):
        i = zint(i)
        for k, p in enumerate(self.parts):
            L = zint(seq_len(p))
            if k == len(self.parts) - 1 or I.ctx.decide(i < L):
                return seq_get(I, p, i)
            i = z3.simplify(i - L)


class HavocSeq(SeqV):
    def __init__(self, n):
        self.n = n

    def get(self, I, i):
        raise Unsupported("read of a loop-carried sequence")


class SeqSlice(SeqV):
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    @property
    def n(self):
        return tsimp(zint(self.hi) - zint(self.lo))

    def get(self, I, i):
        return seq_get(I, self.base, z3.simplify(zint(i) + zint(self.lo)))


class MapSeg(SeqV):
    """The entries of an arbitrary map of symbolic size: pairwise different keys K(i), known by
    their inverse P.  keyterm(I, k): the term of a key or None if it cannot be a key of this map."""

    def __init__(self, name, n, sort, mkkey, mkval, keyterm, on_key=None):
        self.n, self.mkkey, self.mkval, self.keyterm, self.on_key = n, mkkey, mkval, keyterm, on_key
        self.K = z3.Function(name + ".K", z3.IntSort(), sort)
        self.P = z3.Function(name + ".P", sort, z3.IntSort())

    def entry(self, I, t, i):
        ctx = I.ctx
        inr = z3.And(i >= 0, i < zint(self.n))
        ctx.fact(("map", self.K.name(), t.get_id(), i.get_id()), z3.Implies(inr, z3.And(self.K(i) == t, self.P(t) == i)))
        if self.on_key is not None:
            self.on_key(ctx, t, inr)

    def get(self, I, i):
        i = zint(i)
        t = self.K(i)
        self.entry(I, t, i)
        return (self.mkkey(t), self.mkval(t))

    def index(self, I, t):
        """the position of key t, meaningful if it lies within 0 .. n-1"""
        i = self.P(t)
        self.entry(I, t, i)
        return i


class MapFilter(SeqV):
    """The entries lo .. hi-1 of a MapSeg whose key satisfies cond (a function of the key term)."""

    def __init__(self, ctx, base, lo, hi, cond):
        self.base, self.lo, self.hi, self.cond = base, lo, hi, cond
        self.n = ctx.fresh_int("filtered")
        ctx.assume(z3.And(self.n >= 0, self.n <= zint(hi) - zint(lo)))

    def get(self, I, i):
        raise Unsupported("item of a filtered dict")


class Lazy(Sym):
    """zip / map / enumerate / reversed / accumulate / iter: kind and operands."""

    once = None

    def __init__(self, kind, args, ctx=None):
        self.kind, self.args = kind, args
        if ctx is not None:
            self.once = ctx.alloc({"used": "no", "pos": 0})


ITERS = (GenExp, GenObj, Lazy)


class SRange(Sym):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def seq_len(v):
    return len(v) if isinstance(v, tuple) else v.n


def seq_get(I, v, i):
    i = tsimp(term(i))
    if isinstance(v, tuple):
        if isinstance(i, int):
            return v[i]
        for k in range(len(v)):
            if k == len(v) - 1 or I.ctx.decide(i == k):
                return v[k]
        raise Unsupported("index into empty tuple")
    return v.get(I, i)


def seq_map(I, q, f):
    """The sequence of f(x) for the items x of q."""
    if isinstance(q, tuple):
        return tuple(f(x) for x in q)
    if isinstance(q, SeqConcat):
        return SeqConcat([seq_map(I, p, f) for p in q.parts])
    return SymSeq(seq_len(q), lambda i: f(seq_get(I, q, i)))


def seq_cut(I, q, lo, hi):
    """q[lo:hi] for 0 <= lo <= hi <= len(q), keeping the parts where possible."""
    ctx = I.ctx
    lo, hi = tsimp(term(lo)), tsimp(term(hi))
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        return ()
    if isinstance(q, tuple) and isinstance(lo, int) and isinstance(hi, int):
        return q[lo:hi]
    if isinstance(q, SeqConcat):
        out, off = (), z3.IntVal(0)
        for p in q.parts:
            L = zint(seq_len(p))
            end = off + L
            if ctx.decide(zint(hi) <= off) or ctx.decide(zint(lo) >= end):
                off = z3.simplify(end)
                continue
            a = 0 if ctx.decide(zint(lo) <= off) else tsimp(zint(lo) - off)
            b = tsimp(L) if ctx.decide(zint(hi) >= end) else tsimp(zint(hi) - off)
            out = seq_concat(out, seq_cut(I, p, a, b))
            off = z3.simplify(end)
        return out
    if isinstance(q, tuple):
        for a in range(len(q) + 1):
            if isinstance(lo, int) and lo != a:
                continue
            if isinstance(lo, int) or ctx.decide(zint(lo) == a):
                for b in range(a, len(q) + 1):
                    if ctx.decide(zint(hi) == b):
                        return q[a:b]
        raise Prune()
    if isinstance(lo, int) and lo == 0 and (zint(hi).eq(zint(seq_len(q))) or ctx.prove(zint(hi) == zint(seq_len(q)))):
        return q
    if isinstance(q, SeqSlice):
        return SeqSlice(q.base, tsimp(zint(q.lo) + zint(lo)), tsimp(zint(q.lo) + zint(hi)))
    return SeqSlice(q, lo, hi)


def seq_concat(a, b, pytype=tuple):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    parts = []
    for x in (a, b):
        for y in x.parts if isinstance(x, SeqConcat) else [x]:
            if isinstance(y, tuple) and not y:
                continue
            if parts and isinstance(y, tuple) and isinstance(parts[-1], tuple):
                parts[-1] = parts[-1] + y
            else:
                parts.append(y)
    if len(parts) == 1:
        return parts[0]
    return SeqConcat(parts, pytype)


def seq_suffix(new, old):
    """The tuple of items appended to `old` to get `new`, or None."""
    if new is old:
        return ()
    if isinstance(old, tuple) and isinstance(new, tuple):
        if len(new) >= len(old) and all(same_val(x, y) for x, y in zip(new, old)):
            return new[len(old):]
        return None
    op = old.parts if isinstance(old, SeqConcat) else [old]
    np_ = new.parts if isinstance(new, SeqConcat) else [new]
    op = [p for p in op if not (isinstance(p, tuple) and not p)]
    if len(np_) < len(op):
        return None
    rest = ()
    for k, o in enumerate(op):
        p = np_[k]
        if p is o:
            continue
        if isinstance(o, tuple) and isinstance(p, tuple) and k == len(op) - 1 and len(p) >= len(o) and all(same_val(x, y) for x, y in zip(p, o)):
            rest = p[len(o):]
            continue
        return None
    for p in np_[len(op):]:
        if not isinstance(p, tuple):
            return None
        rest += p
    return rest


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SInt, SBool)):
        return a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bytes, bool, type(None))):
        return a == b
    if isinstance(a, (SList, SDict, SObj)):
        return a.oid == b.oid
    if type(a) is SeqConcat:
        return len(a.parts) == len(b.parts) and all(same_val(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, BoundMethod):
        return same_val(a.func, b.func) and same_val(a.self_, b.self_)
    if isinstance(a, types.MethodType):
        return a == b
    return False


# ---------------------------------------------------------------- source access
@functools.cache
def module_ast(path):
    src = open(path, "rb").read()
    tree = ast.parse(src)
    idx = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            line = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                line = min(line, n.decorator_list[0].lineno)
            name = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
            idx.setdefault((line, name), []).append(n)
    codes = {}

    def walk(c):
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                codes.setdefault((k.co_firstlineno, k.co_name), []).append(k)
                walk(k)

    walk(compile(src, path, "exec", dont_inherit=True))
    return idx, codes


FUNCS_SEEN = {}


def node_of(f):
    code = f.__code__
    idx, codes = module_ast(code.co_filename)
    cands = idx.get((code.co_firstlineno, code.co_name), [])
    if len(cands) != 1:
        if len(cands) > 1 and code.co_name == "<lambda>":
            cols = {p[2] for p in code.co_positions() if p[2] is not None}
            cands = [c for c in cands if any(c.col_offset <= x <= c.end_col_offset for x in cols)]
        if len(cands) != 1:
            raise Unsupported(f"source of {f!r} not found")
    # the text that is verified is the text that runs
    if not any(c.co_code == code.co_code and c.co_names == code.co_names for c in codes.get((code.co_firstlineno, code.co_name), [])):
        raise Unsupported(f"running code of {f!r} differs from its source")
    key = f"{f.__module__}.{f.__qualname__}"
    FUNCS_SEEN[key] = FUNCS_SEEN.get(key, 0) + 1
    return cands[0]


@functools.cache
def scope_info(node):
    """(assigned names, nonlocals, is generator)"""
    assigned, nonlocs, gen = set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        assigned.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            assigned.add(x.arg)

    def visit(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            assigned.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    assigned.add(c.target.id)
            visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            assigned.add(n.id)
        if isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
            assigned.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                assigned.add((al.asname or al.name).split(".")[0])
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonlocs.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    return assigned - nonlocs, nonlocs, gen


INTERPRET = ("eth_abi", "eth_utils")
MAX_UNROLL = 5200


def filtered(q):
    from . import loops

    return any(isinstance(p, loops.LoopSeg) and p.loop.counts[p.loc] is not None for p in (q.parts if isinstance(q, SeqConcat) else [q]))


def is_bytearray(v):
    return isinstance(v, bytearray) or isinstance(v, SBytes) and v.pytype is bytearray


def references(heap, v):
    """How many places of the heap (locals included) refer to this very object."""
    def count(x, d=0):
        if x is v:
            return 1
        if isinstance(x, (tuple, list)) and d < 4:
            return sum(count(y, d + 1) for y in x)
        if isinstance(x, (SeqV, Lazy, GenExp)):
            return 0
        return 0

    return sum(count(x) for r in heap.values() for x in r.values())


class Interp:
    def __init__(self, ctx, contracts=None):
        from . import models

        self.ctx = ctx
        self.models = models
        self.contracts = dict(models.CONTRACTS)  # id(fn) -> Model-like
        self.contracts.update(contracts or {})
        self.depth = 0
        self.extra_interpret = set()
        self.native_over = {}

    # ------------------------------------------------------------ helpers
    def raise_(self, cls, *args):
        raise PyExc(ExcVal(cls, args))

    def new_list(self, v=()):
        return SList(self.ctx.alloc({"v": v}))

    def new_dict(self, items=()):
        return SDict(self.ctx.alloc({"v": items if isinstance(items, SeqV) else tuple(items)}))

    def list_v(self, l):
        return self.ctx.heap[l.oid]["v"]

    def truth(self, v):
        """Python truth value as a python bool (branches)."""
        if isinstance(v, SBool):
            return self.ctx.decide(v.t)
        if isinstance(v, SInt):
            return self.ctx.decide(v.t != 0)
        if isinstance(v, SDec):
            return self.ctx.decide(v.t != 0)
        if isinstance(v, (SBytes, core.SStr)):
            return self.ctx.decide(zint(core.rlen(v.p)) != 0)
        if isinstance(v, (SList, SDict)):
            return self.ctx.decide(zint(seq_len(self.list_v(v))) != 0)
        if isinstance(v, SeqV):
            return self.ctx.decide(zint(v.n) != 0)
        if isinstance(v, SObj):
            if self.find_attr(v.cls, "__bool__") is None and self.find_attr(v.cls, "__len__") is None:
                return True
            if self.find_attr(v.cls, "__bool__") is not None:
                return self.truth(self.call(self.getattr(v, "__bool__"), ()))
            return self.truth(self.call(self.getattr(v, "__len__"), ()))
        if isinstance(v, (Closure, BoundMethod, Model, GenObj, GenExp, ExcVal)):
            return True
        if isinstance(v, Sym):
            h = getattr(v, "sym_truth", None)
            if h:
                return h(self)
            raise Unsupported(f"truth of {v!r}")
        return bool(v)

    def pytype(self, v):
        """The python type of a value."""
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SBytes):
            return v.pytype
        if isinstance(v, SDec):
            import decimal

            return decimal.Decimal
        if isinstance(v, SList):
            return list
        if isinstance(v, SDict):
            return dict
        if isinstance(v, SeqV):
            return v.pytype
        if isinstance(v, OpaqueText):
            return str
        if isinstance(v, (Closure,)):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, (GenExp, GenObj)):
            return types.GeneratorType
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, SOpaque):
            return None
        if isinstance(v, Lazy):
            return {"zip": zip, "map": map, "enumerate": enumerate, "reversed": reversed, "accumulate": __import__("itertools").accumulate}[v.kind]
        if isinstance(v, SRange):
            return range
        if isinstance(v, Sym):
            t = getattr(v, "pytype_", None)
            if t is not None:
                return t
            raise Unsupported(f"type of {v!r}")
        return type(v)

    def isinstance(self, v, T):
        if isinstance(T, SList):
            raise Unsupported("isinstance with a list")
        if isinstance(T, tuple):
            return any(self.isinstance(v, x) for x in T)
        if isinstance(T, types.UnionType):
            return any(self.isinstance(v, x) for x in T.__args__)
        if isinstance(v, Sym) and hasattr(v, "sym_isinstance"):
            return v.sym_isinstance(self, T)
        t = self.pytype(v)
        if t is None:
            return T is object
        if not isinstance(T, type):
            raise Unsupported(f"isinstance with {T!r}")
        if not isinstance(v, Sym) and not type(v).__module__.startswith("pyvc"):
            return isinstance(v, T)
        return issubclass(t, T)

    # ------------------------------------------------------------ attributes
    def find_attr(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                if k is object and name in ("__bool__", "__len__"):
                    continue
                return k.__dict__[name]
        return None

    def bind(self, raw, obj, cls):
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return BoundMethod(raw.__func__, cls)
        if isinstance(raw, property):
            return self.call(raw.fget, (obj,))
        if isinstance(raw, functools.cached_property):
            raise Unsupported("cached_property")
        if isinstance(raw, types.FunctionType):
            return BoundMethod(raw, obj) if obj is not None else raw
        if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return BoundMethod(raw, obj) if obj is not None else raw
        if isinstance(raw, types.MemberDescriptorType):
            rec = self.ctx.heap[obj.oid]
            n = raw.__name__
            if n in rec:
                return rec[n]
            self.raise_(AttributeError, n)
        if hasattr(type(raw), "__get__") and not isinstance(raw, (type, types.BuiltinFunctionType)):
            cu = self.models.curry_types
            if isinstance(raw, cu):
                return BoundMethod(raw, obj) if obj is not None else raw
            raise Unsupported(f"descriptor {raw!r}")
        return raw

    def getattr(self, obj, name):
        ctx = self.ctx
        if isinstance(obj, Poison):
            raise Unsupported("use of a loop temporary after the loop")
        if isinstance(obj, SObj):
            rec = ctx.heap[obj.oid]
            raw = self.find_attr(obj.cls, name)
            if isinstance(raw, property):
                return self.bind(raw, obj, obj.cls)
            if name in rec and not isinstance(raw, types.MemberDescriptorType):
                return rec[name]
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if raw is not None or any(name in k.__dict__ for k in obj.cls.__mro__):
                return self.bind(raw, obj, obj.cls)
            ga = self.find_attr(obj.cls, "__getattr__")
            if ga is not None:
                return self.call(BoundMethod(ga, obj), (name,))
            self.raise_(AttributeError, name)
        if isinstance(obj, SuperObj):
            base = obj.self_
            cls = base if isinstance(base, type) else self.pytype(base)
            raw = self.find_attr(cls, name, after=obj.cls)
            if raw is None:
                self.raise_(AttributeError, name)
            return self.bind(raw, None if isinstance(base, type) else base, cls) if not isinstance(raw, classmethod) else BoundMethod(raw.__func__, cls)
        if isinstance(obj, ExcVal):
            if name == "args":
                return tuple(obj.args)
            if name == "__class__":
                return obj.cls
            if name in getattr(obj, "attrs", {}):
                return obj.attrs[name]
            raise Unsupported(f"attribute {name} of an exception")
        if isinstance(obj, Sym):
            h = getattr(obj, "sym_getattr", None)
            if h is not None:
                return h(self, name)
            if isinstance(obj, (Closure, BoundMethod)):
                if name in ("__name__", "__qualname__"):
                    f = obj.func if isinstance(obj, BoundMethod) else obj
                    return getattr(f, "name", None) or getattr(f, "__name__", "f")
                if name == "__self__" and isinstance(obj, BoundMethod):
                    return obj.self_
                if name == "__func__" and isinstance(obj, BoundMethod):
                    return obj.func
                raise Unsupported(f"attribute {name} of a function")
            m = self.models.method_names(self, obj)
            if m is not None and name not in m:
                if isinstance(obj, SOpaque):
                    self.raise_(AttributeError, name)
                if hasattr(self.pytype(obj), name):
                    raise Unsupported(f"method {name} of {obj!r}")
                self.raise_(AttributeError, name)
            return BuiltinMethod(obj, name)
        # native object
        if isinstance(obj, type):
            raw = None
            for k in obj.__mro__:
                if name in k.__dict__:
                    raw = k.__dict__[name]
                    break
            if isinstance(raw, classmethod):
                return BoundMethod(raw.__func__, obj)
        try:
            v = getattr(obj, name)
        except AttributeError as e:
            self.raise_(AttributeError, *e.args)
        return v

    def setattr(self, obj, name, val):
        if isinstance(obj, SObj):
            raw = self.find_attr(obj.cls, name)
            if isinstance(raw, property):
                if raw.fset is None:
                    self.raise_(AttributeError, name)
                self.call(raw.fset, (obj, val))
                return
            if self.find_attr(obj.cls, "__setattr__") is not object.__setattr__ and self.find_attr(obj.cls, "__setattr__") is not None:
                raise Unsupported("__setattr__")
            self.ctx.put(obj.oid, name, val)
            return
        h = getattr(obj, "sym_setattr", None) if isinstance(obj, Sym) else None
        if h is not None:
            return h(self, name, val)
        if isinstance(obj, Closure):
            return
        raise Unsupported(f"attribute assignment on {obj!r}")

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            return self._call(f, tuple(args), kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        c = self.contracts.get(id(f))
        if c is not None:
            return c(self, args, kwargs)
        if isinstance(f, BoundMethod):
            return self._call(f.func, (f.self_,) + args, kwargs)
        if isinstance(f, Model):
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, args, kwargs, f.frame, f.frame.glob, {}, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, BuiltinMethod):
            return self.models.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, SObj):
            m = self.find_attr(f.cls, "__call__")
            if m is None:
                self.raise_(TypeError, "not callable")
            return self._call(m, (f,) + args, kwargs)
        if isinstance(f, Sym):
            h = getattr(f, "sym_call", None)
            if h is not None:
                return h(self, args, kwargs)
            if isinstance(f, (SInt, SBool, SBytes, SDec, SOpaque, SeqV, SList, OpaqueText)):
                self.raise_(TypeError, "not callable")
            raise Unsupported(f"call of {f!r}")
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, (f.__self__,) + args, kwargs)
        if isinstance(f, self.models.curry_types):
            func, a0, k0 = f.func, f.args, f.keywords
            kk = dict(k0 or {})
            kk.update(kwargs)
            if self.curry_short(func, tuple(a0) + args, kk):
                raise Unsupported("partial application")
            return self._call(func, tuple(a0) + args, kk)
        if isinstance(f, functools.partial):
            kk = dict(f.keywords)
            kk.update(kwargs)
            return self._call(f.func, tuple(f.args) + args, kk)
        if isinstance(f, types.FunctionType):
            mod = (f.__module__ or "").split(".")[0]
            if mod in INTERPRET or f.__module__ in self.extra_interpret:
                return self.call_fn(f, args, kwargs)
            return self.models.call_native(self, f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, functools._lru_cache_wrapper):
            return self._call(f.__wrapped__, args, kwargs)
        # native instance of a repository class
        tf = type(f)
        if (tf.__module__ or "").split(".")[0] in INTERPRET:
            m = self.find_attr(tf, "__call__")
            if isinstance(m, types.FunctionType):
                return self._call(m, (f,) + args, kwargs)
        return self.models.call_native(self, f, args, kwargs)

    def curry_short(self, func, args, kw):
        if isinstance(func, types.FunctionType):
            co = func.__code__
            need = co.co_argcount - len(func.__defaults__ or ())
            names = co.co_varnames[:co.co_argcount]
            have = set(names[: len(args)]) | set(kw)
            return any(n not in have for n in names[:need])
        return False

    def instantiate(self, cls, args, kwargs):
        m = self.models.TYPE_MODELS.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        mod = (cls.__module__ or "").split(".")[0]
        if mod in INTERPRET or cls.__module__ in self.extra_interpret:
            for k in cls.__mro__:
                if "__new__" in k.__dict__ and k.__module__.split(".")[0] in INTERPRET:
                    raise Unsupported("__new__")
            if issubclass(cls, (int, str, bytes, tuple, dict, list)):
                raise Unsupported("subclass of a builtin")
            o = SObj(cls, self.ctx.alloc({}))
            init = self.find_attr(cls, "__init__")
            if init is object.__init__:
                if args or kwargs:
                    self.raise_(TypeError, "takes no arguments")
            else:
                self._call(init, (o,) + args, kwargs)
            return o
        return self.models.call_native(self, cls, args, kwargs)

    def call_fn(self, f, args, kwargs):
        node = node_of(f)
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        kwd = f.__kwdefaults__ or {}
        return self.call_node(node, args, kwargs, None, f.__globals__, cells, f.__defaults__ or (), kwd, f.__name__)

    def call_node(self, node, args, kwargs, parent, glob, cells, defaults, kwdefaults, name):
        locs, nonlocs, gen = scope_info(node)
        rec = self.bind_args(node.args, args, kwargs, defaults, kwdefaults, name)
        fr = FrameObj(self.ctx.alloc(rec), parent, glob, cells, locs, name)
        fr.nonlocals = nonlocs
        fr.self0 = args[0] if args else None
        if gen:

            def run(cb, fr=fr):
                fr.yield_cb = cb
                try:
                    self.block(node.body, fr)
                except ReturnX:
                    pass

            g = GenObj(run, node, fr)
            g.once = self.ctx.alloc({"used": "no", "pos": 0})
            return g
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        try:
            self.block(node.body, fr)
        except ReturnX as r:
            return r.v
        return None

    def bind_args(self, a, args, kwargs, defaults, kwdefaults, name):
        rec = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = {x.arg for x in a.posonlyargs}
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_(TypeError, f"{name}() takes {len(pos)} arguments")
        for n, v in zip(pos, args):
            rec[n] = v
        if a.vararg is not None:
            rec[a.vararg.arg] = tuple(args[len(pos):])
        for n in pos:
            if n in kwargs and n not in posonly:
                if n in rec:
                    self.raise_(TypeError, "multiple values")
                rec[n] = kwargs.pop(n)
        nd = len(defaults)
        for k, n in enumerate(pos):
            if n not in rec:
                di = k - (len(pos) - nd)
                if di < 0:
                    self.raise_(TypeError, f"{name}() missing argument {n}")
                rec[n] = defaults[di]
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                rec[n] = kwargs.pop(n)
            elif n in kwdefaults:
                rec[n] = kwdefaults[n]
            else:
                self.raise_(TypeError, f"{name}() missing keyword {n}")
        if a.kwarg is not None:
            rec[a.kwarg.arg] = self.new_dict(tuple(kwargs.items()))
        elif kwargs:
            self.raise_(TypeError, f"{name}() got unexpected keyword")
        return rec

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            rec = self.ctx.heap[f.oid]
            if name in rec:
                v = rec[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"use of loop temporary {name}")
                return v
            if first and name in f.locals:
                self.raise_(UnboundLocalError, name)
            first = False
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        if name in fr.glob:
            return fr.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def store(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals or name in self.ctx.heap[f.oid]:
                    self.ctx.put(f.oid, name, v)
                    return
                f = f.parent
            raise Unsupported(f"assignment to outer name {name}")
        self.ctx.put(fr.oid, name, v)

    def assign(self, target, v, fr):
        if isinstance(target, ast.Name):
            self.store(target.id, v, fr)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, fr)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value, fr), target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = self.eval(target.value, fr)
            k = self.eval_index(target.slice, fr)
            if is_bytearray(o):
                self.set_bytearray(target.value, o, self.models.bytearray_store(self, o, k, v), fr)
            else:
                self.models.setitem(self, o, k, v)
        else:
            raise Unsupported(f"assignment target {type(target).__name__}")

    def set_bytearray(self, place, old, new, fr):
        """Byte arrays are kept as values: changing one in place is an assignment to the only
        name that refers to it."""
        if not isinstance(place, ast.Name) or references(self.ctx.heap, old) != 1:
            raise Unsupported("change of a shared byte array")
        self.store(place.id, new, fr)

    def unpack(self, elts, v, fr):
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.to_tuple(v)
        if not isinstance(items, tuple):
            if len(stars) == 1:
                n, s = seq_len(items), stars[0]
                rest = len(elts) - s - 1
                if self.ctx.decide(zint(n) < len(elts) - 1):
                    self.raise_(ValueError, "not enough values to unpack")
                for k, e in enumerate(elts):
                    if k < s:
                        self.assign(e, seq_get(self, items, k), fr)
                    elif k == s:
                        self.assign(e.value, self.new_list(seq_cut(self, items, s, tsimp(zint(n) - rest))), fr)
                    else:
                        self.assign(e, seq_get(self, items, tsimp(zint(n) - (len(elts) - k))), fr)
                return
            n = seq_len(items)
            if not self.ctx.decide(zint(n) == len(elts)):
                self.raise_(ValueError, "unpack")
            items = tuple(seq_get(self, items, k) for k in range(len(elts)))
        if stars:
            k = stars[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_(ValueError, "unpack")
            mid = items[k: len(items) - after]
            items = items[:k] + (self.new_list(mid),) + items[len(items) - after:]
            elts = [e.value if isinstance(e, ast.Starred) else e for e in elts]
        if len(items) != len(elts):
            self.raise_(ValueError, "unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    # ------------------------------------------------------------ iteration
    def as_seq(self, v):
        """tuple or SeqV for an indexable sequence, None otherwise."""
        if isinstance(v, (tuple, SeqV)):
            return v
        if isinstance(v, SList):
            return self.list_v(v)
        if isinstance(v, list):
            return tuple(v)
        if isinstance(v, SRange):
            lo, hi = v.lo, v.hi
            n = tsimp(zint(hi) - zint(lo))  # lo <= hi: see m_range
            return SymSeq(n, lambda i: mkint(zint(lo) + zint(i)))
        if isinstance(v, range):
            if len(v) > MAX_UNROLL:
                raise Unsupported("huge range")
            return tuple(v)
        if isinstance(v, SDict):
            q = self.list_v(v)
            if not isinstance(q, tuple):
                return seq_map(self, q, lambda e: e[0])
            return tuple(k for k, _ in q)
        if isinstance(v, (dict, set, frozenset)):
            return tuple(v)
        if isinstance(v, (bytes, bytearray, str)):
            return tuple(v)
        if isinstance(v, SBytes):
            n = self.ctx.unique(core.rlen(v.p))
            if n is None or n > 40:
                return None
            return tuple(self.models.getitem(self, v, k) for k in range(n))
        if isinstance(v, Lazy) and v.once is not None and self.ctx.rec(v.once)["used"] == "up":
            return ()
        if isinstance(v, Lazy) and v.kind == "iter":
            return self.remainder(v)
        if isinstance(v, Lazy) and v.kind == "zip":
            qs = [self.as_seq(x) for x in v.args]
            if any(q is None for q in qs):
                return None
            if all(isinstance(q, tuple) for q in qs):
                return tuple(zip(*qs))
            # length: the shortest
            n = None
            for q in qs:
                L = seq_len(q)
                if n is None:
                    n = L
                elif isinstance(n, int) and isinstance(L, int):
                    n = min(n, L)
                elif self.ctx.prove(zint(n) <= zint(L)):
                    pass
                elif self.ctx.prove(zint(L) <= zint(n)):
                    n = L
                elif self.ctx.decide(zint(n) <= zint(L)):
                    pass
                else:
                    n = L
            return SymSeq(n, lambda i: tuple(seq_get(self, q, i) for q in qs))
        if isinstance(v, Lazy) and v.kind == "enumerate":
            q = self.as_seq(v.args[0])
            start = v.args[1]
            if q is None:
                return None
            if isinstance(q, tuple):
                return tuple((mkint(zint(start) + k), x) for k, x in enumerate(q))
            return SymSeq(seq_len(q), lambda i: (mkint(zint(start) + zint(i)), seq_get(self, q, i)))
        if isinstance(v, Lazy) and v.kind == "reversed":
            q = self.as_seq(v.args[0])
            if q is None:
                return None
            if isinstance(q, tuple):
                return tuple(reversed(q))
            n = seq_len(q)
            return SymSeq(n, lambda i: seq_get(self, q, z3.simplify(zint(n) - 1 - zint(i))))
        return None

    def start(self, it):
        """An iterator begins to be used; False if there is nothing left in it."""
        r = self.ctx.rec(it.once)
        if r["used"] == "up":
            return False
        if r["used"] != "no":
            raise Unsupported("iterator used again after a part of it was consumed")
        self.ctx.put(it.once, "used", "part")
        for a in (it.args if isinstance(it, Lazy) else [it.first] if isinstance(it, GenExp) else []):
            if isinstance(it, Lazy) and it.kind in ("zip", "enumerate", "reversed") and isinstance(a, ITERS) and a.once is not None:
                # read by position: what is left in it afterwards is not known
                if self.ctx.rec(a.once)["used"] != "no":
                    raise Unsupported("iterator used again after a part of it was consumed")
        if isinstance(it, Lazy) and it.kind == "zip" and len({id(a) for a in it.args if isinstance(a, ITERS)}) != sum(isinstance(a, ITERS) for a in it.args):
            raise Unsupported("zip of an iterator with itself")
        return True

    def spend(self, it):
        """Iterators read by position may not be used again."""
        if isinstance(it, ITERS) and it.once is not None:
            r = self.ctx.rec(it.once)
            if r["used"] == "no":
                self.ctx.put(it.once, "used", "part")
        if isinstance(it, Lazy):
            for a in it.args:
                self.spend(a)

    def remainder(self, it):
        """what is left of iter(sequence)"""
        q = self.as_seq(it.args[0])
        if q is None:
            raise Unsupported("iterator over this")
        pos = self.ctx.rec(it.once)["pos"] if it.once is not None else 0
        if isinstance(pos, int) and pos == 0:
            return q
        if isinstance(q, tuple) and isinstance(pos, int):
            return q[pos:]
        return seq_cut(self, q, pos, seq_len(q))

    def host_iter(self, it):
        """A generator of the items, one by one, or None if there may be any number of them."""
        if isinstance(it, SObj):
            m = self.find_attr(it.cls, "__iter__")
            return None if m is None else self.host_iter(self.call(BoundMethod(m, it)))
        if isinstance(it, ITERS) and it.once is not None and not self.start(it):
            return iter(())
        if isinstance(it, GenExp):
            gens = it.node.generators
            src = self.host_iter(it.first) if len(gens) == 1 and not gens[0].is_async else None
            return None if src is None else self.host_genexp(it, gens[0], src)
        if isinstance(it, GenObj):
            body = [x for x in it.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if it.node is not None else []
            if len(body) != 1 or not isinstance(body[0], ast.For) or body[0].orelse or len(body[0].body) != 1:
                return None
            y = body[0].body[0]
            if not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Yield) and y.value.value is not None):
                return None
            return self.host_yield(it.frame, body[0], y.value.value)
        if isinstance(it, Lazy) and it.kind == "map" and len(it.args) == 2:
            src = self.host_iter(it.args[1])
            return None if src is None else (self.call(it.args[0], (x,)) for x in src)
        if isinstance(it, Lazy) and it.kind == "iter":
            q = self.remainder(it)
        else:
            q = self.as_seq(it)
        return iter(q) if isinstance(q, tuple) else None

    def host_genexp(self, g, gen, src):
        fr = FrameObj(self.ctx.alloc({}), g.frame, g.frame.glob, {}, set(), "<genexpr>")
        fr.self0 = g.frame.self0
        for x in src:
            self.assign(gen.target, x, fr)
            if all(self.truth(self.eval(c, fr)) for c in gen.ifs):
                yield self.eval(g.node.elt, fr)

    def host_yield(self, fr, loop, expr):
        src = self.host_iter(self.eval(loop.iter, fr))
        if src is None:
            raise Unsupported("zip over a generator")
        for x in src:
            self.assign(loop.target, x, fr)
            yield self.eval(expr, fr)

    def for_each(self, it, cb):
        """Call cb for each item, in order, interleaved as Python would."""
        from . import loops

        if isinstance(it, ITERS) and it.once is not None:
            if self.start(it):
                if isinstance(it, Lazy):
                    inner = Lazy(it.kind, it.args)
                elif isinstance(it, GenExp):
                    inner = GenExp(it.node, it.frame, it.first)
                else:
                    inner = GenObj(it.run, it.node, it.frame)
                if isinstance(inner, Lazy) and inner.kind == "iter":
                    inner = self.remainder(it)
                try:
                    self.for_each(inner, cb)
                finally:
                    if isinstance(it, Lazy):
                        for a in it.args:
                            self.spend(a)
                self.ctx.put(it.once, "used", "up")
            return
        if isinstance(it, GenObj):
            it.run(cb)
            return
        if isinstance(it, GenExp):
            self.run_genexp(it, cb)
            return
        if isinstance(it, Lazy) and it.kind == "map":
            f, src = it.args[0], it.args[1:]
            if len(src) == 1:
                self.for_each(src[0], lambda x: cb(self.call(f, (x,))))
            else:
                self.for_each(Lazy("zip", src), lambda x: cb(self.call(f, x)))
            return
        if isinstance(it, Lazy) and it.kind == "filter":
            f, src = it.args
            self.for_each(src, lambda x: cb(x) if self.truth(x if f is None else self.call(f, (x,))) else None)
            return
        if isinstance(it, Lazy) and it.kind == "chain":
            for x in it.args:
                self.for_each(x, cb)
            return
        if isinstance(it, Lazy) and it.kind == "accumulate":
            src, func, initial = it.args
            cell = self.ctx.alloc({"acc": initial if initial is not None else 0, "some": initial is not None})
            if func is not None:
                raise Unsupported("accumulate with a function")
            if initial is not None:
                cb(initial)

            def step(x):
                # the running total starts with the first item; ints only
                r = self.models.binop(self, ast.Add, self.ctx.heap[cell]["acc"], x)
                self.ctx.put(cell, "acc", r)
                cb(r)

            self.for_each(src, step)
            return
        if isinstance(it, Lazy) and it.kind == "zip" and len(it.args) > 1:
            # sequences filtered by the same loop run together
            qs = [self.as_seq(x) for x in it.args]
            if all(isinstance(q, loops.LoopSeg) and q.loop is qs[0].loop and q.loop.counts[q.loc] is not None
                   and q.loop.counts[q.loc] is qs[0].loop.counts[qs[0].loc] and loops.same_term(q.upto, qs[0].upto) for q in qs):
                def together(i):
                    for xs in zip(*[q.loop.items_at(self, q.loc, i) for q in qs]):
                        cb(xs)

                loops.sym_loop(self, qs[0].upto, together)
                return
        if isinstance(it, Lazy) and it.kind == "enumerate" and (self.as_seq(it) is None or filtered(self.as_seq(it.args[0]))):
            cell = self.ctx.alloc({"i": it.args[1]})

            def step2(x):
                i = self.ctx.heap[cell]["i"]
                self.ctx.put(cell, "i", self.models.binop(self, ast.Add, i, 1))
                cb((i, x))

            self.for_each(it.args[0], step2)
            return
        if isinstance(it, Lazy) and it.kind == "zip" and self.as_seq(it) is None:
            # generators of which the items can be taken one by one
            hs = [self.host_iter(x) for x in it.args]
            if any(h is None for h in hs):
                raise Unsupported("zip over a generator")
            for x in zip(*hs):
                cb(x)
            return
        if isinstance(it, SObj):
            m = self.find_attr(it.cls, "__iter__")
            if m is None:
                self.raise_(TypeError, "not iterable")
            self.for_each(self.call(BoundMethod(m, it)), cb)
            return
        q = self.as_seq(it)
        if q is None:
            h = getattr(it, "sym_iter", None)
            if h is not None:
                return h(self, cb)
            if isinstance(it, (SInt, SBool, SDec, SOpaque)) or not isinstance(it, Sym) and not hasattr(it, "__iter__"):
                self.raise_(TypeError, "not iterable")
            if not isinstance(it, Sym):
                q = tuple(it)
            else:
                raise Unsupported(f"iteration over {it!r}")
        parts = q.parts if isinstance(q, SeqConcat) else [q]
        for p in parts:
            if isinstance(p, tuple):
                for x in p:
                    cb(x)
            elif isinstance(p, loops.LoopSeg):
                p.for_each(self, cb)
            else:
                loops.sym_loop(self, p.n, lambda i, p=p: cb(seq_get(self, p, i)))

    def to_tuple(self, v):
        """tuple(v) as a sequence value."""
        if isinstance(v, ITERS) and v.once is not None and self.ctx.rec(v.once)["used"] == "up":
            return ()
        q = self.remainder(v) if isinstance(v, Lazy) and v.kind == "iter" else self.as_seq(v)
        if q is not None:
            if isinstance(v, ITERS) and v.once is not None:
                if self.ctx.rec(v.once)["used"] != "no":
                    raise Unsupported("iterator used again after a part of it was consumed")
                self.spend(v)
                self.ctx.put(v.once, "used", "up")
            return q
        acc = self.new_list(())

        def cb(x):
            self.ctx.put(acc.oid, "v", seq_concat(self.list_v(acc), (x,)))

        self.for_each(v, cb)
        return self.list_v(acc)

    def run_genexp(self, g, cb):
        node = g.node
        fr = FrameObj(self.ctx.alloc({}), g.frame, g.frame.glob, {}, set(), "<genexpr>")
        fr.self0 = g.frame.self0
        fr.yield_cb = g.frame.yield_cb
        self.comp(node.generators, 0, g.first, fr, lambda: cb(self.eval(node.elt, fr)))

    def comp(self, gens, k, first, fr, leaf):
        g = gens[k]
        if g.is_async:
            raise Unsupported("async")
        src = first if k == 0 else self.eval(g.iter, fr)

        def step(x):
            self.assign(g.target, x, fr)
            for c in g.ifs:
                if not self.truth(self.eval(c, fr)):
                    return
            if k + 1 < len(gens):
                self.comp(gens, k + 1, None, fr, leaf)
            else:
                leaf()

        self.for_each(src, step)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Nonlocal(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib

        for al in s.names:
            if al.asname:
                self.store(al.asname, importlib.import_module(al.name), fr)
            else:
                self.store(al.name.split(".")[0], importlib.import_module(al.name.split(".")[0]), fr)

    def s_ImportFrom(self, s, fr):
        import importlib

        if s.level:
            pkg = fr.glob.get("__package__")
            mod = importlib.import_module("." * s.level + (s.module or ""), pkg)
        else:
            mod = importlib.import_module(s.module)
        for al in s.names:
            if al.name == "*":
                raise Unsupported("import *")
            v = getattr(mod, al.name, None)
            if v is None:
                v = importlib.import_module(mod.__name__ + "." + al.name)
            self.store(al.asname or al.name, v, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.models.iop(self, type(s.op), cur, self.eval(s.value, fr))
            if is_bytearray(cur):
                self.set_bytearray(t, cur, new, fr)
            else:
                self.store(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.models.iop(self, type(s.op), cur, self.eval(s.value, fr)))
        else:
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.models.getitem(self, o, k)
            self.models.setitem(self, o, k, self.models.iop(self, type(s.op), cur, self.eval(s.value, fr)))

    def s_Return(self, s, fr):
        raise ReturnX(None if s.value is None else self.eval(s.value, fr))

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def s_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            if self.matches(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))):
                self.block(c.body, fr)
                return

    def matches(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.models.equal(self, v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.models.compare(self, ast.Is, v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, fr):
                return False
            if p.name is not None:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.models.m_isinstance(self, (v, self.eval(p.cls, fr)), {}))
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            return len(v) == len(p.patterns) and all(self.matches(q, x, fr) for q, x in zip(p.patterns, v))
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.raise_(AssertionError)

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def step(x):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass

        try:
            self.for_each(it, step)
        except BreakX:
            return
        self.block(s.orelse, fr)

    def s_While(self, s, fr):
        k = 0
        while True:
            c = self.eval(s.test, fr)
            if isinstance(c, SInt) and self.ctx.bounded is None and k == 0:
                return self.counting_while(s, fr)
            if isinstance(c, SBool) and self.ctx.bounded is None:
                f = z3.simplify(c.t)
                if k == 0 and not z3.is_true(f) and not z3.is_false(f) and self.counts(s.test, fr):
                    return self.counting_while(s, fr)
                if not (self.ctx.prove(f) or self.ctx.prove(z3.Not(f))):
                    raise Unsupported("while loop with a symbolic condition")
            if not self.truth(c):
                break
            k += 1
            if k > (MAX_UNROLL if self.ctx.bounded is None else 40):
                raise Unsupported("while loop does not end")
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return
        self.block(s.orelse, fr)

    def counts(self, t, fr):
        if isinstance(t, ast.Compare):
            if len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
                return False
            t = [t.left, t.comparators[0]]
        else:
            t = [t]
        saved = self.ctx.heap
        self.ctx.heap = dict(saved)
        vs = [self.eval(x, fr) for x in t]
        self.ctx.heap = saved
        return all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in vs)

    def counting_while(self, s, fr):
        """A while loop whose number of iterations can be guessed from its condition; the guess
        is verified: the condition holds at every iteration below it and fails after them."""
        from . import loops

        ctx = self.ctx
        saved = ctx.heap
        ctx.heap = dict(saved)
        t = s.test
        ops = {ast.Lt: (1, 0), ast.LtE: (1, 1), ast.Gt: (-1, 0), ast.GtE: (-1, 1), ast.NotEq: (0, 0)}
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in ops:
            a, b = self.eval(t.left, fr), self.eval(t.comparators[0], fr)
            sg, extra = ops[type(t.ops[0])]
        else:
            a, b, sg, extra = self.eval(t, fr), 0, 0, 0
        ctx.heap = saved
        d = zint(term(b)) - zint(term(a))
        if sg == 0:
            sg = 1 if ctx.prove(d >= 0) else -1
        trip = tsimp(z3.simplify(sg * d + extra))

        def step(_):
            c = self.eval(s.test, fr)
            c = c if isinstance(c, SBool) else mkbool(zint(term(c)) != 0) if isinstance(c, SInt) else c
            if isinstance(c, SBool):
                if ctx.speculative:
                    ctx.assume(c.t)
                elif not ctx.prove(c.t):
                    raise Unsupported("while loop: number of iterations")
            elif not c:
                raise Prune() if ctx.speculative else Unsupported("while loop: number of iterations")
            self.block(s.body, fr)

        try:
            loops.sym_loop(self, trip, step)
        except BreakX:
            return
        c = self.eval(s.test, fr)
        if isinstance(c, SInt):
            c = mkbool(c.t != 0)
        if not (c is False or c == 0 or isinstance(c, SBool) and ctx.prove(z3.Not(c.t))):
            raise Unsupported("while loop: number of iterations")
        self.block(s.orelse, fr)

    def s_FunctionDef(self, s, fr):
        d, kd = self.defaults(s.args, fr)
        v = Closure(s, fr, d, kd, s.name)
        for dec in reversed(s.decorator_list):
            v = self.call(self.eval(dec, fr), (v,))
        self.store(s.name, v, fr)

    def defaults(self, a, fr):
        d = tuple(self.eval(x, fr) for x in a.defaults)
        kd = {x.arg: self.eval(v, fr) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        return d, kd

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "cur_exc", [])
            if not cur:
                self.raise_(RuntimeError, "No active exception")
            raise PyExc(cur[-1])
        v = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v, ())
        if isinstance(v, BaseException):
            v = ExcVal(type(v), v.args)
        if not isinstance(v, ExcVal):
            if isinstance(v, Sym) and hasattr(v, "sym_raise"):
                v.sym_raise(self)
            self.raise_(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v)

    def exc_match(self, val, T):
        if isinstance(T, tuple):
            return any(self.exc_match(val, x) for x in T)
        if not isinstance(T, type):
            raise Unsupported("exception class")
        return issubclass(val.cls, T)

    def s_Try(self, s, fr):
        pend = None
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.val, self.eval(h.type, fr)):
                        if h.name:
                            self.store(h.name, e.val, fr)
                        if not hasattr(self, "cur_exc"):
                            self.cur_exc = []
                        self.cur_exc.append(e.val)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                            if h.name and h.name in self.ctx.heap.get(fr.oid, {}):
                                self.ctx.delete(fr.oid, h.name)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnX, BreakX, ContinueX) as e:
            pend = e
        if s.finalbody:
            self.block(s.finalbody, fr)
        if pend is not None:
            raise pend

    def s_With(self, s, fr):
        self.with_items(s.items, 0, s.body, fr)

    def with_items(self, items, k, body, fr):
        if k == len(items):
            self.block(body, fr)
            return
        it = items[k]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, self.models.GenCM):
            return self.with_generator(cm, it, items, k, body, fr)
        enter, exit_ = self.models.context_manager(self, cm)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        pend = None
        try:
            self.with_items(items, k + 1, body, fr)
        except PyExc as e:
            if exit_(e.val):
                return
            raise
        except (ReturnX, BreakX, ContinueX) as e:
            pend = e
        exit_(None)
        if pend is not None:
            raise pend

    def with_generator(self, cm, it, items, k, body, fr):
        """contextlib.contextmanager: the body runs where the generator yields."""
        seen = []

        def cb(v):
            if seen:
                self.raise_(RuntimeError, "generator didn't stop")
            seen.append(None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.with_items(items, k + 1, body, fr)
            except (ReturnX, BreakX, ContinueX) as e:
                seen[0] = e

        g = cm.gen(self)
        if not isinstance(g, GenObj):
            raise Unsupported("context manager")
        g.run(cb)
        if not seen:
            self.raise_(RuntimeError, "generator didn't yield")
        if seen[0] is not None:
            raise seen[0]

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.delete(fr.oid, t.id)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if not isinstance(o, SObj):
                    raise Unsupported("del attribute")
                if t.attr not in self.ctx.heap[o.oid]:
                    self.raise_(AttributeError, t.attr)
                self.ctx.delete(o.oid, t.attr)
            else:
                raise Unsupported("del")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def eval_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])
        return self.eval(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.name.startswith("<") and f.parent is not None:
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return self.display(e.elts, fr)

    def display(self, elts, fr):
        out = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                out = seq_concat(out, self.to_tuple(self.eval(x.value, fr)))
            else:
                out = seq_concat(out, (self.eval(x, fr),))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.display(e.elts, fr))

    def e_Set(self, e, fr):
        vs = [self.eval(x, fr) for x in e.elts]
        if any(isinstance(v, Sym) for v in vs):
            raise Unsupported("set of symbolic values")
        return frozenset(vs)

    def e_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.models.setitem(self, d, self.eval(k, fr), self.eval(v, fr))
                continue
            x = self.eval(v, fr)
            if isinstance(x, SDict) and self.list_v(d) == ():
                self.ctx.put(d.oid, "v", self.list_v(x))
                continue
            for kk, vv in self.models.dict_items(self, x):
                self.models.setitem(self, d, kk, vv)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        opaque = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, fr)
            if v.conversion in (114, 97):
                x = self.call(repr, (x,))
            elif v.conversion == 115:
                x = self.call(str, (x,))
            spec = ""
            if v.format_spec is not None:
                spec = self.eval(v.format_spec, fr)
            if isinstance(x, (str, bool)) or x is None or isinstance(x, (int, float)):
                if isinstance(spec, str):
                    try:
                        parts.append(format(x, spec))
                        continue
                    except ValueError as ex:
                        self.raise_(ValueError, *ex.args)
            if isinstance(x, SInt):
                x = self.models.int_to_text(self, x)
            if isinstance(x, Sym) and spec == "" and core.text_pieces(x) is not None:
                parts.append(x)
                continue
            if isinstance(x, SObj):
                h = self.find_attr(x.cls, "__str__")
                if isinstance(h, types.FunctionType):
                    r = self.call(h, (x,))
                    if isinstance(r, str):
                        parts.append(r)
                        continue
            opaque = True
        if opaque:
            return OpaqueText()
        if all(isinstance(x, str) for x in parts):
            return "".join(parts)
        return core.mkstr(self.ctx, [q for x in parts for q in core.text_pieces(x)])

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr([e]), fr)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.models.binop(self, type(e.op), a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        return self.models.unop(self, type(e.op), v)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return v if not isinstance(v, SBool) else t
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.models.compare(self, type(op), left, right)
            if k == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return False if isinstance(r, SBool) else r
            left = right
        return res

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        d, kd = self.defaults(e.args, fr)
        return Closure(e, fr, d, kd, "<lambda>")

    def e_Subscript(self, e, fr):
        return self.models.getitem(self, self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        f = fr
        while f is not None and f.yield_cb is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield outside of a consumed generator")
        f.yield_cb(v)
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        self.for_each(self.eval(e.value, fr), f.yield_cb)
        return None

    def e_GeneratorExp(self, e, fr):
        g = GenExp(e, fr, self.eval(e.generators[0].iter, fr))
        g.once = self.ctx.alloc({"used": "no", "pos": 0})
        return g

    def e_ListComp(self, e, fr):
        acc = self.new_list(())
        g = GenExp(e, fr, self.eval(e.generators[0].iter, fr))

        def cb(x):
            self.ctx.put(acc.oid, "v", seq_concat(self.list_v(acc), (x,)))

        self.run_genexp(g, cb)
        return acc

    def e_SetComp(self, e, fr):
        l = self.e_ListComp(e, fr)
        v = self.list_v(l)
        if isinstance(v, tuple) and not any(isinstance(x, Sym) for x in v):
            return frozenset(v)
        raise Unsupported("set of symbolic values")

    def filter_map(self, e, fr, src):
        """{k: v for k, v in d.items() if c} for a dict of arbitrary content."""
        q = self.list_v(src) if isinstance(src, SDict) else src
        parts = q.parts if isinstance(q, SeqConcat) else [q]
        if len(e.generators) != 1 or not any(isinstance(p, MapSeg) or isinstance(p, SeqSlice) and isinstance(p.base, MapSeg) for p in parts):
            return None
        ctx, g = self.ctx, e.generators[0]
        f2 = FrameObj(ctx.alloc({}), fr, fr.glob, {}, set(), "<dictcomp>")
        f2.self0 = fr.self0

        def at(entry):
            """(kept, key, value) of an entry"""
            self.assign(g.target, entry[0] if isinstance(src, SDict) else entry, f2)
            keep = []
            for c in g.ifs:
                b = self.eval(c, f2)
                if not isinstance(b, (bool, SBool)):
                    raise Unsupported("filter of a dict comprehension")
                keep.append(b.t if isinstance(b, SBool) else z3.BoolVal(b))
            return z3.And(*keep) if keep else z3.BoolVal(True), self.eval(e.key, f2), self.eval(e.value, f2)

        out = ()
        for p in parts:
            if isinstance(p, tuple):
                for x in p:
                    c, k, v = at(x)
                    if not same_val(k, x[0]):
                        raise Unsupported("dict comprehension with other keys")
                    if ctx.decide(c):
                        out = seq_concat(out, ((k, v),))
                continue
            base, lo, hi = (p.base, p.lo, p.hi) if isinstance(p, SeqSlice) else (p, 0, p.n)
            if not isinstance(base, MapSeg):
                raise Unsupported("dict comprehension over a symbolic sequence")
            t0 = ctx.fresh("key", base.K.range())
            before = ctx.fr.pos
            kk, vv = base.mkkey(t0), base.mkval(t0)
            c, k, v = at((kk, vv))
            if ctx.fr.pos != before or not same_val(k, kk) or not same_val(v, vv):
                raise Unsupported("dict comprehension over a dict of arbitrary content")
            c = z3.simplify(c)
            out = seq_concat(out, p if z3.is_true(c) else MapFilter(ctx, base, lo, hi, lambda t, c=c, t0=t0: z3.substitute(c, (t0, t))))
        return self.new_dict(out)

    def e_DictComp(self, e, fr):
        src = self.eval(e.generators[0].iter, fr)
        d = self.filter_map(e, fr, src)
        if d is not None:
            return d
        d = self.new_dict()
        f2 = FrameObj(self.ctx.alloc({}), fr, fr.glob, {}, set(), "<dictcomp>")
        f2.self0 = fr.self0
        self.comp(e.generators, 0, src, f2,
                  lambda: self.models.setitem(self, d, self.eval(e.key, f2), self.eval(e.value, f2)))
        return d

    def e_Call(self, e, fr):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args and not self.is_shadowed("super", fr):
            f = fr
            while f is not None:
                if "__class__" in f.cells:
                    return SuperObj(f.cells["__class__"], self.method_self(fr, f))
                f = f.parent
            raise Unsupported("super() without a class")
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.attr in ("extend", "append") and len(e.args) == 1 and not e.keywords:
            cur = self.eval(fn.value, fr)
            if is_bytearray(cur):
                self.set_bytearray(fn.value, cur, self.models.bytearray_grow(self, cur, fn.attr, self.eval(e.args[0], fr)), fr)
                return None
        f = self.eval(fn, fr)
        args = ()
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.to_tuple(self.eval(a.value, fr))
                if not isinstance(s, tuple) and f is zip and len(e.args) == 1 and not e.keywords:
                    return self.models.zip_star(self, s)
                if not isinstance(s, tuple) and len(e.args) == 1 and not e.keywords and getattr(self.contracts.get(id(f)), "takes_seq", False):
                    return self.contracts[id(f)](self, s, {})
                if not isinstance(s, tuple):
                    raise Unsupported("star argument of symbolic length")
                args += s
            else:
                args += (self.eval(a, fr),)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.models.dict_items(self, self.eval(k.value, fr)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def is_shadowed(self, name, fr):
        return name in self.ctx.heap[fr.oid] or name in fr.glob

    def method_self(self, fr, owner):
        f = fr
        while f is not None:
            if f is owner or f.self0 is not None and not f.name.startswith("<"):
                return f.self0
            f = f.parent
        return fr.self0
