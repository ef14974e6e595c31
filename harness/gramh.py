"""Contract of grammar.parse: it accepts exactly the written forms of the symbolic types of
typeh.TD, and gives each of them back as an object with exactly these parts.

parsimonious is a dependency and enters by contract: Grammar.parse matches the whole text with
the PEG made of the expression objects found in the grammar (ordered choice, greedy
quantifiers), NodeVisitor.visit calls the visitor's methods bottom-up.  The expression objects
are those of /repo's grammar, the visitor methods are interpreted from source.

language: the grammar is read as a set of equations with the recursive rule as unknown; its
right-hand side denotes the same language (over characters and the unknown) as that of the
specification, hence both have the same least solution.  A PEG accepts no more than that.
tree: the written form of an arbitrary type is matched by the PEG, followed by the end of the
text, a comma or a parenthesis, components by induction.
"""
import re._parser as P

from .base import *  # noqa: F401,F403
from .base import M, attempt, register
from .typeh import AbsBase, AbsComp, TD, same_arr, same_sub
from .comp import fresh_len

import eth_abi.exceptions as X
import eth_abi.grammar as GR
import parsimonious
import parsimonious.grammar
import parsimonious.nodes
from parsimonious import expressions as PX

LETTERS = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
DIGITS = frozenset(map(ord, "0123456789"))
NONZERO = DIGITS - {48}
TOP = 0x3000  # code points looked at one by one; all others are alike for the classes allowed


# ------------------------------------------------------------------ regular expressions
def charset(av):
    out = set()
    for op, v in av:
        if op is P.LITERAL:
            out.add(v)
        elif op is P.RANGE:
            out.update(range(v[0], v[1] + 1))
        else:
            raise Unsupported("character class")
    if out and max(out) >= TOP:
        raise Unsupported("character class")
    return frozenset(out)


def regex_items(pat):
    """A regex as a list of (charset, min, max)."""
    import re
    if not isinstance(pat.pattern, str):
        raise Unsupported("regex")
    import regex
    if pat.flags & ~(regex.U | regex.V0 | regex.V1 | regex.A):
        raise Unsupported("regex flags")
    out = []
    for op, av in P.parse(pat.pattern, re.UNICODE):
        lo, hi = 1, 1
        if op is P.MAX_REPEAT:
            lo, hi, body = av
            body = list(body)
            if len(body) != 1:
                raise Unsupported("regex")
            op, av = body[0]
        if op is P.LITERAL:
            cs = frozenset([av])
        elif op is P.IN:
            cs = charset(av)
        else:
            raise Unsupported("regex")
        out.append((cs, lo, None if hi is P.MAXREPEAT else hi))
    return out


# regular expressions over code points and "T": ("sym", frozenset) ("cat", a, b) ("alt", a, b) ("star", a) ("eps",) ("nil",)
EPS, NIL = ("eps",), ("nil",)


def cat(*xs):
    r = EPS
    for x in reversed(xs):
        if x == NIL or r == NIL:
            return NIL
        r = x if r == EPS else r if x == EPS else ("cat", x, r)
    return r


def alt(*xs):
    s = set()
    for x in xs:
        s |= x[1] if x[0] == "alt" else {x}
    s.discard(NIL)
    if not s:
        return NIL
    return next(iter(s)) if len(s) == 1 else ("alt", frozenset(s))


def star(x):
    return EPS if x in (EPS, NIL) else x if x[0] == "star" else ("star", x)


def sym(s):
    return ("sym", frozenset(s))


def rep(x, lo, hi):
    if hi is None:
        return cat(*[x] * lo, star(x))
    if hi > 8:
        raise Unsupported("repetition")
    return cat(*[x] * lo, *[alt(x, EPS)] * (hi - lo)) if hi > lo else cat(*[x] * lo)


def nullable(r):
    k = r[0]
    return k in ("eps", "star") or (k == "cat" and nullable(r[1]) and nullable(r[2])) or (k == "alt" and any(map(nullable, r[1])))


def deriv(r, c):
    k = r[0]
    if k == "sym":
        return EPS if c in r[1] else NIL
    if k == "cat":
        d = cat(deriv(r[1], c), r[2])
        return alt(d, deriv(r[2], c)) if nullable(r[1]) else d
    if k == "alt":
        return alt(*[deriv(x, c) for x in r[1]])
    if k == "star":
        return cat(deriv(r[1], c), r)
    return NIL


def symbols(r, out):
    if r[0] == "sym":
        out.add(r[1])
    elif r[0] in ("cat", "star"):
        for x in r[1:]:
            symbols(x, out)
    elif r[0] == "alt":
        for x in r[1]:
            symbols(x, out)
    return out


def difference(a, b, limit=400):
    """Words in exactly one of the two languages, shortest first (none: the languages are equal)."""
    out, steps = [], 0
    sets = symbols(a, set()) | symbols(b, set())
    cls = {}
    for c in sorted({c for s in sets for c in s}, key=str):
        cls.setdefault(tuple(c in s for s in sorted(sets, key=lambda s: sorted(map(str, s)))), c)
    alphabet = list(cls.values())
    seen, todo = {(a, b)}, [((a, b), ())]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if nullable(x) != nullable(y):
                out.append(w)
                if len(out) >= limit:
                    return out
            for c in alphabet:
                d = (deriv(x, c), deriv(y, c))
                if d not in seen or (out and d != (NIL, NIL) and len(w) < 6):
                    seen.add(d)
                    nxt.append((d, w + (c,)))
            if len(seen) > 20000:
                raise Unsupported("too many states")
            if out and len(nxt) > 20000:
                return out
        todo = nxt
    return out


def grammar_regex(e, root, stack=()):
    if e is root and stack:
        return sym({"T"})
    if id(e) in stack:
        raise Unsupported("recursion outside the default rule")
    st = stack + (id(e),)
    k = type(e)
    if k is PX.Literal:
        return cat(*[sym({ord(c)}) for c in e.literal])
    if k is PX.Regex:
        return cat(*[rep(sym(cs), lo, hi) for cs, lo, hi in regex_items(e.re)])
    if k is PX.Sequence:
        return cat(*[grammar_regex(m, root, st) for m in e.members])
    if k is PX.OneOf:
        return alt(*[grammar_regex(m, root, st) for m in e.members])
    if k is PX.Quantifier:
        return rep(grammar_regex(e.members[0], root, st), e.min, None if e.max == float("inf") else int(e.max))
    raise Unsupported(f"grammar expression {k.__name__}")


def spec_regex():
    D = cat(sym(NONZERO), star(sym(DIGITS)))
    L = lambda c: sym({ord(c)})
    T = sym({"T"})
    al = cat(sym(LETTERS), star(sym(LETTERS)))
    basic = cat(al, alt(EPS, D, cat(D, L("x"), D)))
    tup = cat(L("("), T, star(cat(L(","), T)), L(")"))
    return cat(alt(basic, tup), star(cat(L("["), alt(EPS, D), L("]"))))


# ------------------------------------------------------------------ PEG on written types
class Tok:
    def __init__(self, kind, val=None, seg=None):
        self.kind, self.val, self.seg = kind, val, seg


def lits(s):
    return [Tok("lit", c) for c in s]


class Seg:
    """n elements of the same form: el(I, i) gives the tokens of element i (it may branch)."""

    def __init__(self, lo, n, el):
        self.lo, self.n, self.el = lo, n, el


def written(td, follow):
    out = []
    if td.kind == "basic":
        out.append(Tok("alpha", td.base))
        if td.subkind != "none":
            out.append(Tok("dig", td.xs[0]))
        if td.subkind == "pair":
            out += [Tok("lit", "x"), Tok("dig", td.xs[1])]
    else:
        out += [Tok("lit", "("), Tok("comp", z3.IntVal(0))]
        out.append(Tok("seg", seg=Seg(1, td.nc, lambda I, i: [Tok("lit", ","), Tok("comp", zint(i))])))
        out.append(Tok("lit", ")"))
    if td.hasarr:
        def el(I, i):
            if I.ctx.decide(td.isconst(i)):
                return [Tok("lit", "["), Tok("dig", td.size(I.ctx, i)), Tok("lit", "]")]
            return [Tok("lit", "["), Tok("lit", "]")]

        out.append(Tok("seg", seg=Seg(0, td.nd, el)))
    if follow:
        out += [Tok("lit", follow), Tok("rest")]
    return out


class SNode(Sym):
    """A parsimonious node."""

    def __init__(self, expr, toks, children):
        self.expr, self.toks, self.children = expr, toks, children

    def sym_getattr(self, I, name):
        if name == "expr":
            return self.expr
        if name == "expr_name":
            return self.expr.name
        if name == "text":
            return self.text(I)
        if name in ("full_text",):
            return OpaqueText()
        if name in ("start", "end"):
            x = I.ctx.fresh_int("node")
            I.ctx.assume(z3.And(x >= 0, x < 2**61))
            return SInt(x)
        if name == "children":
            return I.new_list(self.children)
        raise Unsupported(f"node.{name}")

    def text(self, I):
        if self.toks is None:
            return OpaqueText()
        if all(t.kind == "lit" for t in self.toks):
            return "".join(t.val for t in self.toks)
        if len(self.toks) == 1 and self.toks[0].kind == "alpha":
            return self.toks[0].val
        if len(self.toks) == 1 and self.toks[0].kind == "dig":
            return DigText(self.toks[0].val)
        return OpaqueText()

    def sym_is(self, I, o):
        return o is self

    def sym_truth(self, I):
        return True


class DigText(Sym):
    """The decimal digits of n."""
    pytype_ = str

    def __init__(self, n):
        self.n = n

    def sym_int(self, I):
        return mkint(self.n)

    def sym_truth(self, I):
        return True

    def sym_isinstance(self, I, T):
        return T in (str, object)


class Text(Sym):
    """The text being parsed."""
    pytype_ = str

    def __init__(self, toks=None):
        self.toks = toks

    def sym_isinstance(self, I, T):
        return T in (str, object)

    def sym_contains(self, I, x):
        return mkbool(I.ctx.fresh_bool("contains"))

    def sym_truth(self, I):
        return True


class Peg:
    """Matching with the real expression objects.  A position is (tokens, index)."""

    def __init__(self, I, root):
        self.I, self.root = I, root

    def match(self, e, toks, k, top=False):
        """(node, new index) or None.  Elements of a segment are matched by Quantifier only."""
        if e is self.root and not top and k < len(toks) and toks[k].kind == "comp":
            # induction: the rule matches the component exactly, before a comma or parenthesis
            nxt = toks[k + 1] if k + 1 < len(toks) else None
            if nxt is not None and nxt.kind == "seg":
                nxt = None  # elements start with a comma, what follows with a parenthesis: checked there
            elif nxt is not None and not (nxt.kind == "lit" and nxt.val in ",)"):
                raise Unsupported("component before something else")
            return SNode(e, None, AbsComp(toks[k].val)), k + 1
        K = type(e)
        if K is PX.Literal:
            j = k
            for c in e.literal:
                t = self.first(toks, j)
                if t is None:
                    return None
                if t.kind == "lit":
                    if t.val != c:
                        return None
                    j += 1
                    continue
                chars = self.firstset(t)
                if ord(c) in chars:
                    raise Unsupported("literal inside a token")
                return None
            return SNode(e, toks[k:j], ()), j
        if K is PX.Regex:
            return self.regex(e, toks, k)
        if K is PX.Sequence:
            ch, j = [], k
            for m in e.members:
                r = self.match(m, toks, j)
                if r is None:
                    return None
                ch.append(r[0])
                j = r[1]
            return SNode(e, toks[k:j], tuple(ch)), j
        if K is PX.OneOf:
            for m in e.members:
                r = self.match(m, toks, k)
                if r is not None:
                    return SNode(e, toks[k:r[1]], (r[0],)), r[1]
            return None
        if K is PX.Quantifier:
            return self.quant(e, toks, k)
        raise Unsupported(f"grammar expression {K.__name__}")

    def first(self, toks, k):
        """The token at k, looking into segments (for tests that fail)."""
        if k >= len(toks):
            return None
        t = toks[k]
        if t.kind == "seg":
            if t.seg.lo == 0:  # dimensions: at least one
                return Tok("set", frozenset([ord("[")]))
            nx = self.first(toks, k + 1)
            return Tok("set", frozenset([ord(",")]) | (frozenset() if nx is None else self.firstset(nx)))
        return t

    def firstset(self, t):
        """Code points the token may start with."""
        if t.kind == "lit":
            return frozenset([ord(t.val)])
        if t.kind == "alpha":
            return LETTERS
        if t.kind == "dig":
            return NONZERO
        if t.kind == "comp":
            return LETTERS | {40}
        if t.kind == "set":
            return t.val
        raise Unsupported("reads behind what follows")

    def regex(self, e, toks, k):
        t = self.first(toks, k)
        items = regex_items(e.re)
        if t is None:
            if all(lo == 0 for _, lo, _ in items):
                raise Unsupported("empty match")
            return None
        heads = frozenset().union(*[cs for cs, lo, hi in items[: next((n + 1 for n, x in enumerate(items) if x[1] > 0), len(items))]])
        if not any(lo > 0 for _, lo, _ in items):
            raise Unsupported("empty match")
        fs = self.firstset(t)
        if not fs & heads:
            return None
        rest = {"alpha": LETTERS, "dig": DIGITS}.get(t.kind)
        if rest is None:
            raise Unsupported("regex on another token")
        # one item c{1,} or two items c d*
        if len(items) == 1 and items[0][1] <= 1 and items[0][2] is None:
            f, r = items[0][0], items[0][0]
        elif len(items) == 2 and items[0][1:] == (1, 1) and items[1][1:] == (0, None):
            f, r = items[0][0], items[1][0]
        else:
            raise Unsupported("regex of another form")
        if not (fs <= f and rest <= r):
            raise Unsupported("regex matches a part of a token")
        nx = self.first(toks, k + 1)
        if nx is not None:
            if self.firstset(nx) & r:
                raise Unsupported("regex reads into the next token")
        return SNode(e, toks[k:k + 1], ()), k + 1

    def quant(self, e, toks, k):
        mx = None if e.max == float("inf") else int(e.max)
        inner = e.members[0]
        ch, j = [], k
        I, ctx = self.I, self.I.ctx
        seqs = []
        while j < len(toks) and (mx is None or len(ch) < mx):
            t = toks[j]
            if t.kind == "seg":
                n = t.seg.n
                if mx is not None or ch or seqs:
                    # an optional rule in front of the repetition: it matches the whole of it or nothing
                    if mx == 1 and not ch:
                        r = self.match(inner, toks, j)
                        if r is None:
                            break
                        ch.append(r[0])
                        j = r[1]
                        continue
                    raise Unsupported("repetition matched in another way")
                whole = self.all_elements(inner, t.seg)
                if whole is None:
                    break
                seqs.append(whole)
                j += 1
                # and it stops there
                if j < len(toks):
                    if self.match(inner, toks, j) is not None:
                        raise Unsupported("repetition goes on")
                break
            r = self.match(inner, toks, j)
            if r is None:
                break
            if r[1] == j and len(ch) + 1 >= e.min:
                ch.append(r[0])
                break
            ch.append(r[0])
            j = r[1]
        if seqs:
            children = seqs[0]
            if not ctx.prove(zint(seq_len(children)) >= e.min):
                if not ctx.decide(zint(seq_len(children)) >= e.min):
                    return None
        else:
            if len(ch) < e.min:
                return None
            children = tuple(ch)
        return SNode(e, toks[k:j], children), j

    def all_elements(self, inner, seg):
        """inner matches every element of the segment, exactly; or none of them (None)"""
        I, ctx = self.I, self.I.ctx
        i = ctx.fresh_int("el")
        res = []

        def go():
            toks = seg.el(I, i)
            r = self.match(inner, toks, 0)
            res.append(None if r is None else r[1] == len(toks))
            return "ok", None

        ctx.sub_explore(go, assume=[i >= zint(seg.lo), i < zint(seg.n)], index=i, prefix=f"peg{ctx.cnt}/")
        if all(x is True for x in res):
            lo, n = seg.lo, tsimp(zint(seg.n) - seg.lo)
            return SymSeq(n, lambda k: self.match(inner, seg.el(I, tsimp(zint(k) + lo)), 0)[0])
        if all(x is None for x in res):
            return None
        raise Unsupported("repetition matched in another way")


def visit(I, visitor, node):
    """NodeVisitor.visit by contract."""
    if isinstance(node.children, AbsComp):
        return node.children
    ch = node.children
    if isinstance(ch, tuple):
        vs = tuple(visit(I, visitor, c) for c in ch)
    else:
        vs = SymSeq(ch.n, lambda k: visit(I, visitor, ch.get(I, k)))
    m = "visit_" + node.expr.name
    f = I.getattr(visitor, m) if hasattr(type(visitor), m) else I.getattr(visitor, "generic_visit")
    try:
        return I.call(f, (node, I.new_list(vs)))
    except PyExc as e:
        if issubclass(e.val.cls, (parsimonious.VisitationError,)):
            raise
        raise PyExc(ExcVal(parsimonious.VisitationError, ()))


def contracts(I, accept=None):
    def gparse(I, args, kwargs):
        g, text = args[0], args[1]
        if kwargs.get("pos", 0) != 0 or len(args) > 2 and args[2] != 0 or not isinstance(text, Text):
            raise Unsupported("Grammar.parse")
        if accept is None:
            v = ExcVal(parsimonious.IncompleteParseError if I.ctx.decide(z3.Bool("incomplete")) else parsimonious.ParseError, ())
            v.attrs = {"text": text, "pos": 0, "expr": None}
            raise PyExc(v)
        root = g.default_rule
        r = Peg(I, root).match(root, text.toks, 0, top=True)
        if r is None or r[1] < accept(text):
            v = ExcVal(parsimonious.ParseError, ())
            v.attrs = {"text": text, "pos": 0, "expr": None}
            raise PyExc(v)
        if r[1] > accept(text):
            raise Unsupported("parses more than the type")
        return r[0]

    def vparse(I, args, kwargs):
        vis, text = args[0], args[1]
        return visit(I, vis, gparse(I, (vis.grammar, text), kwargs))

    I.contracts[id(parsimonious.grammar.Grammar.parse)] = gparse
    I.contracts[id(parsimonious.nodes.NodeVisitor.parse)] = vparse
    I.contracts[id(parsimonious.nodes.NodeVisitor.visit)] = lambda I, a, k: visit(I, a[0], a[1])


def misread(t):
    """The property fails for the type string t."""
    from vlib import refabi
    try:
        s = GR.parse(t).to_type_str()
    except Exception:
        s = None
    if s is not None and s != t:
        return True
    try:
        refabi.parse(t)
    except Exception:
        return False
    return s is None


def run_gram(R, p):
    if p["part"] == "language":
        ws = difference(grammar_regex(GR.grammar.default_rule, GR.grammar.default_rule), spec_regex())
        texts = ["".join("bool" if c == "T" else chr(c) for c in w) for w in ws]

        def show(I):
            bad = [t for t in texts if misread(t)]
            if texts and not bad:
                raise Unsupported(f"the grammar accepts another language, e.g. {texts[0]!r} is not in both")
            R.ensure("C11 C12", "parse: accepts exactly the written types", not bad)
            R.ensure("C11 C12", "parse: the visitor uses this grammar", type(GR.visitor).grammar is GR.grammar)

        R.explore(show)
        return

    def run(I):
        ctx = I.ctx
        ctx.texts = True
        if p["part"] == "reject":
            contracts(I, None)
            k, v = attempt(I, GR.parse, Text([]))
            R.ensure("C11 C12 C05 C13", "parse: a text that is no type is refused with a parse error or a value error", k == "exc" and issubclass(v, (X.ParseError, ValueError)))
            return
        if p["part"] == "other":
            for x in (5, None, b"uint8", SOpaque("o")):
                k, v = attempt(I, GR.parse, x)
                R.ensure("C11 C12", "parse: only texts are parsed", k == "exc" and issubclass(v, TypeError))
            return
        td = TD(ctx, p["kind"], p["sub"], p["arr"])
        toks = written(td, p["follow"])
        end = len(toks) - (2 if p["follow"] else 0)
        contracts(I, lambda t: end)
        k, v = attempt(I, GR.parse, Text(toks))
        nm = "parse: "
        R.ensure("C11 C12", nm + "every written type is accepted", k == "ok")
        if k != "ok":
            return
        good = isinstance(v, SObj) and v.cls is (GR.BasicType if td.kind == "basic" else GR.TupleType)
        R.ensure("C11 C12", nm + "the right kind of type", good)
        if not good:
            return
        r = ctx.rec(v.oid)
        if td.kind == "basic":
            b = r["base"]
            R.ensure("C11 C12", nm + "the base as written", isinstance(b, AbsBase) and ctx.prove(b.t == td.b))
            R.ensure("C11 C12", nm + "the sizes as written", lambda: same_sub(ctx, r["sub"], td.sub))
        else:
            cs = r["components"]
            if isinstance(cs, SList):
                cs = I.list_v(cs)
            n = seq_len(cs) if isinstance(cs, (tuple, SeqV)) else None
            R.ensure("C11 C12", nm + "as many components as written", n is not None and zint(n) == td.nc)
            if n is not None and ctx.prove(zint(n) == td.nc):
                R.ensure("C11 C12", nm + "the components in order", lambda: comps_are(I, cs, td.nc))
        if td.hasarr:
            a = r["arrlist"]
            R.ensure("C11 C12", nm + "the dimensions as written", lambda: same_arr(I, td, a, td.nd))
        else:
            R.ensure("C11 C12", nm + "no dimensions", r["arrlist"] is None)
        R.ensure("C11 C12", nm + "keeps the node", r["node"] is not None)

    R.explore(run)


def comps_are(I, cs, n):
    ctx = I.ctx
    k = ctx.fresh_int("k")
    good = []

    def go():
        c = seq_get(I, cs, k)
        good.append(isinstance(c, AbsComp) and not c.norm and ctx.prove(c.i == k))
        return "ok", None

    ctx.sub_explore(go, assume=[k >= 0, k < zint(n)], index=k, prefix="ca/")
    return all(good)


register("type-grammar", "C11 C12", lambda tier, prop: [{"part": "language"}, {"part": "reject"}, {"part": "other"}] + [
    {"part": "tree", "kind": k, "sub": s, "arr": a, "follow": f}
    for k, s in (("basic", "none"), ("basic", "int"), ("basic", "pair"), ("tuple", "none")) for a in (False, True) for f in ("", ",", ")")],
    run_gram, limit=60)
