"""Parsed texts: token lists of any length (text, newline, begin, end), with folds over them."""
import z3

from pyvc.core import Unsupported, cur, mk, to_z3
from pyvc.values import Base, VSeq

Z, S, B_ = z3.IntSort(), z3.StringSort(), z3.BoolSort()
TEXT, NEWLINE, BEGIN, END = range(4)
NAMES = ("text", "newline", "begin", "end")


class Tokens:
    def __init__(self, ctx, name="tokens", kinds=(0, 1, 2, 3)):
        self.ctx = ctx
        self.n = ctx.int("n_" + name)
        self.base = Base(self.n, name)
        self.kind = z3.Function(name + "_kind", Z, Z)
        self.text = z3.Function(name + "_text", Z, S)
        self.count = z3.Function(name + "_newlines", Z, Z)
        self.kinds = kinds
        self.base.fold("newlines", Z, z3.IntVal(0), lambda k, G: z3.If(
            self.kind(k) == NEWLINE, G("newlines").e + self.count(k), G("newlines").e))
        self.base.fold("open", Z, z3.IntVal(0), lambda k, G: z3.If(
            self.kind(k) == BEGIN, G("open").e + 1, z3.If(self.kind(k) == END, G("open").e - 1, G("open").e)))
        self.given = VSeq(self.base, self.elem)
        self.on_kind = None

    def facts(self, k):
        """a token is of one of the kinds, a line break counts at least once"""
        self.ctx.assume(z3.And(self.kind(k) >= 0, self.kind(k) <= 3))
        self.ctx.assume(z3.Implies(self.kind(k) == NEWLINE, self.count(k) >= 1))

    def elem(self, k):
        c = self.ctx
        self.facts(k)
        for j in range(3):
            if c.branch(self.kind(k) == j):
                if self.on_kind is not None:
                    self.on_kind(k)
                return (NAMES[j], mk(self.count(k)) if j == NEWLINE else mk(self.text(k)))
        return ("end", None)

    def lines(self, k=None):
        return 1 + to_z3(self.base.G("newlines", self.base.n if k is None else k))


def is_prefix(v, t):
    """v is the first tokens of t: their number, else None"""
    if not isinstance(v, VSeq) or v.base is not t.base or v.rev or v.guard is not None or v.mutated:
        return None
    if not t.ctx.valid(v.lo == 0):
        return None
    return v.hi


T = z3.DeclareSort("TokenTrace")
TOK = z3.Function("then_token", T, S, S, Z, T)      # kind, text, count
EMPTY = z3.Const("no_tokens", T)
REST = z3.Function("without_last", T, T)
OPEN, NL = z3.StringVal("begin"), z3.StringVal("newline")
TXT, CLOSE, NO = z3.StringVal("text"), z3.StringVal("end"), z3.StringVal("")


def tok(t, kind, text=NO, count=0):
    return TOK(t, kind, text, z3.IntVal(count) if isinstance(count, int) else count)


def read_token(x):
    """(kind, text, count) of a token value"""
    from pyvc.core import SStr
    from pyvc.values import NotApplicable
    if not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[0], (str, SStr)):
        raise NotApplicable()
    k, v = to_z3(x[0]), x[1]
    if v is None:
        return k, NO, z3.IntVal(0)
    if isinstance(v, (str, SStr)):
        return k, to_z3(v), z3.IntVal(0)
    v = to_z3(v)
    if not z3.is_int(v):
        raise NotApplicable()
    return k, NO, v


def then(t, x):
    k, s, n = read_token(x)
    return TOK(t, k, s, n)


def trace_measure(ctx, depth=False):
    """lists of tokens by their tokens in order, and by the number of open sections"""
    from pyvc.values import Measure

    def step(get, x):
        t = to_z3(get("tokens"))
        r = then(t, x)
        ctx.assume(REST(r) == t)
        return r
    ctx.measures["tokens"] = Measure("tokens", T, EMPTY, step)
    if depth:
        def deep(get, x):
            k = read_token(x)[0]
            d = to_z3(get("depth"))
            return mk(z3.simplify(z3.If(k == OPEN, d + 1, z3.If(k == CLOSE, d - 1, d))))
        ctx.measures["depth"] = Measure("depth", Z, z3.IntVal(0), deep)


def at(t, k, tr):
    """the trace with token k of t"""
    kd = t.kind(k)
    return z3.If(kd == TEXT, tok(tr, TXT, t.text(k)), z3.If(kd == NEWLINE, tok(tr, NL, NO, t.count(k)), z3.If(
        kd == BEGIN, tok(tr, OPEN, t.text(k)), tok(tr, CLOSE))))


def balanced(ctx, t, whole=True):
    """t is properly nested (a beginning of such a text, if not whole)"""
    old = t.facts

    def facts(k):
        old(k)
        ctx.assume(z3.And(to_z3(t.base.G("open", k)) >= 0, to_z3(t.base.G("open", k + 1)) >= 0))
    t.facts = facts
    if whole:
        ctx.assume(to_z3(t.base.G("open", t.n)) == 0)


def stack_fold(ctx, t):
    """the open sections before token k, as a trace of their beginnings"""
    t.base.fold("stack", T, EMPTY, lambda k, G: z3.If(
        t.kind(k) == BEGIN, tok(to_z3(G("stack")), OPEN, t.text(k)), z3.If(
            t.kind(k) == END, REST(to_z3(G("stack"))), to_z3(G("stack")))))


def monotone(ctx, t):
    """Lemma: line breaks only add up. Proved by induction, then used for all places that occur."""
    b = t.base
    x = ctx.fresh("from", Z)
    N = lambda k: to_z3(b.G("newlines", k))
    b.at(x)
    b.at(b.n)

    def P(k):
        t.facts(k - 1)
        return z3.Implies(k >= x, N(k) >= N(x))
    def step(k):
        t.facts(k)
        return P(k)
    ctx.assume(x >= 0)
    b.induct("line breaks only add up", step)
    old = b.at

    def at(k):
        before = len(b.idx)
        old(k)
        if len(b.idx) > before:
            k = list(b.idx.values())[-1]
            for y in list(b.idx.values())[:-1] + [k]:
                for u, v in ((k, y), (y, k), (k + 1, y), (y + 1, k)):
                    ctx.assume(z3.Implies(z3.And(0 <= u, u <= v, v <= to_z3(b.n)), N(u) <= N(v)))
    b.at = at
