"""Regular expressions of the verified code over symbolic strings.

A pattern is flattened into alternatives; each alternative is a concatenation of capture-free pieces, with the captures
as sub-ranges of pieces.  A match may be any decomposition of the subject (an over-approximation of the greedy choice of
Python); "no match" means exactly that the subject is in none of the languages.  \\d and \\w are the ASCII classes."""
import re
import re._constants as C
import re._parser as P

import z3

from .core import SNum, SStr, Unsupported, cur, mk, to_z3
from .values import mark

MAXCP = 0x2FFFF
ANYCH = z3.AllChar(z3.ReSort(z3.StringSort()))


def ch(c):
    return z3.Re(z3.StringVal(chr(c)))


def rng(a, b):
    return z3.Range(z3.StringVal(chr(a)), z3.StringVal(chr(min(b, MAXCP))))


def union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def concat(xs):
    xs = list(xs)
    if not xs:
        return z3.Re(z3.StringVal(""))
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]


def category(cat):
    if cat == C.CATEGORY_DIGIT:
        return rng(48, 57)
    if cat == C.CATEGORY_SPACE:
        return union(ch(c) for c in WS)
    if cat == C.CATEGORY_WORD:
        return union([rng(48, 57), rng(65, 90), rng(97, 122), ch(95)])
    neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
           C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}.get(cat)
    if neg is None:
        raise Unsupported("regex category")
    return z3.Intersect(ANYCH, z3.Complement(category(neg)))


def charset(items):
    neg = False
    out = []
    for op, av in items:
        if op == C.NEGATE:
            neg = True
        elif op == C.LITERAL:
            out.append(ch(av))
        elif op == C.RANGE:
            out.append(rng(*av))
        elif op == C.CATEGORY:
            out.append(category(av))
        else:
            raise Unsupported("regex set")
    r = union(out)
    return z3.Intersect(ANYCH, z3.Complement(r)) if neg else r


def plain(items, flags):
    """regex of capture- and anchor-free items"""
    return concat(plain1(op, av, flags) for op, av in items)


def plain1(op, av, flags):
    if op == C.LITERAL:
        return ch(av)
    if op == C.NOT_LITERAL:
        return z3.Intersect(ANYCH, z3.Complement(ch(av)))
    if op == C.ANY:
        return ANYCH if flags & re.S else z3.Intersect(ANYCH, z3.Complement(ch(10)))
    if op == C.IN:
        return charset(av)
    if op == C.BRANCH:
        return union(plain(b, flags) for b in av[1])
    if op == C.SUBPATTERN:
        return plain(av[3], flags)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        r = plain(sub, flags)
        if hi == C.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else concat([r] * lo + [z3.Star(r)])
        if lo == 0 and hi == 1:
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported("regex construct %s" % op)


def special(items):
    """contains captures or anchors"""
    for op, av in items:
        if op == C.AT:
            return True
        if op == C.SUBPATTERN and (av[0] is not None or special(av[3])):
            return True
        if op == C.BRANCH and any(special(b) for b in av[1]):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and special(av[2]):
            return True
    return False


def flatten(items, flags):
    """alternatives: lists of ("re", r) | ("open", g) | ("close", g) | ("at", code)"""
    alts = [[]]
    for op, av in items:
        if op == C.LITERAL:
            new = [[("lit", chr(av))]]
        elif not special([(op, av)]):
            new = [[("re", plain1(op, av, flags))]]
        elif op == C.AT:
            new = [[("at", av)]]
        elif op == C.BRANCH:
            new = [a for b in av[1] for a in flatten(b, flags)]
        elif op == C.SUBPATTERN:
            body = list(av[3])
            if len(body) == 1 and body[0][0] == C.BRANCH and len(body[0][1][1]) < 9:
                inner = [a for b in body[0][1][1] for a in flatten(b, flags)]
            else:
                inner = flatten(body, flags)
            new = [[("open", av[0])] + a + [("close", av[0])] for a in inner] if av[0] is not None else inner
        elif op == C.MAX_REPEAT and av[0] == 0 and av[1] == 1:
            new = flatten(av[2], flags) + [[]]
        elif op == C.MAX_REPEAT and av[0] == 1 and av[1] == 1:
            new = flatten(av[2], flags)
        else:
            raise Unsupported("repeated capture in a regex")
        alts = [a + n for a in alts for n in new]
        if len(alts) > 60:
            raise Unsupported("regex with many alternatives")
    return alts


class Alt:
    def __init__(self, atoms, mode, flags):
        n = len(atoms)
        self.pieces = []      # (regex, set of groups)
        self.groups = set()
        open_ = []
        end = None
        res = [i for i, a in enumerate(atoms) if a[0] in ("re", "lit")]
        first, last = (res[0], res[-1]) if res else (n, -1)
        for i, (k, v) in enumerate(atoms):
            if k == "open":
                open_.append(v)
                self.groups.add(v)
                self.pieces.append(None)
            elif k == "close":
                open_.remove(v)
            elif k == "at":
                if v in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and i < first and not flags & re.M:
                    if mode == "search":
                        mode = "match"
                elif v == C.AT_END_STRING and i > last:
                    end = "Z"
                elif v == C.AT_END and i > last and not flags & re.M:
                    end = end or "$"
                else:
                    raise Unsupported("regex anchor")
            else:
                prev = self.pieces[-1] if self.pieces else None
                if prev is not None and prev[1] == tuple(open_) and (k == "lit") == isinstance(prev[0], str):
                    self.pieces[-1] = (prev[0] + v if k == "lit" else z3.Concat(prev[0], v), tuple(open_))
                else:
                    self.pieces.append((v, tuple(open_)))
        self.pieces = [p for p in self.pieces if p is not None]
        any_ = z3.Star(ANYCH)
        self.lead = any_ if mode == "search" else None
        self.tail = None
        if mode == "fullmatch" or end == "Z":
            self.tail = None
        elif end == "$":
            self.tail = z3.Option(ch(10))
        else:
            self.tail = any_
        parts = ([self.lead] if self.lead is not None else []) + \
            [z3.Re(p[0]) if isinstance(p[0], str) else p[0] for p in self.pieces] + \
            ([self.tail] if self.tail is not None else [])
        self.re = concat(parts)


class SMatch:
    _pyvc_stub = True

    def __init__(self, pat, subject, spans, parts, nlead):
        self.re = pat
        self._subject, self._groups, self._lead = subject, spans, nlead

    def _get(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise mark(IndexError("no such group"))
            g = self.re.groupindex[g]
        if not isinstance(g, int) or g > self.re.groups:
            raise mark(IndexError("no such group"))
        return self._groups.get(g)

    def group(self, *gs):
        if not gs:
            return self._groups[0]
        r = tuple(self._get(g) for g in gs)
        return r if len(r) > 1 else r[0]

    def _pyvc_getitem(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(default if self._groups.get(i) is None else self._groups[i] for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        d = {n: (default if self._groups.get(i) is None else self._groups[i]) for n, i in self.re.groupindex.items()}
        cur().register(d, "groupdict")
        return d

    def _pyvc_truth(self):
        return True


_cache = {}


def text_of(vs):
    if all(isinstance(v, str) for v in vs):
        return "".join(vs)
    return SStr(tuple(vs))


def alternatives(pat, mode):
    key = (pat.pattern, pat.flags, mode)
    if key not in _cache:
        flags = pat.flags
        if flags & (re.I | re.X | re.L):
            raise Unsupported("regex flags")
        items = list(P.parse(pat.pattern, flags & ~re.U))
        _cache[key] = [Alt(a, mode, flags) for a in flatten(items, flags)]
    return _cache[key]


def classify(ctx, term, regex):
    """the text `term` is in the language `regex` (kept beside the solver: shapes are decided by small queries)"""
    ctx.str_class[term.sexpr()] = (term, regex)


_shape = {}


def shape_of(ctx, s):
    """the language of all texts of that shape, as a list of literals and regexes"""
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, SNum):
            return None
        else:
            c = ctx.str_class.get(p.sexpr())
            if c is None:
                return None
            out.append(c[1])
    return out


def language(shape):
    return concat([z3.Re(p) if isinstance(p, str) else p for p in shape])


def inhabited(r, what=None):
    key = r.sexpr()
    if key not in _shape:
        s = z3.Solver()
        s.set("timeout", 20000)
        x = z3.String("x!")
        s.add(z3.InRe(x, r))
        _shape[key] = s.check()
    return _shape[key] != z3.unsat


def may_equal(ctx, s, lit):
    """can that text be equal to the literal (None: not known)"""
    sh = shape_of(ctx, s)
    if sh is None:
        return None
    return inhabited(z3.Intersect(language(sh), z3.Re(lit)))


def digits_only(r):
    return not isinstance(r, str) and r.sexpr() == DIGITS.sexpr()


def align(alt, s, shape):
    """the unique decomposition, when every part is a literal or a run of digits between non-digits"""
    if alt.lead is not None or alt.tail is not None and alt.tail.sexpr() not in (
            z3.Option(ch(10)).sexpr(), z3.Star(ANYCH).sexpr()):
        return None
    out, i, off = [], 0, 0
    parts = list(s.parts)
    for n, (r, gs) in enumerate(alt.pieces):
        if i >= len(parts):
            return None
        if isinstance(r, str):
            if not isinstance(parts[i], str) or not parts[i].startswith(r, off):
                return None
            if r[0].isdigit() or r[-1].isdigit():
                return None
            off += len(r)
            out.append(r)
            if off == len(parts[i]):
                i, off = i + 1, 0
        else:
            if not digits_only(r) or off or isinstance(parts[i], str) or not digits_only(shape[i]):
                return None
            if n and not isinstance(alt.pieces[n - 1][0], str):
                return None
            out.append(parts[i])
            i += 1
    if i < len(parts) or off:
        return None
    return out


def call(I, pat, name, args):
    if name not in ("match", "fullmatch", "search"):
        raise Unsupported("regex %s on symbolic text" % name)
    s = args[0]
    if not isinstance(s, SStr) or len(args) > 1:
        raise Unsupported("regex on %s" % type(s).__name__)
    ctx = I.ctx
    e = s.expr()
    alts = alternatives(pat, name)
    shape = shape_of(ctx, s)
    if shape is not None:
        lang = language(shape)
        opts = [a for a in alts if inhabited(z3.Intersect(lang, a.re))]
        none = z3.BoolVal(True)
        can_fail = inhabited(z3.Intersect([lang] + [z3.Complement(a.re) for a in alts]))
    else:
        opts = [a for a in alts if ctx.check(z3.InRe(e, a.re)) != z3.unsat]
        none = z3.And([z3.Not(z3.InRe(e, a.re)) for a in alts])
        can_fail = ctx.check(none) != z3.unsat
    n = len(opts) + (1 if can_fail else 0)
    if n == 0:
        from .core import PathEnd
        raise PathEnd("infeasible")
    i = ctx.choose(n, "regex")
    ctx.assumptions.add("\\d, \\w and int()/float() of texts: ASCII digits only")
    if i == len(opts):
        if shape is not None:
            for a in alts:
                if a in opts:
                    ctx.assume(z3.Not(z3.InRe(e, a.re)))
            if len(opts) and len(s.parts) == 1 and not isinstance(s.parts[0], (str, SNum)):
                classify(ctx, s.parts[0], z3.Intersect([lang] + [z3.Complement(a.re) for a in alts]))
        else:
            ctx.assume(none)
        return None
    a = opts[i]
    fixed = align(a, s, shape) if shape is not None and len(opts) == 1 else None
    if fixed is not None and not can_fail:
        pos = iter(fixed)
        groups = {g: [] for g in a.groups}
        for r, gs in a.pieces:
            v = next(pos)
            for g in gs:
                groups[g].append(v)
        out = {g: text_of(vs) for g, vs in groups.items()}
        out[0] = text_of(fixed)
        return SMatch(pat, s, out, None, None)
    if shape is not None:
        for p, c in zip(s.parts, shape):
            if not isinstance(p, str):
                ctx.assume(z3.InRe(p, c))
    ctx.assume(z3.InRe(e, a.re))
    vars_ = []
    groups = {g: [] for g in a.groups}
    whole = []

    def piece(r):
        v = ctx.fresh("piece", z3.StringSort())
        ctx.assume(z3.InRe(v, r))
        classify(ctx, v, r)
        return v
    if a.lead is not None:
        vars_.append(piece(a.lead))
    for r, gs in a.pieces:
        v = r if isinstance(r, str) else piece(r)
        vars_.append(z3.StringVal(v) if isinstance(v, str) else v)
        whole.append(v)
        for g in gs:
            groups[g].append(v)
    if a.tail is not None:
        vars_.append(piece(a.tail))
    ctx.assume(e == (z3.Concat(*vars_) if len(vars_) > 1 else vars_[0] if vars_ else z3.StringVal("")))
    out = {g: text_of(vs) for g, vs in groups.items()}
    out[0] = text_of(whole)
    return SMatch(pat, s, out, None, None)


DIGITS = z3.Plus(z3.Range("0", "9"))
FLOATVAL = z3.Function("float_of_text", z3.StringSort(), z3.RealSort())
INTVAL = z3.Function("int_of_text", z3.StringSort(), z3.IntSort())


def str_to_num(I, s, is_int):
    ctx = I.ctx
    ctx.assumptions.add("int() and float() of a run of digits: an uninterpreted function of the text, at least 0")
    if len(s.parts) == 1 and isinstance(s.parts[0], SNum):
        v = s.parts[0]
        if v.is_int:
            return v if is_int else mk(z3.ToReal(v.e))
    e = s.expr()
    shape = shape_of(ctx, s)
    if shape is not None and len(shape) == 1 and digits_only(shape[0]):
        sure = True
    elif shape is not None and not inhabited(z3.Intersect(language(shape), z3.Complement(DIGITS))):
        sure = True
    elif shape is not None and not inhabited(z3.Intersect(language(shape), NUMLIKE)):
        raise mark(ValueError("invalid literal for %s()" % ("int" if is_int else "float")))
    else:
        sure = ctx.branch(z3.InRe(e, DIGITS))
    if sure:
        v = num(e)
        ctx.assume(v >= 0)
        return mk(v if is_int else z3.ToReal(v))
    raise Unsupported("number of a text that is not all digits")


def num(e):
    """the number written by a run of digits"""
    return INTVAL(e)


NUMLIKE = z3.Star(z3.Union(rng(48, 57), rng(97, 122), rng(65, 90), ch(43), ch(45), ch(46), ch(95), rng(128, MAXCP),
                           *[ch(c) for c in WS]))
