"""Containers of PyVC: index spaces with folds, symbolic-length sequences, growable lists with fold measures."""
import z3
from . import core
from .core import (SBool, SNum, SStr, Sym, Unsupported, cur, mk, to_z3)


class Base:
    """An index space 0..n with folds over it.  A fold G has G(0)=init and G(k+1)=step(k, G(k), ...).

    The axioms are instantiated only at the indices the verification conditions talk about."""
    _pyvc_stub = True

    def __init__(self, n, label="base"):
        self.n = to_z3(n)
        self.label = label
        self.folds = {}
        self.idx = {}
        c = cur()
        c.bases.append(self)
        c.assume(self.n >= 0)

    def fold(self, name, sort, init, step):
        """step(k, G): value at k+1 from G(name) = values at k"""
        f = z3.Function("fold_%s_%s" % (self.label, name), z3.IntSort(), sort)
        self.folds[name] = (f, init, step)
        cur().assume(mk_eq(f(z3.IntVal(0)), init))
        for k in list(self.idx.values()):
            self._inst(name, k)
        return lambda k: mk(f(to_z3(k)))

    def G(self, name, k):
        return mk(self.folds[name][0](to_z3(k)))

    def _inst(self, name, k):
        f, init, step = self.folds[name]
        v = step(k, lambda n: core.wrap(self.folds[n][0](k)))
        cur().assume(z3.Implies(z3.And(k >= 0, k < self.n), mk_eq(f(k + 1), v)))

    def induct(self, name, P, at=()):
        """Lemma by induction over the index space: P(0) and P(k) => P(k+1) are obligations; P holds at n and `at`."""
        c = cur()
        c.prove("lemma: " + name, P(z3.IntVal(0)))
        k = c.fresh("ind", z3.IntSort())
        rng = z3.And(k >= 0, k < self.n)
        self.at(k)
        c.prove("lemma: " + name, z3.Implies(z3.And(rng, P(k)), P(k + 1)), forget=True)
        for x in (self.n,) + tuple(at):
            x = to_z3(x)
            c.assume(z3.Implies(z3.And(x >= 0, x <= self.n), P(x)))

    def at(self, k):
        k = z3.simplify(to_z3(k))
        key = k.sexpr()
        if key in self.idx:
            return
        self.idx[key] = k
        for name in list(self.folds):
            self._inst(name, k)


class Rec:
    """A recursive function over 0,1,2,...: f(0)=init, f(j+1)=step(j, f(j)); a candidate for loop invariants."""

    def __init__(self, name, sort, init, step):
        c = cur()
        self.name, self.sort, self.step = name, sort, step
        self.f = z3.Function("rec_%s_%d" % (name, len(c.recs)), z3.IntSort(), sort)
        self.idx = {}
        c.assume(mk_eq(self.f(z3.IntVal(0)), init))
        c.recs.append(self)
        for j in c.small():
            self.at(j)

    def at(self, j):
        """unfold at j (from both sides)"""
        j = z3.simplify(to_z3(j))
        key = j.sexpr()
        if key in self.idx:
            return self.f(j)
        self.idx[key] = j
        for x in (j, z3.simplify(j - 1)):
            cur().assume(z3.Implies(x >= 0, mk_eq(self.f(x + 1), self.step(x, core.wrap(self.f(x))))))
        return self.f(j)


class VSeq:
    """Immutable sequence; elem(k) is the element at base index k for lo <= k < hi.

    guard(k), if given, says whether index k contributes an element at all (filtered sequence)."""
    _pyvc_stub = True

    def __init__(self, base, elem, lo=0, hi=None, guard=None, typ=list, rev=False, extra=()):
        self.base = base
        self.elem_fn = elem
        self.lo = to_z3(lo)
        self.hi = base.n if hi is None else to_z3(hi)
        self.guard = guard
        self.typ = typ
        self.rev = rev
        self.extra = tuple(extra)
        self.cache = {}
        self.mutated = 0

    def bases(self):
        return (self.base,) + self.extra

    def inst(self, k):
        for b in self.bases():
            b.at(k)

    @property
    def at(self):
        """element by index, of the sequence as it is now (a later item assignment does not change it)"""
        cache, elem = self.cache, self.elem_fn

        def at(k):
            k = z3.simplify(to_z3(k))
            key = k.sexpr()
            r = cache.get(key)
            if r is None:
                r = cache[key] = (elem(k),)
            return r[0]
        return at

    def setitem(self, i, v):
        c = cur()
        if self.guard is not None or self.typ is not list or c.loop_stack or isinstance(i, slice):
            raise Unsupported("item assignment in a symbolic sequence")
        e = to_z3(i)
        n = self.hi - self.lo
        if c.branch(e < 0):
            e = e + n
        if not c.branch(z3.And(e >= 0, e < n)):
            raise mark(IndexError("list assignment index out of range"))
        j = z3.simplify((self.hi - 1 - e) if self.rev else (self.lo + e))
        old = self.at
        self.updates = getattr(self, "updates", ()) + ((j, v),)
        self.elem_fn = lambda k: v if c.branch(k == j) else old(k)
        self.cache = {}
        self.mutated += 1
        self.inst(j)

    def derive(self, elem, guard=None, typ=None):
        return VSeq(self.base, elem, self.lo, self.hi, guard if guard is not None else self.guard,
                    typ or self.typ, self.rev, self.extra)

    def length(self):
        if self.guard is not None:
            raise Unsupported("length of a filtered symbolic sequence")
        return core.wrap(z3.simplify(self.hi - self.lo))

    def getitem(self, i):
        c = cur()
        if self.guard is not None:
            return self._filtered_item(i)
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                return VSeq(self.base, self.at, self.lo, self.hi, None, self.typ, not self.rev, self.extra)
            if i.step not in (None, 1) or self.rev:
                raise Unsupported("slice step")
            n = self.hi - self.lo
            a = clip(0 if i.start is None else i.start, n)
            b = n if i.stop is None else clip(i.stop, n)
            hi = z3.simplify(self.lo + z3.If(b > a, b, a))
            if z3.is_true(z3.simplify(b >= a)) or c.valid(b >= a):
                hi = z3.simplify(self.lo + b)
            return VSeq(self.base, self.at, z3.simplify(self.lo + a), hi, None, self.typ, False, self.extra)
        e = to_z3(i)
        n = self.hi - self.lo
        if c.branch(e < 0):
            e = e + n
        if not c.branch(z3.And(e >= 0, e < n)):
            raise mark(IndexError("index out of range"))
        k = z3.simplify((self.hi - 1 - e) if self.rev else (self.lo + e))
        self.inst(k)
        if self.base.label not in c.for_loops:
            c.cur_k[self.base.label] = k
        return self.at(k)

    def _filtered_item(self, i):
        if isinstance(i, int) and i in (0, -1):
            seq = self if i == 0 else VSeq(self.base, self.at, self.lo, self.hi, self.guard, self.typ, not self.rev,
                                           self.extra)
            return cur().interp.helper("h_first", seq)
        raise Unsupported("index into a filtered symbolic sequence")

    def nonempty(self):
        c = cur()
        if self.guard is None:
            return c.branch(self.hi > self.lo)
        key = "nonempty"
        if key in self.cache:
            return self.cache[key]
        # decide existence of a contributing index (two exhaustive cases, with a witness in one of them)
        if c.choose(2, "nonempty") == 0:
            w = c.fresh("wit", z3.IntSort())
            c.assume(z3.And(w >= self.lo, w < self.hi))
            self.inst(w)
            if not truth(self.guard(w)):
                raise core.PathEnd()
            self.cache[key] = True
            for f in c.on_witness:
                f(self, w)
            return True
        k = z3.Int("k!all")
        g = c.summarize_bool(lambda: self.guard(k))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= self.lo, k < self.hi), z3.Not(g))))
        c.empty_filters.append((self, g, k))
        for kk in list(self.base.idx.values()):
            c.assume(z3.Implies(z3.And(kk >= self.lo, kk < self.hi), z3.Not(z3.substitute(g, (k, kk)))))
        self.cache[key] = False
        for f in c.on_witness:
            f(self, None)
        return False

    def __bool__(self):
        return self.nonempty()

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")


def truth(v):
    return bool(v)


def clip(v, n):
    e = to_z3(v)
    e = z3.If(e < 0, e + n, e) if not z3.is_int_value(e) else (e if e.as_long() >= 0 else e + n)
    e = z3.If(e < 0, z3.IntVal(0), e)
    return z3.simplify(z3.If(e > n, n, e))


def mark(e):
    """mark an exception as raised by the verified program (not by an engine defect)"""
    try:
        e._pyvc_prog = True
    except Exception:
        pass
    return e


class SChar(Sym):
    """A symbolic character, by its code point."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SChar):
            return mk(self.e == o.e)
        if isinstance(o, str):
            return mk(self.e == ord(o)) if len(o) == 1 else False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk(z3.Not(r.e))

    def __bool__(self):
        return True

    def __repr__(self):
        return "SChar(%s)" % self.e


class Measure:
    """Left fold over a list: state' = step(get, elem)."""

    def __init__(self, name, sort, init, step, cat=None):
        self.name, self.sort, self.init, self.step, self.cat = name, sort, init, step, cat

    def apply(self, states, elem):
        def get(n):
            v = states[n]
            if v is NA:
                raise NotApplicable()
            return v
        return self.step(get, elem)


class ForAll(Measure):
    """Every element satisfies pred (a formula); elements of the list may then be assumed to."""

    def __init__(self, name, pred):
        Measure.__init__(self, name, z3.BoolSort(), z3.BoolVal(True),
                         lambda get, x: core.wrap(z3.And(to_z3(get(name)), to_z3(pred(x)))),
                         lambda a, b: core.wrap(z3.And(to_z3(a), to_z3(b))))
        self.pred = pred


class Abs:
    def __init__(self, states, length, shapes, effect=None):
        self.states = states      # measure name -> value
        self.length = length      # z3 Int
        self.shapes = shapes      # list of element shapes
        self.effect = effect      # measure name -> function: state before -> state after the whole prefix

    def copy(self):
        return Abs(dict(self.states), self.length, list(self.shapes), self.effect)


class RefKind:
    """Objects that are fully described by a value of an uninterpreted sort (loops follow them by that value).

    term(v): (expression, extra) if v is such an object, else None; make(expression, extra): the object."""

    def __init__(self, name, sort, term, make):
        self.name, self.sort, self.term, self.make_ = name, sort, term, make
        self.objs = {}
        cur().ref_kinds[name] = self

    def make(self, e, extra):
        e = z3.simplify(e)
        key = (e.sexpr(), extra)
        if key not in self.objs:
            self.objs[key] = self.make_(e, extra)
        return self.objs[key]


def ref_of(v):
    for rk in cur().ref_kinds.values():
        r = rk.term(v)
        if r is not None:
            return (rk,) + tuple(r)
    return None


def seg_list(effect, length=None, shapes=None, tag="segment"):
    """A list of unknown elements, described by its effect on each measure (used by contracts)."""
    c = core.cur()
    l = VList(tag=tag)
    if length is None:
        length = c.fresh("seglen", z3.IntSort())
        c.assume(length >= 0)
    st = {m.name: effect[m.name](m.init) if m.name in effect else NA for m in c.measures.values()}
    l.abs = Abs(st, to_z3(length), shapes or [("unknown",)], effect)
    return l


def shape_or_unknown(x):
    try:
        return shape(x)
    except Unsupported:
        return ("unknown",)


def absorb(l, x):
    """l.extend(x) where x has an abstract prefix"""
    c = core.cur()
    st = measure_states(l)
    a = x.abs
    out = {}
    for m in c.measures.values():
        s = st.get(m.name, NA)
        if s is NA:
            out[m.name] = NA
        elif a.effect is not None and m.name in a.effect:
            out[m.name] = a.effect[m.name](s)
        elif m.cat is not None and a.states.get(m.name, NA) is not NA:
            out[m.name] = m.cat(s, a.states[m.name])
        else:
            out[m.name] = NA
    shapes = list(l.abs.shapes) if has_abs(l) else []
    for y in [shape_or_unknown(e) for e in list.__iter__(l)] + list(a.shapes):
        shapes = merge_shape(shapes, y)
    ln = z3.simplify(to_z3(vlen(l)) + a.length)
    tail = list(list.__iter__(x))
    c.note_write(l, "[]")
    list.clear(l)
    l.abs = Abs(out, ln, shapes)
    list.extend(l, tail)


class VList(list):
    """A list of the verified code.  .abs, if set, is an unknown prefix described by measures only."""

    def __init__(self, it=(), tag="list"):
        super().__init__(it)
        self.abs = None
        c = core.CUR
        if c is not None:
            c.register(self, tag)

    __hash__ = None


def has_abs(lst):
    return isinstance(lst, VList) and lst.abs is not None


class _NA:
    def __repr__(self):
        return "NA"


NA = _NA()


class NotApplicable(Exception):
    """A measure does not apply to this kind of element."""


def measure_states(lst):
    """Fold states of a (possibly abstract) list."""
    c = cur()
    if has_abs(lst):
        st = dict(lst.abs.states)
    else:
        st = {m.name: m.init for m in c.measures.values()}
    for x in list.__iter__(lst):
        new = {}
        for m in c.measures.values():
            if st.get(m.name, NA) is NA:
                new[m.name] = NA
                continue
            try:
                new[m.name] = m.apply(st, x)
            except NotApplicable:
                new[m.name] = NA
        st = new
    return st


def vlen(lst):
    n = list.__len__(lst)
    if has_abs(lst):
        return core.wrap(z3.simplify(lst.abs.length + n))
    return n


def peel(lst):
    """Make the last element of an abstract prefix explicit.  Returns False if the prefix is empty."""
    c = cur()
    a = lst.abs
    if not c.branch(a.length > 0):
        lst.abs = None
        for m in c.measures.values():
            v = a.states.get(m.name, NA)
            if v is not NA:
                c.assume(mk_eq(v, m.init))
        return False
    el = fresh_of_shapes(a.shapes, "peel")
    prev = {}
    for m in c.measures.values():
        prev[m.name] = NA if a.states.get(m.name, NA) is NA else core.wrap(c.fresh("st_" + m.name, m.sort))
    for m in c.measures.values():
        if prev[m.name] is NA:
            continue
        try:
            v = m.apply(prev, el)
        except NotApplicable:
            prev[m.name] = NA
            continue
        c.assume(mk_eq(v, a.states[m.name]))
    lst.abs = Abs(prev, z3.simplify(a.length - 1), a.shapes)
    list.insert(lst, 0, el)
    return True


def mk_eq(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a == b


def abs_seq(lst):
    c = cur()
    a = lst.abs
    if list.__len__(lst):
        shapes = list(a.shapes)
        for x in list.__iter__(lst):
            shapes = merge_shape(shapes, shape_or_unknown(x))
        a = Abs(measure_states(lst), to_z3(vlen(lst)), shapes)
    none = not a.shapes and c.valid(a.length == 0)
    if not a.shapes and not none and not c.proving:
        raise core.PathEnd("the elements of a list are not known yet")
    if not none and (not a.shapes or any(s == ("unknown",) for s in a.shapes)):
        raise Unsupported("loop over a list of unknown elements")
    nm = "list%d" % len(c.bases)
    base = Base(a.length, nm)
    cache = {}

    def elem(k):
        key = k.sexpr()
        if none:
            raise core.PathEnd("an element of an empty list")
        if key not in cache:
            i = c.choose(len(a.shapes), nm) if len(a.shapes) > 1 else 0
            x = cache[key] = elem_of_shape(a.shapes[i], "%s_%d" % (nm, i), k)
            for m in c.measures.values():
                st = a.states.get(m.name, NA)
                if isinstance(m, ForAll) and st is not NA:
                    try:
                        f = m.pred(x)
                    except NotApplicable:
                        continue
                    c.assume(z3.Implies(z3.And(to_z3(st), k >= 0, k < base.n), to_z3(f)))
        return cache[key]
    for m in c.measures.values():
        if none:
            continue
        if a.states.get(m.name, NA) is not NA:
            base.fold(m.name, m.sort, m.init, lambda k, G, m=m: m.apply(_States(G), elem(k)))
            c.assume(mk_eq(base.G(m.name, base.n), a.states[m.name]))
    return VSeq(base, elem)


class _States:
    def __init__(self, G):
        self.G = G

    def __getitem__(self, n):
        return self.G(n)


def elem_of_shape(s, nm, k):
    sorts = {"bool": z3.BoolSort(), "str": z3.StringSort()}
    if s[0] == "num":
        return core.wrap(z3.Function(nm, z3.IntSort(), z3.IntSort() if s[1] else z3.RealSort())(k))
    if s[0] in sorts:
        return core.wrap(z3.Function(nm, z3.IntSort(), sorts[s[0]])(k))
    if s[0] == "char":
        return SChar(z3.Function(nm, z3.IntSort(), z3.IntSort())(k))
    if s[0] == "tuple":
        return tuple(elem_of_shape(x, "%s_%d" % (nm, i), k) for i, x in enumerate(s[1:]))
    if s[0] in ("lit", "none", "obj"):
        return fresh_of_shape(s, nm)
    if s[0] == "ref":
        rk = cur().ref_kinds[s[1]]
        return rk.make(z3.Function(nm, z3.IntSort(), rk.sort)(k), s[2])
    if s[0] == "opt":
        return SOpt(z3.Function(nm + "_none", z3.IntSort(), z3.BoolSort())(k), elem_of_shape(s[1], nm, k))
    raise Unsupported("element of a list: %s" % (s[0],))


# ------------------------------------------------------------------ shapes

def shape(v):
    c = cur()
    if isinstance(v, (bool, SBool)):
        return ("bool",)
    if isinstance(v, SNum):
        return ("num", bool(v.is_int))
    if isinstance(v, int):
        return ("num", True)
    if isinstance(v, float):
        return ("num", False)
    if isinstance(v, SChar):
        return ("char",)
    if isinstance(v, str):
        if v in c.literals:
            return ("lit", v)
        return ("str",)
    if isinstance(v, SStr):
        return ("str",)
    if v is None:
        return ("none",)
    if isinstance(v, SOpt) and c.optional_refs and shape(v.val)[0] == "ref":
        return ("opt", shape(v.val))
    if type(v) is tuple:
        return ("tuple",) + tuple(shape(x) for x in v)
    if c.ref_kinds:
        r = ref_of(v)
        if r is not None:
            return ("ref", r[0].name, r[2])
    if isinstance(v, VSeq) and v.guard is None and not v.rev:
        return ("vseq", c.serial(v.base), v.typ.__name__, v)
    ent = getattr(v, "_pyvc_shape", None)
    if ent is not None:
        return ent()
    if isinstance(v, VList) and c.loop_stack and c.birth(v) > c.loop_stack[-1].clock and list.__len__(v) == 0 \
            and v.abs is None:
        return ("emptylist",)
    if isinstance(v, VList) and c.loop_stack and c.birth(v) > c.loop_stack[-1].clock:
        return ("flist",)
    if c.loop_stack and c.birth(v) > c.loop_stack[-1].clock:
        raise Unsupported("an object created in a loop iteration escapes it: %s" % type(v).__name__)
    return ("obj", c.serial(v))


def same_shape(a, b):
    if a[0] == "vseq" == b[0]:
        return a[1:3] == b[1:3]
    if a[0] == "tuple" == b[0]:
        return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a[1:], b[1:]))
    return a == b


def merge_shape(shapes, s):
    """add s to the union; Int/Real merge into Real"""
    out = []
    done = False
    for t in shapes:
        m = join_shape(t, s) if not done else None
        if m is not None:
            out.append(m)
            done = True
        else:
            out.append(t)
    if not done:
        out.append(s)
    return out


def join_shape(a, b):
    if same_shape(a, b):
        return a
    if a[0] == b[0] == "num":
        return ("num", False)
    if a[0] == b[0] == "tuple" and len(a) == len(b):
        parts = [join_shape(x, y) for x, y in zip(a[1:], b[1:])]
        if all(p is not None for p in parts):
            return ("tuple",) + tuple(parts)
    if "flist" in (a[0], b[0]) and all(x[0] in ("flist", "emptylist") or x[0] == "obj" and isinstance(
            core.cur().obj_of(x[1]), VList) for x in (a, b)):
        return ("flist",)
    if {a[0], b[0]} == {"lit", "str"}:
        return ("str",)
    if core.cur().optional_refs:
        # an object or nothing, as one value
        x, y = (s[1] if s[0] == "opt" else s for s in (a, b))
        if x[0] in ("none", "ref") and y[0] in ("none", "ref"):
            if x[0] == y[0] == "ref":
                return ("opt", x) if same_shape(x, y) else None
            return ("opt", y if x[0] == "none" else x)
    return None


def fresh_of_shape(s, nm):
    c = cur()
    if s[0] == "num":
        return c.int(nm) if s[1] else c.real(nm)
    if s[0] == "bool":
        return c.bool(nm)
    if s[0] == "char":
        return SChar(c.fresh(nm, z3.IntSort()))
    if s[0] == "str":
        return c.str(nm)
    if s[0] == "lit":
        return s[1]
    if s[0] == "none":
        return None
    if s[0] == "tuple":
        return tuple(fresh_of_shape(x, nm + "_%d" % i) for i, x in enumerate(s[1:]))
    if s[0] == "obj":
        return c.obj_of(s[1])
    if s[0] == "ref":
        rk = c.ref_kinds[s[1]]
        return rk.make(c.fresh(nm, rk.sort), s[2])
    if s[0] == "opt":
        return SOpt(c.fresh(nm + "_none", z3.BoolSort()), fresh_of_shape(s[1], nm))
    if s[0] == "vseq":
        base = c.obj_of(s[1])
        lo, hi = c.fresh(nm + "_lo", z3.IntSort()), c.fresh(nm + "_hi", z3.IntSort())
        c.assume(z3.And(0 <= lo, lo <= hi, hi <= base.n))
        src = c.vseq_src.get(s[1:3])
        if src is None:
            raise Unsupported("slice of an unknown sequence")
        return VSeq(base, src, lo, hi, None, {"list": list, "tuple": tuple, "str": str}[s[2]])
    if s[0] == "emptylist":
        return VList()
    if s[0] == "flist":
        l = VList()
        n = c.fresh(nm + "_len", z3.IntSort())
        c.assume(n >= 0)
        st = {m.name: core.wrap(c.fresh("st_" + m.name, m.sort)) for m in c.measures.values()}
        for m in c.measures.values():
            c.assume(z3.Implies(n == 0, mk_eq(st[m.name], m.init)))
        l.abs = Abs(st, n, [("unknown",)])
        return l
    if s[0] == "gen":
        return s[1](nm)
    raise Unsupported("cannot havoc shape %r" % (s[0],))


def fresh_of_shapes(shapes, nm):
    if not shapes:
        raise Unsupported("element of unknown shape")
    i = cur().choose(len(shapes), nm)
    return fresh_of_shape(shapes[i], nm)


class SOpt(Sym):
    """An optional value: None if `none` holds, else `val` (an SNum or an object)."""
    __slots__ = ("none", "val")

    def __init__(self, none, val):
        self.none, self.val = none, val

    def _pyvc_is(self, o):
        if o is None:
            return mk(self.none)
        return self.get() is o

    def _pyvc_truth(self):
        c = cur()
        if c.branch(self.none):
            return False
        return bool(self.val) if isinstance(self.val, (Sym, int, float)) else True

    def _pyvc_isinstance(self, t):
        c = cur()
        if c.branch(self.none):
            return t is type(None) or t is object
        return c.interp.models[isinstance](c.interp, self.val, t)

    def get(self):
        c = cur()
        if c.branch(self.none):
            return None
        return self.val

    def num(self):
        v = self.get()
        if v is None:
            raise mark(TypeError("unsupported operand type NoneType"))
        return v

    def _pyvc_eq(self, o):
        v = self.get()
        if isinstance(o, SOpt):
            o = o.get()
        if v is None or o is None:
            return v is o
        return v == o

    def __bool__(self):
        return self._pyvc_truth()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = self.get()
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise mark(e)


def _opt_ops():
    import operator

    def two(op):
        def f(self, o):
            return op(self.num(), o.num() if isinstance(o, SOpt) else o)

        def r(self, o):
            return op(o, self.num())
        return f, r
    for nm in ("add", "sub", "mul", "truediv"):
        f, r = two(getattr(operator, nm))
        setattr(SOpt, "__%s__" % nm, f)
        setattr(SOpt, "__r%s__" % nm, r)
    for nm in ("lt", "le", "gt", "ge"):
        f, r = two(getattr(operator, nm))
        setattr(SOpt, "__%s__" % nm, f)


_opt_ops()
