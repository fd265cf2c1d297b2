"""Shared harness of the style units: arbitrary styles and maps of named styles."""
import z3

from pyvc.core import SBool, SNum, SStr, Unsupported, mk, to_z3
from pyvc.values import SOpt, mark

NUMERIC = ("normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "tabular-nums", "diagonal-fractions",
           "stacked-fractions")
FIELDS = {"font": "str", "size": "num", "align": ("left", "middle", "right"), "line_spacing": "num", "color": "str",
          "bold": "bool", "italic": "bool", "variant_numeric": NUMERIC, "opacity": "num", "priority": "int"}
SAMPLE = {"font": "a font", "size": 12.75, "align": "left", "line_spacing": 3.25, "color": "a color", "bold": True,
          "italic": True, "variant_numeric": "normal", "opacity": 0.75, "priority": 9}


def slots():
    """the attribute storing each property, found by observation"""
    from elsie import TextStyle
    import inspect
    out = {}
    for p, v in SAMPLE.items():
        s = TextStyle(**{p: v})
        names = list(getattr(s, "__dict__", ()))
        for c in type(s).__mro__:
            sl = c.__dict__.get("__slots__", ())
            names += [sl] if isinstance(sl, str) else list(sl)
        hit = [n for n in names if not isinstance(inspect.getattr_static(type(s), n, None), property)
               and getattr(s, n, None) is v]
        if len(hit) != 1:
            raise Unsupported("the attribute storing '%s'" % p)
        out[p] = hit[0]
    return out


def value(ctx, p, name):
    k = FIELDS[p]
    if k == "str":
        return ctx.str(name)
    if k == "num":
        return ctx.real(name)
    if k == "int":
        return ctx.int(name)
    if k == "bool":
        return ctx.bool(name)
    s = ctx.str(name)
    ctx.assume(z3.Or(*[to_z3(s) == z3.StringVal(x) for x in k]))
    return s


def raw(ctx, at, name, fields):
    """a style object holding the given values"""
    from elsie import TextStyle
    s = TextStyle.__new__(TextStyle)
    ctx.register(s, name)
    for p, v in fields.items():
        object.__setattr__(s, at[p], v)
    return s


def any_style(ctx, at, name):
    """any style: every property set or not"""
    return raw(ctx, at, name, {p: SOpt(ctx.fresh("%s_no_%s" % (name, p), z3.BoolSort()), value(ctx, p, name + "_" + p))
                               if p != "priority" else value(ctx, p, name + "_" + p) for p in FIELDS})


def forked_style(ctx, at, name, only=None):
    """any style, one path for each set of set properties"""
    return raw(ctx, at, name, {p: value(ctx, p, name + "_" + p) if p == "priority" or ctx.choose(2, p) else None
                               for p in FIELDS if only is None or p in only})


def fields(s, at):
    return {p: getattr(s, at[p]) for p in at}


def parts(v):
    """(is not set, value) of a property"""
    if v is None:
        return z3.BoolVal(True), None
    if isinstance(v, SOpt):
        return to_z3(v.none), v.val
    return z3.BoolVal(False), v


def eq_value(a, b):
    """the properties have equal values"""
    if a is b:
        return z3.BoolVal(True)
    na, va = parts(a)
    nb, vb = parts(b)
    if va is None or vb is None:
        return z3.And(na, nb)
    try:
        e = to_z3(va) == to_z3(vb)
    except (Unsupported, z3.Z3Exception):
        e = z3.BoolVal(va is vb)
    return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), e))


def over(b, a):
    """the value of b where set, else the value of a"""
    nb, vb = parts(b)
    na, va = parts(a)
    if vb is None:
        return a
    if z3.is_false(nb):
        return b
    if va is None:
        return SOpt(nb, vb)
    v = z3.If(nb, to_z3(va), to_z3(vb))
    v = SStr((v,)) if isinstance(vb, (SStr, str)) else mk(v)
    return SOpt(z3.And(na, nb), v)


def same_style(ctx, what, got, want):
    for p in want:
        ctx.prove("%s: %s" % (what, p), eq_value(got[p], want[p]))


def compose_contract(ctx, at):
    """TextStyle.update / compose (S01): every property from the second style where it sets it"""
    from elsie import TextStyle

    def update(self, style):
        if not isinstance(self, TextStyle) or not isinstance(style, TextStyle):
            return NotImplemented
        for p in at:
            ctx.note_write(self, at[p])
            object.__setattr__(self, at[p], over(getattr(style, at[p]), getattr(self, at[p])))

    def compose(self, style):
        if not isinstance(self, TextStyle) or not isinstance(style, TextStyle):
            return NotImplemented
        return raw(ctx, at, "composed", {p: over(getattr(style, at[p]), getattr(self, at[p])) for p in at})
    ctx.contracts["text.textstyle.TextStyle.update"] = update
    ctx.contracts["text.textstyle.TextStyle.compose"] = compose


class Names:
    """any finite map of names to styles; 'default' is defined"""

    def __init__(self, ctx, at):
        self.ctx, self.at = ctx, at
        self.known = [("default", any_style(ctx, at, "default"))]
        self.before = [(self.known[0][1], fields(self.known[0][1], at))]

    def __call__(self, n):
        for k, v in self.known:
            if k is n or self.ctx.branch(to_z3(k) == to_z3(n)):
                return v
        v = any_style(self.ctx, self.at, "style") if self.ctx.choose(2, "defined") else None
        if v is not None:
            self.before.append((v, fields(v, self.at)))
        self.known.append((n, v))
        return v

    def unchanged(self, what):
        """no style of the map was written"""
        for s, f in self.before:
            same_style(self.ctx, what, fields(s, self.at), f)

    def was(self, s):
        """the values a style had at first"""
        for t, f in self.before:
            if t is s:
                return f
        return fields(s, self.at)


class Styles:
    """a map of named styles over an arbitrary one"""
    _pyvc_stub = True
    _pyvc_map = True

    def __init__(self, ctx, lookup, log, own=()):
        self._ctx, self._lookup, self._log = ctx, lookup, log
        self._own = list(own)
        log.append(self)
        self._first = len(self._own)
        ctx.register(self, "styles")

    def find(self, name):
        from pyvc.core import cur
        if not isinstance(name, (str, SStr)):
            return None
        for k, v in reversed(self._own):
            if k is name or cur().branch(to_z3(k) == to_z3(name)):
                return v
        return self._lookup(name)

    def get(self, name, default=None):
        r = self.find(name)
        return default if r is None else r

    def _pyvc_getitem(self, name):
        r = self.find(name)
        if r is None:
            raise mark(KeyError(name))
        return r

    def _pyvc_contains(self, name):
        return self.find(name) is not None

    def _pyvc_setitem(self, name, v):
        self._ctx.note_write(self, "items")
        self._own.append((name, v))

    def update(self, other):
        for k, v in dict(other).items():
            self._pyvc_setitem(k, v)

    def written(self):
        return len(self._own) > self._first

    def copy(self):
        return Styles(self._ctx, self._lookup, self._log, self._own)

    def __or__(self, other):
        r = self.copy()
        r.update(other)
        return r

    def _pyvc_truth(self):
        return True
