"""S01 style composition."""
import itertools
from pyvc.api import bounded, unit
from pyvc import decks
from elsie import TextStyle

FIELDS = {"font": ["f1", "f2"], "size": [10, 0, 12.5], "align": ["left", "right"], "line_spacing": [1.0, 0],
          "color": ["red", "", "#fff"], "bold": [True, False], "italic": [False, True],
          "variant_numeric": ["normal", "ordinal"], "opacity": [0.0, 0.5], "priority": [0, 3, -1]}


def vals(s):
    return {k: getattr(s, k) for k in FIELDS}


def rnd(rng, p=0.5):
    return {k: rng.choice(v) for k, v in FIELDS.items() if rng.random() < p}


def ref(a, b):
    out = {}
    for k in FIELDS:
        dflt = 0 if k == "priority" else None
        bv = b.get(k, dflt)
        out[k] = bv if bv is not None else a.get(k, dflt)
    return out


@bounded("compose", "random pairs of styles over all ten properties, including falsy values")
def compose(B):
    for it in range(B.n(3000, 40000)):
        a, b = rnd(B.rng), rnd(B.rng)
        B.case((a, b))
        sa, sb = TextStyle(**a), TextStyle(**b)
        va, vb = vals(sa), vals(sb)
        c = sa.compose(sb)
        B.eq(vals(c), ref(a, b), "composed style", a=a, b=b)
        B.check(c is not sa and c is not sb, "composing returns a new style")
        B.check(vals(sa) == va and vals(sb) == vb, "composing changes an operand", a=a, b=b)
        c.size = 77
        c.color = "zz"
        B.check(vals(sa) == va and vals(sb) == vb, "the composed style shares its values", a=a, b=b)
        sa.update(sb)
        B.eq(vals(sa), ref(a, b), "updated style", a=a, b=b)
        B.check(vals(sb) == vb, "update changes its argument", a=a, b=b)


@bounded("lookup", "named and full lookups on boxes, all results independent copies")
def lookup(B):
    for it in range(B.n(600, 8000)):
        d = decks.deck()
        a, b = rnd(B.rng), rnd(B.rng, 0.3)
        s = d.new_slide()
        s.set_style("n", TextStyle(**a))
        base = rnd(B.rng, 0.6)
        s.update_style("default", TextStyle(**base))
        dv = vals(s.get_style("default"))
        B.case((a, b, base))
        B.eq(vals(s.get_style("n")), ref({}, a), "style by name", a=a)
        full = s.get_style("n", full_style=True)
        B.eq(vals(full), ref(dv, a), "full style", a=a, default=dv)
        g = TextStyle(**b)
        B.eq(vals(s.get_style(g, full_style=True)), ref(dv, b), "full style of a given style", b=b)
        B.eq(vals(g), ref({}, b), "the given style is unchanged")
        B.eq(vals(s.get_style(g)), ref({}, b), "given style")
        for q in ("n", "default"):
            for fs in (False, True):
                x = s.get_style(q, full_style=fs)
                before = vals(s.get_style(q, full_style=fs))
                x.size = 999
                x.font = "changed"
                x.update(TextStyle(color="changed", bold=True))
                B.eq(vals(s.get_style(q, full_style=fs)), before, "a returned style is an independent copy", q=q)
    d = decks.deck()
    for bad in ("nope", "", None, 5, [], {"size": 3}):
        B.case(bad)
        B.raises(lambda: d.get_style(bad), "lookup of something that is not a style")
        B.raises(lambda: d.new_slide().text("x", style=bad), "text in something that is not a style")


WRONG = {"font": [5, b"x", ["a"], True], "size": ["5", [], (1,)], "align": ["center", 5, "", True],
         "line_spacing": ["1", {}], "color": [5, (1, 2, 3)], "bold": [1, 0, "yes", 0.0], "italic": ["", 1],
         "variant_numeric": ["foo", 3, ""], "opacity": ["0.5", []], "priority": [None, "1", []]}


@bounded("kinds", "values of the wrong kind for every property, by constructor and by assignment")
def kinds(B):
    for k, bad in WRONG.items():
        for v in bad:
            B.case((k, v))
            B.raises(lambda: TextStyle(**{k: v}), "wrong value accepted by the constructor", prop=k, value=v)
            for start in (rnd(B.rng, 0.7), {}):
                s = TextStyle(**start)
                before = vals(s)
                B.raises(lambda: setattr(s, k, v), "wrong value accepted", prop=k, value=v)
                B.eq(vals(s), before, "rejected value changed the style", prop=k, value=v)
    for k, good in FIELDS.items():
        for v in good + ([None] if k != "priority" else []):
            B.case((k, v, "ok"))
            s = TextStyle()
            setattr(s, k, v)
            B.check(getattr(s, k) is v or getattr(s, k) == v, "correct value", prop=k, value=v)
            others = {o: x for o, x in vals(s).items() if o != k}
            B.check(all(x is None or (o == "priority" and x == 0) for o, x in others.items()),
                    "setting one property changes another", prop=k)


# ------------------------------------------------------------------ proofs
def composed(ctx, how):
    from pyvc.interp import Interp
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    a, b = T.any_style(ctx, at, "a"), T.forked_style(ctx, at, "b")
    va, vb = T.fields(a, at), T.fields(b, at)
    r = I.call(getattr(a, how), (b,))
    ctx.reach(how)
    res = a if how == "update" else r
    T.same_style(ctx, "%s takes what the other style sets and keeps the rest" % how, T.fields(res, at),
                 {p: T.over(vb[p], va[p]) for p in at})
    T.same_style(ctx, "%s keeps the style given to it" % how, T.fields(b, at), vb)
    if how == "compose":
        ctx.prove("composing returns a new style", r is not a and r is not b and isinstance(r, TextStyle))
        T.same_style(ctx, "composing keeps the style", T.fields(a, at), va)


@unit("compose: all pairs of styles", functions=["TextStyle.compose", "TextStyle.update", "TextStyle.copy"])
def u_compose(ctx):
    composed(ctx, "compose")


@unit("update: all pairs of styles", functions=["TextStyle.update"])
def u_update(ctx):
    composed(ctx, "update")


@unit("reading a style back and copying it", functions=["TextStyle.__init__", "TextStyle.copy"])
def u_copy(ctx):
    from pyvc.interp import Interp
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    kind = ctx.choose(3, "what")
    if kind == 0:
        a = T.any_style(ctx, at, "a")
        va = T.fields(a, at)
        r = I.call(a.copy, ())
        ctx.reach("copied")
        ctx.prove("a copy is a new style", r is not a and isinstance(r, TextStyle))
        T.same_style(ctx, "a copy has the values", T.fields(r, at), va)
        T.same_style(ctx, "copying keeps the style", T.fields(a, at), va)
        return
    if kind == 1:
        a = T.any_style(ctx, at, "a")
        p = list(at)[ctx.choose(len(at), "property")]
        r = I.getattr(a, p)
        ctx.reach("read")
        ctx.prove("a property is read as it is stored", T.eq_value(r, getattr(a, at[p])))
        return
    ps = list(at)
    i = ctx.choose(len(ps) + 1, "which")
    kw = {p: T.value(ctx, p, p) for p in ps[i:i + 2]}
    a = I.call(TextStyle, (), kw)
    ctx.reach("made")
    T.same_style(ctx, "a new style has the given values and nothing else", T.fields(a, at),
                 {p: kw.get(p, 0 if p == "priority" else None) for p in ps})


ALLOWED = {"str": ("str",), "num": ("real", "int"), "int": ("int", "real"), "bool": ("bool",)}
KINDS = ("str", "real", "int", "bool", "none", "list", "bytes", "object")


@unit("a value of the wrong kind is rejected and changes nothing")
def u_kinds(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from props import _style as T
    I = Interp(ctx)
    at = T.slots()
    a = T.any_style(ctx, at, "a")
    va = T.fields(a, at)
    p = list(at)[ctx.choose(len(at), "property")]
    k = KINDS[ctx.choose(len(KINDS), "kind")]
    v = {"str": lambda: ctx.str("v"), "real": lambda: ctx.real("v"), "int": lambda: ctx.int("v"),
         "bool": lambda: ctx.bool("v"), "none": lambda: None, "list": lambda: ["left"], "bytes": lambda: b"left",
         "object": lambda: object()}[k]()
    f = T.FIELDS[p]
    if f in ("num", "int") and k == "bool":
        return
    if isinstance(f, tuple):
        if k in ("list", "bytes", "object"):
            ok = False
        elif k == "str":
            known = z3.Or(*[to_z3(v) == z3.StringVal(x) for x in f])
            ok = ctx.branch(known)
            if not ok and p == "variant_numeric":
                # both spellings of one keyword
                ctx.assume(z3.And(*[to_z3(v) != z3.StringVal("prop%snal-nums" % x) for x in ("orti", "ortio", "ortin")]))
        else:
            ok = k == "none"
    else:
        ok = k in ALLOWED[f] or k == "none" and p != "priority"
    try:
        I.setattr(a, p, v)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("a correct value of %s is accepted" % p, not ok)
        T.same_style(ctx, "a rejected value changes nothing", T.fields(a, at), va)
        return
    ctx.reach("accepted")
    ctx.prove("a wrong value of %s is rejected" % p, ok)
    T.same_style(ctx, "one property is set", T.fields(a, at), {q: v if q == p else va[q] for q in at})


@unit("lookup by name, of a style, with and without the default style",
      functions=["StyleContainer.get_style", "compose_style"])
def u_lookup(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from props import _style as T
    from elsie.text.stylecontainer import StyleContainer
    I = Interp(ctx)
    at = T.slots()
    T.compose_contract(ctx, at)
    default, named = T.any_style(ctx, at, "default"), T.any_style(ctx, at, "named")
    kind = ctx.choose(4, "argument")
    name = ctx.str("name")
    is_default, defined = to_z3(name) == z3.StringVal("default"), ctx.bool("defined")
    other = T.any_style(ctx, at, "given")

    def lookup(n):
        if ctx.branch(to_z3(n) == z3.StringVal("default")):
            return default
        if n is not name:
            raise T.Unsupported("lookup of another name")
        return named if ctx.branch(to_z3(defined)) else None
    before = {id(s): T.fields(s, at) for s in (default, named, other)}
    log = []
    styles = T.Styles(ctx, lookup, log)
    c = I.call(StyleContainer, (styles,))
    full = (None, False, True)[ctx.choose(3, "full_style")]
    arg = (name, other, None, {"size": 5})[kind]
    kw = {} if full is None else {"full_style": full}
    has = I.call(c.has_style, (name,)) if kind == 0 else None
    if has is not None:
        ctx.prove("has_style tells the defined names", has == mk_bool(z3.Or(is_default, to_z3(defined))))
    try:
        r = I.call(c.get_style, (arg,), kw)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only unknown names and other values are rejected",
                  z3.Not(z3.Or(is_default, to_z3(defined))) if kind == 0 else kind > 1)
        return
    ctx.reach("found")
    ctx.prove("unknown names and other values are rejected",
              z3.Or(is_default, to_z3(defined)) if kind == 0 else kind == 1)
    for s in (default, named, other):
        T.same_style(ctx, "a lookup keeps all styles", T.fields(s, at), before[id(s)])
        ctx.prove("a lookup returns an independent copy", r is not s)
    ctx.prove("a lookup defines no style", not any(m.written() for m in log) and c._styles is styles)
    d = before[id(default)]
    if kind == 0 and ctx.branch(is_default):
        want = d
    else:
        src = before[id(named if kind == 0 else other)]
        want = {p: T.over(src[p], d[p]) for p in at} if full else src
    ctx.prove("a style is returned", isinstance(r, TextStyle))
    T.same_style(ctx, "the style found", T.fields(r, at), want)


def mk_bool(e):
    from pyvc.core import mk
    return mk(e)
