"""R04 slides with equal names."""
import os
import sys
import types

from pyvc.api import bounded, unit
from pyvc import decks


def names(d):
    """(name, mark) of the slides in deck order, by rendering."""
    out = []
    for u in decks.units(d):
        if u.get_svg() is None:
            out.append("pdf")
        else:
            out.append(next(decks.style_of(e)["fill"] for e in decks.parse(u.get_svg()).iter(decks.SVG + "rect")))
    return out


@bounded("policies", "random sequences of named and unnamed slides, decorated slides and included PDF files under every "
                     "policy; the deck after every step, look-ups by name, refused names")
def policies(B):
    from props.R03 import make_pdf
    rng = B.rng
    ext = make_pdf([10])
    for it in range(B.n(150, 2500)):
        pol = rng.choice(["unique", "replace", "ignore", "auto"])
        d = decks.deck(name_policy=pol)
        eff = "ignore" if pol == "auto" else pol
        ref = []   # (name, mark)
        ops = []
        for k in range(rng.randint(1, 9)):
            op = rng.choice(["slide"] * 5 + ["deco", "pdf", "none", "bad"])
            nm = rng.choice(["a", "b", "c", ""])
            mark = "m%d" % k
            ops.append((op, nm))
            B.current = (pol, ops)
            if op == "pdf":
                d.add_pdf(ext)
                ref.append(("\0pdf", "pdf"))
                continue
            if op == "none":
                nm = None
            if op == "bad":
                nm = rng.choice([3, ("a",), b"a"])
                if eff != "ignore":
                    B.raises(lambda: d.new_slide(nm), "a name that is no string")
                else:
                    d.new_slide(nm).rect(bg_color=mark)
                    ref.append((nm, mark))
            else:
                have = [r for r in ref if r[0] == nm and nm is not None]
                bad = (eff == "unique" and have) or (eff == "replace" and nm is None)

                def make():
                    if op == "deco":
                        def fn(s):
                            s.rect(bg_color=mark)
                        fn.__name__ = nm or "fn"
                        return d.slide(nm if nm else None)(fn)
                    return d.new_slide(nm).rect(bg_color=mark)
                if op == "deco" and not nm:
                    nm = "fn"
                    have = [r for r in ref if r[0] == nm]
                    bad = eff == "unique" and have

                    def make():
                        def fn(s):
                            s.rect(bg_color=mark)
                        return d.slide()(fn)
                if bad:
                    B.raises(make, "a slide name the policy forbids")
                else:
                    make()
                    if eff == "replace":
                        ref = [r for r in ref if r[0] != nm]
                    ref.append((nm, mark))
            if ref:
                B.eq(names(d), [r[1] for r in ref], "slides of the deck")
            if eff != "ignore":
                for n in ("a", "b", "zz"):
                    s = d.get_slide_by_name(n)
                    B.eq(s is not None, any(r[0] == n for r in ref), "look-up by name")
                    if s is not None:
                        B.eq(s.name, n, "name of the slide found")
        B.case((pol, ops))


@bounded("auto", "the automatic policy with and without a notebook around")
def auto(B):
    def notebook(conf):
        m = types.ModuleType("IPython")

        class Ip:
            config = conf
        m.get_ipython = lambda: Ip() if conf is not None else None
        return m
    old = sys.modules.get("IPython")
    try:
        for conf, replace in (({"IPKernelApp": 1}, True), ({}, False), (None, False), ("missing", False)):
            B.case(str(conf))
            if conf == "missing":
                sys.modules["IPython"] = None
            else:
                sys.modules["IPython"] = notebook(conf)
            d = decks.deck(name_policy="auto")
            d.new_slide("a").rect(bg_color="1")
            d.new_slide("b").rect(bg_color="2")
            d.new_slide("a").rect(bg_color="3")
            B.eq(names(d), ["2", "3"] if replace else ["1", "2", "3"], "slides under the automatic policy")
            if replace:
                B.raises(lambda: d.new_slide(), "a slide without a name under 'replace'")
            else:
                d.new_slide().rect(bg_color="4")
                B.eq(len(names(d)), 4, "unnamed slide")
    finally:
        if old is None:
            sys.modules.pop("IPython", None)
        else:
            sys.modules["IPython"] = old
    for bad in ("Unique", "", None, 1):
        B.case(bad)
        B.raises(lambda: decks.deck(name_policy=bad), "unknown policy")


# ------------------------------------------------------------------ proofs
class Old:
    """a slide or an included file of the deck"""
    _pyvc_stub = True

    def __init__(self, run, e):
        self.run, self.e = run, e

    def _pyvc_isinstance(self, t):
        from elsie.slides.slide import ExternPdfSlide, Slide
        if t is Slide:
            return self.run.ctx.branch(self.run.is_slide(self.e))
        if t is ExternPdfSlide:
            return not self.run.ctx.branch(self.run.is_slide(self.e))
        return t is object

    @property
    def name(self):
        import z3
        from pyvc.core import SStr
        r = self.run
        return SStr((r.name(self.e),)) if r.ctx.branch(z3.And(r.is_slide(self.e), r.named(self.e))) else None

    def _pyvc_is(self, o):
        from pyvc.core import mk
        return mk(self.e == o.e) if isinstance(o, Old) else False

    _pyvc_eq = _pyvc_is


class Names:
    """a deck of any number of slides and included files, with the names its policy allows"""

    def __init__(self, ctx, policy):
        import z3
        from pyvc.core import Sym, mk, to_z3
        from pyvc.interp import Interp
        from pyvc.values import ForAll, Measure, NotApplicable, RefKind, seg_list
        from elsie.slides.slide import ExternPdfSlide, Slide
        from props._box import B_, ELEM, EXT, M, START, Z
        self.ctx, self.policy = ctx, policy
        self.I = Interp(ctx)
        S = z3.StringSort()
        self.is_slide = z3.Function("is_slide", ELEM, B_)
        self.named = z3.Function("has_name", ELEM, B_)
        self.name = z3.Function("name_of", ELEM, S)
        RefKind("old", ELEM, lambda v: (v.e, ()) if isinstance(v, Old) else None, lambda e, x: Old(self, e))
        self.q = ctx.str("some_name")        # any name
        self.new = ctx.str("new_name")
        NEW = z3.Const("new_item", ELEM)

        def has(x, t):
            """element x is a slide of name t"""
            if isinstance(x, Old):
                return z3.And(self.is_slide(x.e), self.named(x.e), self.name(x.e) == t)
            if isinstance(x, Slide):
                nm = x.name
                return to_z3(nm) == t if isinstance(nm, (str, Sym)) else z3.BoolVal(False)
            if isinstance(x, ExternPdfSlide):
                return z3.BoolVal(False)
            raise NotApplicable()

        def ident(x):
            return x.e if isinstance(x, Old) else NEW

        def add(name, sort, init, step):
            ctx.measures[name] = Measure(name, sort, init, step)
        for nm, t in (("q", to_z3(self.q)), ("new", to_z3(self.new))):
            add("count " + nm, Z, z3.IntVal(0), lambda get, x, nm=nm, t=t: mk(
                to_z3(get("count " + nm)) + z3.If(has(x, t), 1, 0)))
            ctx.measures["count " + nm].undo = lambda s, x, t=t: mk(to_z3(s) - z3.If(has(x, t), 1, 0))
            add("some " + nm, B_, z3.BoolVal(False), lambda get, x, nm=nm, t=t: mk(
                z3.Or(to_z3(get("some " + nm)), has(x, t))))
        add("others", M, START, lambda get, x: z3.If(has(x, to_z3(self.new)), get("others"), EXT(get("others"), ident(x))))
        add("all", M, START, lambda get, x: EXT(get("all"), ident(x)))
        ctx.measures["named"] = ForAll("named", lambda x: z3.Implies(
            z3.And(self.is_slide(x.e), z3.BoolVal(policy == "replace")), self.named(x.e)) if isinstance(x, Old)
            else z3.BoolVal(policy != "replace" or x.name is not None or not isinstance(x, Slide)))
        self.st = {m.name: ctx.fresh("deck_" + m.name.replace(" ", "_"), m.sort) for m in ctx.measures.values()}
        st = self.st
        ctx.assume(st["named"])
        for nm in ("q", "new"):
            ctx.assume(st["some " + nm] == (st["count " + nm] > 0))
            ctx.assume(st["count " + nm] >= 0)
            if policy != "ignore":
                ctx.assume(st["count " + nm] <= 1)
        ctx.assume(z3.Implies(to_z3(self.q) == to_z3(self.new), st["count q"] == st["count new"]))
        ctx.assume(z3.Implies(z3.Not(st["some new"]), st["others"] == st["all"]))
        self.deck = decks.deck(name_policy=policy)
        self.EXT, self.NEW = EXT, NEW
        self.list = seg_list({m.name: lambda s, m=m: st[m.name] for m in ctx.measures.values()},
                             shapes=[("ref", "old", ())])
        ctx.assume(z3.Implies(self.list.abs.length == 0, z3.And(
            *[st[m.name] == to_z3(m.init) if not z3.is_expr(m.init) else st[m.name] == m.init
              for m in ctx.measures.values()])))
        self.deck._slides = self.list

    def lemmas(self):
        """a name met in the list is a name of the list"""
        import z3
        from pyvc.core import to_z3
        seq = getattr(self.list, "seq", None)
        k = self.ctx.cur_k.get(seq[1].base.label) if seq else None
        if k is None:
            return
        b = seq[1].base
        some, count = b.folds["some new"][0], b.folds["count new"][0]
        b.induct("numbers of names", lambda j: z3.And(count(j) >= 0, some(j) == (count(j) > 0)), at=(k, k + 1))
        b.at(k)
        b.induct("a name in use stays in use", lambda j: z3.Implies(z3.And(j > k, some(k + 1)), some(j)))

    def states(self):
        from pyvc.core import to_z3
        from pyvc.values import NA, measure_states
        return {k: v if v is NA else to_z3(v) for k, v in measure_states(self.deck._slides).items()}

    def same(self, name):
        """the states of the list are those at the start"""
        import z3
        from pyvc.values import NA
        s = self.states()
        return z3.BoolVal(False) if s[name] is NA else s[name] == self.st[name]


@unit("a new slide: kept, refused or put in the place of the one of its name, by the policy",
      functions=["SlideDeck.new_slide", "SlideDeck.slide", "SlideDeck._apply_name_policy", "SlideDeck.get_slide_by_name"])
def u_policy(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.values import NA
    from elsie.slides.slide import Slide
    policy = ("ignore", "unique", "replace")[ctx.choose(3, "policy")]
    r = Names(ctx, policy)
    r.I.sites.append(policy)
    st = r.st
    kind = ("name", "none", "number", "decorated", "file")[ctx.choose(5, "kind")]
    name = {"name": r.new, "none": None, "number": 3, "decorated": r.new}.get(kind)
    drawn = []

    def fn(b, *a):
        drawn.append((b, a))
    fn.__module__ = "props.R04"
    try:
        if kind == "file":
            r.I.models[os.path.abspath] = lambda I_, f: f
            r.I.call(r.deck.add_pdf, ("x.pdf",))
        elif kind == "decorated":
            s = r.I.call(r.I.call(r.deck.slide, (name,)), (fn, 1))
        else:
            b = r.I.call(r.deck.new_slide, (name,))
            s = b.slide
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("refused")
        r.lemmas()
        ctx.prove("a name is refused only if the policy forbids it", kind != "file" and policy != "ignore")
        if name is r.new:
            ctx.prove("only a name in use is refused", z3.And(z3.BoolVal(policy == "unique"), st["some new"]))
        elif name is None:
            ctx.prove("only 'replace' needs names", policy == "replace")
        ctx.prove("a refused slide leaves the deck as it was", r.same("all"))
        ctx.prove("nothing is drawn on a refused slide", not drawn)
        return
    ctx.reach("%s %s" % (policy, kind))
    r.lemmas()
    end = r.states()
    last = list.__getitem__(r.deck._slides, -1) if list.__len__(r.deck._slides) else None
    if kind == "file":
        ctx.prove("an included file is put last", getattr(last, "filename", None) == "x.pdf")
        ctx.prove("the others stay", end["all"] == r.EXT(st["all"], r.NEW))
        return
    ctx.prove("the new slide is put last", isinstance(last, Slide) and last is s)
    ctx.prove("the slide has its name", last.name is name)
    if kind == "decorated":
        ctx.prove("the function draws on the slide, once", len(drawn) == 1 and drawn[0][0] is s.box() and drawn[0][1] == (1,))
    ctx.prove("a slide that is no string is refused", kind != "number" or policy == "ignore")
    ctx.prove("a slide without a name is refused by 'replace'", kind != "none" or policy != "replace")
    if policy == "replace":
        for k in ("others", "count new", "count q"):
            ctx.prove("the deck is followed", end[k] is not NA)
            if end[k] is NA:
                return
        ctx.prove("the slides of other names stay, in order", end["others"] == st["others"])
        ctx.prove("the new slide is the only one of its name", end["count new"] == 1)
        ctx.prove("names stay unique", end["count q"] <= 1)
        return
    ctx.prove("all slides stay, in order", z3.BoolVal(False) if end["all"] is NA else end["all"] == r.EXT(st["all"], r.NEW))
    if policy == "unique":
        ctx.prove("names stay unique", z3.And(end["count q"] <= 1, end["count new"] <= 1))
        if name is not None:
            ctx.prove("a name in use is refused", z3.Not(st["some new"]))


@unit("look-up by name finds a slide of the name exactly if there is one", functions=["SlideDeck.get_slide_by_name"])
def u_lookup(ctx):
    import z3
    from pyvc.core import to_z3
    r = Names(ctx, ("ignore", "unique", "replace")[ctx.choose(3, "policy")])
    x = r.I.call(r.deck.get_slide_by_name, (r.new,))
    if x is None:
        ctx.reach("none")
        ctx.prove("there is no slide of the name", z3.Not(r.st["some new"]))
        return
    ctx.reach("found")
    ctx.prove("a slide of the deck", isinstance(x, Old))
    ctx.prove("a slide of the name", z3.And(r.is_slide(x.e), r.named(x.e), r.name(x.e) == to_z3(r.new)))
    ctx.prove("the deck stays", r.same("all"))


@unit("the automatic policy", functions=["SlideDeck.__init__"])
def u_auto(ctx):
    import elsie
    from pyvc.interp import Interp
    I = Interp(ctx)
    inside = bool(ctx.choose(2, "notebook"))

    def notebook():
        return inside
    notebook.__module__ = "props.R04"
    ctx.contracts["render.jupyter.is_inside_notebook"] = notebook
    given = ("auto", "unique", "ignore", "replace", "other", None)[ctx.choose(6, "policy")]

    def backend(*a, **kw):
        return object()
    backend.__module__ = "props.R04"
    try:
        d = I.call(elsie.SlideDeck, (), dict(name_policy=given, backend=decks.deck().backend))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("refused")
        ctx.prove("only unknown policies are refused", given in ("other", None))
        return
    ctx.reach("policy")
    ctx.prove("unknown policies are refused", given not in ("other", None))
    want = given if given != "auto" else "replace" if inside else "ignore"
    ctx.prove("the policy in force", d.name_policy == want)
