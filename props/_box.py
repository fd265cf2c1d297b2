"""Shared harness of the box-tree units: real Box and BoxItem objects over a box with any number of children."""
import z3

from pyvc.core import Unsupported, mk, to_z3
from pyvc.interp import Interp, MList
from pyvc.values import Base, Measure, VSeq, mk_eq, seg_list

Z, B_ = z3.IntSort(), z3.BoolSort()
M = z3.DeclareSort("Trace")     # finite sequences of painted items, as an arbitrary fold
ELEM = z3.DeclareSort("Item")
EXT = z3.Function("then_paint", M, ELEM, M)
START = z3.Const("painted_before", M)


class Slide:
    """the slide of the box, as far as boxes use it"""
    _pyvc_stub = True

    def __init__(self, ctx, max_step):
        self.max_step = max_step
        ctx.register(self, "slide")

    def current_fragment(self):
        return self.max_step


class Show:
    """a parsed selector (proved in F01): its visibility and its highest fragment"""
    _pyvc_stub = True

    def __init__(self, vis, top, least=None):
        self.vis, self.top, self.least = vis, top, top if least is None else least

    def is_visible(self, step):
        return mk(self.vis(to_z3(step)))

    def max_step(self):
        return self.top

    def min_steps(self):
        return self.least


class Context:
    _pyvc_stub = True

    def __init__(self, step, debug):
        self.step, self.debug_boxes = step, debug


def trace(ctx, ident):
    ctx.measures["trace"] = Measure("trace", M, START, lambda get, x: EXT(get("trace"), ident(x)))


def bare_box(I, ctx, slide, show, styles=None, z_level=0, layout=None):
    from elsie.boxtree.box import Box
    return I.call(Box, (slide, layout, {} if styles is None else styles, show, z_level, None))


def rendered(ctx, backend_module, unit_attr, ctx_class, make):
    """create_render_unit: the painters of the slide, each rendered once, by z level, stable"""
    import importlib
    mod = importlib.import_module(backend_module)
    I = Interp(ctx)
    item = z3.Function("item", Z, ELEM)
    zf = z3.Function("z_level", Z, Z)
    q = ctx.fresh("some_level", Z)

    def z_of(x):
        return zf(x.k)
    ctx.measures["class"] = Measure("class", M, START, lambda get, x: mk(
        z3.If(z_of(x) == q, EXT(to_z3(get("class")), item(x.k)), to_z3(get("class")))))
    ctx.measures["any"] = Measure("any", B_, z3.BoolVal(False), lambda get, x: mk(z3.BoolVal(True)))
    ctx.measures["last"] = Measure("last", Z, z3.IntVal(0), lambda get, x: mk(z_of(x)))
    ctx.measures["ordered"] = Measure("ordered", B_, z3.BoolVal(True), lambda get, x: mk(
        z3.And(to_z3(get("ordered")), z3.Or(z3.Not(to_z3(get("any"))), to_z3(get("last")) <= z_of(x)))))

    def folds(base, at):
        base.fold("class", M, START, lambda k, G: z3.If(zf(at(k)) == q, EXT(to_z3(G("class")), item(at(k))),
                                                        to_z3(G("class"))))
        base.fold("any", B_, z3.BoolVal(False), lambda k, G: z3.BoolVal(True))
        base.fold("last", Z, z3.IntVal(0), lambda k, G: zf(at(k)))
        base.fold("ordered", B_, z3.BoolVal(True), lambda k, G: z3.And(
            to_z3(G("ordered")), z3.Or(z3.Not(to_z3(G("any"))), to_z3(G("last")) <= zf(at(k)))))

    n, step = ctx.int("n"), ctx.int("step")
    base = Base(n, "painters")
    folds(base, lambda k: k)
    from pyvc.values import VList
    log = VList(tag="drawn")

    class Painter:
        _pyvc_stub = True

        def __init__(self, k):
            self.k, self.z_level = k, mk(zf(k))

        def render(self, c):
            ctx.prove("an item is painted on the page of its fragment", c is box.made)
            I.list_method(log, "append", (self,), {})
            ctx.prove("an item is painted before the page is finished", not box.done)

    painters = MList(VSeq(base, Painter))

    def sort_hook(I, seq, key, reverse):
        """list.sort / sorted (library): stable, by increasing key"""
        if key is None or seq.base is not base or seq.rev or seq.guard is not None:
            raise Unsupported("sort")
        w = ctx.fresh("w", Z)
        v = I.call(key, (seq.at(w),))
        if not isinstance(v, type(mk(zf(w)))) or not ctx.valid(mk_eq(v, zf(w))) or I.truth(reverse):
            raise Unsupported("another sort key")
        b2 = Base(n, "sorted")
        perm = z3.Function("sorted_place", Z, Z)
        folds(b2, lambda k: perm(k))
        b2.at(b2.n)
        base.at(base.n)
        ctx.assume(mk_eq(b2.G("class", b2.n), base.G("class", base.n)))
        ctx.assume(to_z3(b2.G("ordered", b2.n)))
        ctx.assumptions.add("list.sort(key=...) is stable and sorts by increasing key")
        return VSeq(b2, lambda k: Painter(perm(k)))
    ctx.sort_hook = sort_hook

    class box:
        made, done = None, False
    debug = bool(ctx.choose(2, "debug"))

    class Root:
        _pyvc_stub = True

        def get_painters(self, c, d):
            ctx.prove("the items of that fragment are collected", c is box.made)
            return painters

    class TheSlide:
        _pyvc_stub = True
        view_box = None
        debug_boxes = debug
        _box = Root()

    class Page:
        _pyvc_stub = True
        debug_boxes = debug

        def render(self):
            box.done = True
            return "page"
    sl = TheSlide()

    def make_ctx(I_, *a, **kw):
        box.made = Page()
        st = kw.get("step", a[1] if len(a) > 1 else None)
        db = kw.get("debug_boxes", a[2] if len(a) > 2 else None)
        ctx.prove("the page is made for the fragment", mk_eq(st, step))
        ctx.prove("debug boxes as set for the slide", db is debug)
        return box.made
    I.models[getattr(mod, ctx_class)] = make_ctx
    backend = make(mod)
    unit = I.call(backend.create_render_unit, (sl, step, "pdf"))
    from pyvc.values import measure_states
    st = measure_states(log)
    ctx.reach("rendered")
    ctx.prove("every item once, those of a level in the order of the tree",
              mk_eq(st["class"], base.G("class", base.n)))
    ctx.prove("items by increasing z level", to_z3(st["ordered"]))
    ctx.prove("the page belongs to the slide", unit.slide is sl)
    ctx.prove("the page is that fragment", mk_eq(unit.step, step))
    return unit, box


class LayoutStub:
    """Layout.add (its padding and sizes are proved in L04, its place among the children in F04)"""
    _pyvc_stub = True

    def __init__(self, ctx, calls):
        self.calls = calls
        self.horizontal = bool(ctx.choose(2, "horizontal")) if ctx is not None else False

    def add(self, **kw):
        self.calls.append(kw)
        r = LayoutStub(None, [])
        r.parent, r.args = self, kw
        return r


def layout(ctx):
    return LayoutStub(ctx, [])


class Sel:
    """a selector text"""
    _pyvc_stub = True

    def __init__(self, top):
        self.top = top


def selectors(ctx, log=None):
    """ShowInfo.parse (F01): the selector of no text is every fragment; it gets the current fragment"""
    def parse(cls, obj, current_max=None):
        if log is not None:
            log.append((obj, current_max))
        if obj is None:
            return Show(lambda s: s >= 1, 1)
        if isinstance(obj, Sel):
            r = Show(lambda s: s >= 1, obj.top(current_max))
            r.sel = obj
            return r
        return NotImplemented
    parse.__module__ = "props._box"
    ctx.contracts["slides.show.ShowInfo.parse"] = parse
