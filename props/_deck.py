"""Shared harness of the deck units: SlideDeck.render over any number of slides and fragments."""
import z3

from pyvc import decks
from pyvc.core import Unsupported, mk, to_z3
from pyvc.interp import Interp
from pyvc.values import Base, Measure, NotApplicable, Rec, RefKind, VList, VSeq, measure_states, mk_eq, seg_list
from props._box import ELEM, EXT, M, START, Z, B_

PAGES = z3.Function("with_pages_of", Z, M, M)        # what was made before, then the pages of slide k
GROUPED = z3.Function("grouped", M, Z, Z, Z, Z, M)
PAGE = z3.Function("page", Z, Z, ELEM)
ROOT = z3.Function("root_box", Z, ELEM)


class Thing:
    """a page, the file it is exported to, or a root box"""
    _pyvc_stub = True

    def __init__(self, e, what):
        self.e, self.what = e, what

    def _pyvc_is(self, o):
        return mk(self.e == o.e) if isinstance(o, Thing) and o.what == self.what else False

    _pyvc_eq = _pyvc_is


class Run:
    """one call of SlideDeck.render"""

    def __init__(self, ctx, types=("pdf", "png"), grid=True):
        self.ctx = ctx
        self.I = I = Interp(ctx)
        run = self
        self.typ = types[ctx.choose(len(types), "export_type")]
        self.deck = d = decks.deck()
        d.debug = bool(ctx.choose(2, "debug"))
        n = ctx.int("n")
        self.slides = base = Base(n, "slides")
        need = z3.Function("pages_needed", Z, Z)
        self.is_slide = z3.Function("is_slide", Z, B_)
        RefKind("thing", ELEM, lambda v: (v.e, v.what) if isinstance(v, Thing) else None, self.thing)

        def about(what):
            def step(get, x):
                if not isinstance(x, Thing) or x.what not in what:
                    raise NotApplicable()
                return EXT(get("roots" if "root" in what else "trace"), x.e)
            return step
        ctx.measures["trace"] = Measure("trace", M, START, about(("page", "file")))
        ctx.measures["roots"] = Measure("roots", M, START, about(("root",)))
        base.fold("trace", M, START, lambda k, G: PAGES(k, to_z3(G("trace"))))
        base.fold("roots", M, START, lambda k, G: z3.If(self.is_slide(k), EXT(to_z3(G("roots")), ROOT(k)),
                                                        to_z3(G("roots"))))
        # whether an arbitrary slide was laid out
        self.q = ctx.fresh("some_slide", Z)
        self.ready = VList(tag="laid out")

        def laid(get, x):
            if not isinstance(x, SlideNo):
                raise NotApplicable()
            return mk(z3.Or(to_z3(get("ready")), x.k == self.q))
        ctx.measures["ready"] = Measure("ready", B_, z3.BoolVal(False), laid)
        base.fold("ready", B_, z3.BoolVal(False), lambda k, G: z3.Or(to_z3(G("ready")), k == self.q))
        base.induct("a slide before k was laid out", lambda k: base.folds["ready"][0](k) == z3.And(
            self.q >= 0, self.q < k))
        RefKind("slide number", Z, lambda v: (v.k, ()) if isinstance(v, SlideNo) else None, lambda e, x: SlideNo(e))
        self.posted = []
        self.saved = self.pruned = 0
        seen = {}

        class Slide_:
            _pyvc_stub = True

            def __init__(self, k):
                self.k = k

            def _pyvc_isinstance(self, t):
                from elsie.slides.slide import ExternPdfSlide, Slide
                if t is Slide:
                    return ctx.branch(run.is_slide(self.k))
                if t is ExternPdfSlide:
                    return not ctx.branch(run.is_slide(self.k))
                return t is object

            def box(self):
                ctx.prove("only slides have boxes", run.is_slide(self.k))
                return run.I.ctx.ref_kinds["thing"].make(ROOT(self.k), "root")

            def prepare(self):
                ctx.prove("post-processing is done before the layout", bool(run.posted) or not run.post)
                I.list_method(run.ready, "append", (SlideNo(self.k),), {})

            def steps(self):
                key = self.k.sexpr() if z3.is_expr(self.k) else str(self.k)
                ctx.assume(need(self.k) >= 1)
                if key not in seen:
                    k = self.k
                    r = Rec("pages", M, base.folds["trace"][0](k), lambda j, m: EXT(to_z3(m), PAGE(k, j + 1)))
                    # the definition of PAGES
                    ctx.assume(r.f(need(k)) == PAGES(k, base.folds["trace"][0](k)))
                    seen[key] = r
                return mk(need(self.k))

            def make_render_unit(self, backend, step, export_type):
                ctx.prove("the backend of the deck makes the pages", backend is d.backend)
                ctx.prove("pages are made in the requested format", run.same_type(export_type))
                ctx.prove("a slide is laid out before its pages are made",
                          z3.Implies(self.k == run.q, to_z3(measure_states(run.ready)["ready"])))
                return run.I.ctx.ref_kinds["thing"].make(PAGE(self.k, to_z3(step)), "page")
        self.seq = VSeq(base, Slide_)
        self.post = bool(ctx.choose(2, "post-processing"))
        self.selected = bool(ctx.choose(2, "selected"))
        self.grid = (ctx.int("columns"), ctx.int("rows")) if grid and ctx.choose(2, "grid") else None
        d._slides = VSeq(Base(ctx.int("others"), "other slides"), self.other) if self.selected else self.seq
        self.files = VList(tag="files")
        self.written = []
        self.merger_log = VList(tag="merged")

        class Merger:
            _pyvc_stub = True

            def append(self, f):
                I.list_method(run.merger_log, "append", (f,), {})

            def write(self, output, debug):
                run.written.append((output, measure_states(run.merger_log)["trace"]))

        def by_name(name):
            ctx.prove("the requested merger is used", name == "pdfunite")
            return Merger()
        by_name.__module__ = "props._deck"
        ctx.contracts["render.pdfmerge.get_pdf_merger_by_name"] = by_name

        def progress(self, *a, **kw):
            return None
        progress.__module__ = "props._deck"
        ctx.contracts["slides.slidedeck.SlideDeck._show_progress"] = progress

        def grouping(backend, units, cx, cy, w, h):
            """R02"""
            ctx.prove("grouping is asked for", run.grid is not None)
            if run.grid is None:
                raise Unsupported("grouping")
            ctx.prove("grid of the pages", z3.And(mk_eq(cx, run.grid[0]), mk_eq(cy, run.grid[1])))
            ctx.prove("size of the slides", z3.And(mk_eq(w, d.width), mk_eq(h, d.height)))
            ctx.prove("backend of the pages", backend is d.backend)
            t = run.trace(units)
            g = GROUPED(to_z3(t), to_z3(cx), to_z3(cy), to_z3(w), to_z3(h))
            return seg_list({"trace": lambda s: g}, shapes=[("ref", "thing", "page")])
        grouping.__module__ = "props._deck"
        ctx.contracts["render.render.per_page_grouping"] = grouping

        class Backend:
            """the deck's backend, as far as rendering a deck uses it"""
            _pyvc_stub = True

            def prune_cache(self):
                run.pruned += 1

            def save_cache(self):
                run.saved += 1
        d.backend = Backend()

        class Cache:
            _pyvc_stub = True
            cache_dir = "."

            def remove_unused(self):
                pass
        d.fs_cache = Cache()

    def other(self, k):
        raise Unsupported("a slide that is not selected")

    def same_type(self, t):
        return t == self.typ

    def thing(self, e, what):
        run, ctx = self, self.ctx
        t = Thing(e, what)
        if what == "page":
            def export(fs_cache, export_type):
                ctx.prove("pages are exported through the cache of the deck", fs_cache is run.deck.fs_cache)
                ctx.prove("pages are exported in the requested format", run.same_type(export_type))
                return ctx.ref_kinds["thing"].make(e, "file")
            t.export = export
            t.write_debug = lambda out_dir: None
        return t

    def trace(self, lst, name="trace"):
        """the sequence of the elements of a list"""
        if isinstance(lst, VList):
            return measure_states(lst)[name]
        log = VList(tag="elements")
        self.I.helper("h_foreach", lst, lambda x: self.I.list_method(log, "append", (x,), {}))
        return measure_states(log)[name]

    def postprocess(self, boxes):
        self.ctx.prove("post-processing gets the root boxes of the slides, in order",
                       mk_eq(self.trace(boxes, "roots"), self.slides.G("roots", self.slides.n)))
        self.posted.append(1)

    def render(self, **kw):
        if self.selected:
            kw["select_slides"] = self.seq
        if self.grid is not None:
            kw["slides_per_page"] = self.grid
        if self.post:
            f = self.postprocess
            kw["slide_postprocessing"] = f
        try:
            return self.I.call(self.deck.render, ("out.pdf",), dict(kw, export_type=self.typ))
        except Exception as e:
            if not getattr(e, "_pyvc_prog", False):
                raise
            self.ctx.reach("rejected")
            self.ctx.prove("only an empty selection is rejected", self.slides.n == 0)
            self.ctx.prove("nothing is written", not self.written)
            raise Rejected()

    def pages(self):
        """the pages to be made"""
        t = to_z3(self.slides.G("trace", self.slides.n))
        if self.grid is not None:
            t = GROUPED(t, to_z3(self.grid[0]), to_z3(self.grid[1]), to_z3(self.deck.width), to_z3(self.deck.height))
        return t

    def done(self):
        self.ctx.prove("an empty selection is rejected", self.slides.n > 0)
        self.ctx.prove("post-processing runs once", len(self.posted) == (1 if self.post else 0))


class SlideNo:
    _pyvc_stub = True

    def __init__(self, k):
        self.k = k


class Rejected(Exception):
    pass
