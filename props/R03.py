"""R03 export of every page, in order."""
import contextlib
import hashlib
import json
import os
import sys
import types

from pyvc.api import bounded, unit
from pyvc import decks


def make_pdf(widths):
    from PyPDF2 import PdfFileWriter
    f = os.path.join(decks.fresh_dir(), "e.pdf")
    wr = PdfFileWriter()
    for w in widths:
        wr.addBlankPage(width=w, height=7)
    with open(f, "wb") as fh:
        wr.write(fh)
    return f


def pages_of(f):
    """('svg', sha1) for exported pages, ('ext', width) for included ones."""
    from PyPDF2 import PdfFileReader
    out = []
    with open(f, "rb") as fh:
        r = PdfFileReader(fh)
        for i in range(r.getNumPages()):
            p = r.getPage(i)
            c = p.getContents()
            data = c.getData().decode("latin1") if c is not None else ""
            import re
            m = re.search(r"[0-9a-f]{40}", data)
            out.append(("svg", m.group(0)) if m else ("ext", int(p.mediaBox.getWidth())))
    return out


def sha(svg):
    return hashlib.sha1(svg.encode()).hexdigest()


@bounded("documents", "random decks of slides with fragments and included PDF files of 1-3 pages (the same file more than "
                      "once, equal slides), grids, selections; pages of the merged document, list of files and the "
                      "format of every export")
def documents(B):
    rng = B.rng
    for it in range(B.n(80, 1200)):
        d = decks.deck(width=100, height=80)
        ent = []
        pdfs = [make_pdf([10 + i for i in range(rng.randint(1, 3))]) for _ in range(2)]
        counts = [len(pages_of(p)) for p in pdfs]
        for i in range(rng.randint(1, 7)):
            if rng.random() < 0.3:
                k = rng.randint(0, 1)
                if rng.random() < 0.3:
                    # a path relative to the directory of that moment
                    with contextlib.chdir(os.path.dirname(pdfs[k])):
                        d.add_pdf(os.path.basename(pdfs[k]))
                else:
                    d.add_pdf(pdfs[k])
                ent.append(("pdf", k))
            else:
                s = d.new_slide()
                f = rng.randint(1, 3)
                c = rng.randint(0, 3)
                for j in range(1, f + 1):
                    s.box(show=j).rect(bg_color="c%d-%d" % (c, j % 2))
                ent.append(("slide", f))
        grid = rng.choice([None, None, (2, 1)])
        typ = rng.choice(["pdf", "pdf", "png", "svg"]) if all(e[0] == "slide" for e in ent) else "pdf"
        merge = rng.choice(["pypdf", None]) if typ == "pdf" else "pypdf"
        B.case((ent, grid, typ, merge))
        svgs = decks.svgs(d, slides_per_page=grid)
        want = []
        it_ = iter(ent)
        ext = [e[1] for e in ent if e[0] == "pdf"]
        for s in svgs:
            want.append(("svg", sha(s)) if s is not None else ("file", pdfs[ext.pop(0)]))
        out = os.path.join(decks.fresh_dir(), "o.pdf")
        with decks.quiet():
            files = d.render(out, export_type=typ, pdf_merger=merge, slides_per_page=grid,
                             prune_cache=rng.random() < 0.5)
        if typ == "pdf" and merge:
            flat = []
            for k, v in want:
                flat += [(k, v)] if k == "svg" else [("ext", 10 + i) for i in range(counts[pdfs.index(v)])]
            B.eq(pages_of(out), flat, "pages of the document")
        else:
            B.eq(len(files), len(want), "number of exported files")
            for f, (k, v) in zip(files, want):
                if k == "file":
                    B.eq(os.path.abspath(f), os.path.abspath(v), "included file")
                elif typ == "pdf":
                    B.eq(pages_of(f), [("svg", v)], "exported page")
                else:
                    data = open(f).read()
                    B.check(v in data and typ in data.lower(), "export of a page in the requested format", file=data[:80])
                B.check(k == "file" or f.endswith("." + typ), "extension of an exported file")


@bounded("cairo", "pages of the Cairo backend: number, order and size of the pages of the merged document, PNG files")
def cairo(B):
    from PIL import Image
    rng = B.rng
    for it in range(B.n(6, 60)):
        d = decks.deck(cairo=True, width=40, height=30)
        ext = make_pdf([11, 12])
        typ = rng.choice(["pdf", "png"])
        want = []
        for i in range(rng.randint(1, 4)):
            if typ == "pdf" and rng.random() < 0.3:
                d.add_pdf(ext)
                want += [11, 12]
            else:
                s = d.new_slide()
                s.box(width="100%", height="100%").rect(bg_color=(i / 10.0, 0.0, 0.0))
                want += [i]
        B.case((typ, want))
        out = os.path.join(decks.fresh_dir(), "o.pdf")
        with decks.quiet():
            files = d.render(out, export_type=typ)
        if typ == "pdf":
            B.eq([p[1] for p in pages_of(out)], [w if w > 10 else 30 for w in want], "page widths of the document")
        else:
            got = [round(Image.open(f).convert("RGB").getpixel((20, 15))[0] / 25.5) for f in files]
            B.eq(got, want, "pictures in order")


@bounded("postprocessing", "post-processing sees the root boxes of the selected slides, once, in order, before layout")
def postprocessing(B):
    rng = B.rng
    for it in range(B.n(30, 300)):
        d = decks.deck(width=100, height=80)
        roots = []
        for i in range(rng.randint(1, 5)):
            if rng.random() < 0.25:
                d.add_pdf(make_pdf([10]))
            roots.append(d.new_slide())
        sel = rng.choice([None, rng.sample(roots, rng.randint(1, len(roots)))])
        B.case((len(roots), sel and [roots.index(r) for r in sel]))
        seen = []

        def post(boxes):
            seen.append(list(boxes))
            for b in boxes:
                b.box(x=0, y=0, width=7, height="100%").rect(bg_color="POST")
        pages = decks.svgs(d, slide_postprocessing=post, select_slides=sel and [r.slide for r in sel])
        B.eq(len(seen), 1, "calls of the post-processing")
        want = sel if sel is not None else roots
        B.check(len(seen[0]) == len(want) and all(a is b for a, b in zip(seen[0], want)), "root boxes")
        for p in pages:
            if p is not None:
                e = [r for r in decks.parse(p).iter(decks.SVG + "rect") if "POST" in (r.get("style") or "")]
                B.eq([(float(r.get("width")), float(r.get("height"))) for r in e], [(7, 80)], "added box is laid out")


@bounded("failing", "exports that produce no file, unknown mergers, nothing to render: reported as errors; a deck can be "
                    "exported after the failure is gone")
def failing(B):
    for typ in ("pdf", "png"):
        for pos in range(3):
            B.case((typ, pos))
            d = decks.deck()
            for i in range(3):
                d.new_slide().rect(bg_color="FAIL-EXPORT" if i == pos else "ok")
            out = os.path.join(decks.fresh_dir(), "o.pdf")
            with decks.quiet():
                B.raises(lambda: d.render(out, export_type=typ), "export without a file")
    d = decks.deck()
    B.case("empty")
    with decks.quiet():
        B.raises(lambda: d.render("o.pdf"), "empty deck")
        d.new_slide()
        B.raises(lambda: d.render("o.pdf", pdf_merger="nope"), "unknown merger")
        B.raises(lambda: d.render("o.pdf", select_slides=[]), "empty selection")


PDFUNITE = """#!%s
import json, os, sys
d = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(d, "calls"), "a") as f:
    f.write(json.dumps(sys.argv[1:]) + "\\n")
if os.path.exists(os.path.join(d, "fail")):
    sys.exit(3)
with open(sys.argv[-1], "w") as f:
    f.write("united")
"""


@bounded("pdfunite", "documents united by the external tool (a stand-in that records its arguments): all pages in order, "
                     "equal pages and included files repeated, a failing tool is an error")
def pdfunite(B):
    rng = B.rng
    tool = decks.fresh_dir()
    exe = os.path.join(tool, "pdfunite")
    with open(exe, "w") as f:
        f.write(PDFUNITE % sys.executable)
    os.chmod(exe, 0o755)
    calls = os.path.join(tool, "calls")
    path = os.environ.get("PATH", "")
    os.environ["PATH"] = tool + os.pathsep + path
    try:
        for it in range(B.n(8, 80)):
            d = decks.deck(width=100, height=80)
            pdfs = [make_pdf([10]), make_pdf([11])]
            ent = []
            for i in range(rng.randint(1, 6)):
                k = rng.randint(0, 1)
                if rng.random() < 0.4:
                    d.add_pdf(pdfs[k])
                    ent.append("pdf%d" % k)
                else:
                    d.new_slide().rect(bg_color="c%d" % k)
                    ent.append("c%d" % k)
            B.case(ent)
            out = os.path.join(decks.fresh_dir(), "o.pdf")
            fail = rng.random() < 0.2
            if fail:
                open(os.path.join(tool, "fail"), "w").close()
            with decks.quiet():
                files = d.render(None, pdf_merger=None, prune_cache=False)
                if fail:
                    B.raises(lambda: d.render(out, pdf_merger="pdfunite"), "a failing merger")
                    os.remove(os.path.join(tool, "fail"))
                else:
                    d.render(out, pdf_merger="pdfunite")
                    B.check(os.path.isfile(out), "the document is not written")
            with open(calls) as f:
                got = [json.loads(line) for line in f]
            os.remove(calls)
            B.eq([[os.path.abspath(x) for x in a] for a in got], [[os.path.abspath(x) for x in files] + [out]],
                 "files that are united")
            B.eq([pages_of(x)[0][0] for x in files], ["ext" if e.startswith("pdf") else "svg" for e in ent], "pages")
    finally:
        os.environ["PATH"] = path


@bounded("pptx", "PowerPoint export (a stand-in of the library that records its calls): one blank slide per page, in order, "
                 "filled by the picture of the page; arguments of rendering are passed on")
def pptx(B):
    from elsie.ext.export import export_pptx
    rng = B.rng
    log = []

    class Shapes:
        def __init__(self):
            self.pics = []

        def add_picture(self, image_file, left, top, width=None, height=None):
            self.pics.append((image_file, left, top, width, height))

    class Layout:
        def __init__(self, name):
            self.name = name

    class Slides:
        def __init__(self):
            self.all = []

        def add_slide(self, layout):
            s = types.SimpleNamespace(layout=layout, shapes=Shapes())
            self.all.append(s)
            return s

    class Pres:
        slide_width, slide_height = 960, 720

        def __init__(self):
            self.slide_layouts = [Layout(n) for n in names]
            self.slides = Slides()

        def save(self, f):
            log.append((f, self))
    mod = types.ModuleType("pptx")
    mod.Presentation = Pres
    old = sys.modules.get("pptx")
    sys.modules["pptx"] = mod
    try:
        for it in range(B.n(8, 60)):
            names = rng.choice([["Title", "Blank", "X"], ["Blank"], ["Title", "Blank"]])
            d = decks.deck(width=100, height=80)
            slides = []
            for i in range(rng.randint(1, 4)):
                s = d.new_slide()
                for j in range(1, rng.randint(1, 3) + 1):
                    s.box(show=j).rect(bg_color="c%d-%d" % (rng.randint(0, 1), j))
                slides.append(s)
            sel = rng.choice([None, rng.sample(slides, rng.randint(1, len(slides)))])
            kw = {} if sel is None else {"select_slides": [s.slide for s in sel]}
            B.case((len(slides), sel and [slides.index(s) for s in sel], names))
            with decks.quiet():
                want = [(f, 0, 0, 960, 720) for f in d.render(None, export_type="png", prune_cache=False, **kw)]
                del log[:]
                export_pptx(d, "p.pptx", **kw)
            B.eq([f for f, _ in log], ["p.pptx"], "saved once")
            got = log[0][1].slides.all
            B.check(all(s.layout.name == "Blank" for s in got), "layout of a slide")
            B.eq([s.shapes.pics for s in got], [[w] for w in want], "pictures of the slides")
        names = ["Title"]
        with decks.quiet():
            B.raises(lambda: export_pptx(d, "p.pptx"), "no blank layout")
    finally:
        if old is None:
            del sys.modules["pptx"]
        else:
            sys.modules["pptx"] = old


# ------------------------------------------------------------------ proofs
@unit("rendering: every page is exported once, in order", functions=["SlideDeck.render"])
def u_render(ctx):
    from pyvc.values import mk_eq
    from props import _deck as D
    run = D.Run(ctx)
    merge = run.typ == "pdf" and not ctx.choose(2, "merger")
    run.I.sites.append("merged" if merge else "listed")
    try:
        r = run.render(pdf_merger="pdfunite" if merge else None if run.typ == "pdf" else "pypdf")
    except D.Rejected:
        return
    run.done()
    if merge:
        ctx.reach("merged")
        ctx.prove("one document is written", len(run.written) == 1)
        if len(run.written) == 1:
            ctx.prove("the document is the output", run.written[0][0] == "out.pdf")
            ctx.prove("the document has the export of every page, in order", mk_eq(run.written[0][1], run.pages()))
    else:
        ctx.reach("listed")
        ctx.prove("the list has the export of every page, in order", mk_eq(run.trace(r), run.pages()))
        ctx.prove("no document is written", not run.written)


class Shell:
    """the drawing program (R05)"""
    _pyvc_stub = True

    def __init__(self, log):
        self.log = log

    def convert_to_pdf(self, source, target, type):
        self.log.append((source, target, type))


@unit("a page is exported in the requested format, a missing file is an error",
      functions=["SvgRenderUnit.export", "export_by_inkscape", "ExportedRenderUnit.export", "ExternPdfSlide"])
def u_export(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from elsie.render.render import SvgRenderUnit
    from elsie.slides.slide import ExternPdfSlide
    I = Interp(ctx)
    if ctx.choose(2, "page"):
        I.models[os.path.abspath] = lambda I_, f: f
        name = ctx.str("file")
        s = I.call(ExternPdfSlide, (name,))
        u = I.call(s.make_render_unit, (None, 1, "pdf"))
        ctx.reach("included")
        ctx.prove("an included file is exported as it is", to_z3(I.call(u.export, (None, "pdf"))) == to_z3(name))
        ctx.prove("an included file has no drawing", I.call(u.get_svg) is None)
        ctx.prove("an included file is one page of the deck", I.call(s.steps) == 1)
        return
    svg, typ = ctx.str("svg"), ("pdf", "png", "svg")[ctx.choose(3, "type")]
    target = ctx.str("target")
    made, calls, exists = [], [], ctx.bool("the file is there")
    data = object()
    I.str_encode = lambda s: data
    I.models[os.path.isfile] = lambda I_, f: exists if f is target else I_.ctx.bool("other file")
    shell = Shell(calls)

    class Cache:
        _pyvc_stub = True

        def ensure(self, source, data_type, constructor, *a, **kw):
            ctx.prove("the page is exported from its drawing", source is encoded[0])
            ctx.prove("the page is exported in the requested format", data_type == typ)
            I.call(constructor, (source, target, data_type))
            return ("path", target)
    encoded = []

    def encode(s, *a):
        encoded.append(Bytes(s))
        return encoded[-1]
    ctx.str_hooks["encode"] = encode
    u = I.call(SvgRenderUnit, (None, 1, svg, shell))
    try:
        r = I.call(u.export, (Cache(), typ))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("failed")
        ctx.prove("only a missing file is an error", z3.Not(to_z3(exists)))
        return
    ctx.reach("exported")
    ctx.prove("a missing file is an error", exists)
    ctx.prove("the page is drawn once, to the place given, in the format given",
              len(calls) == 1 and calls[0][0] is encoded[0] and calls[0][1] is target and calls[0][2] == typ)
    ctx.prove("the bytes are those of the drawing", len(encoded) == 1 and encoded[0].text is svg)
    ctx.prove("the exported file is the one of the cache", r == ("path", target))


class Bytes:
    _pyvc_stub = True

    def __init__(self, text):
        self.text = text


@unit("mergers: the document has the files in the order they were added", functions=["ExternalMerger", "PyPdfMerger"])
def u_merge(ctx):
    import builtins
    import PyPDF2
    import subprocess
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, Measure, NotApplicable, RefKind, VList, VSeq, measure_states, mk_eq
    from props._box import ELEM, EXT, M, START, Z
    from elsie.render.pdfmerge import get_pdf_merger_by_name
    I = Interp(ctx)
    name = ("pypdf", "pdfunite", "other")[ctx.choose(3, "merger")]
    file_ = z3.Function("file", Z, ELEM)
    lit = z3.Function("argument", z3.StringSort(), ELEM)

    class File:
        _pyvc_stub = True

        def __init__(self, e):
            self.e = e

        def _pyvc_eq(self, o):
            return mk(self.e == o.e) if isinstance(o, File) else False
        _pyvc_is = _pyvc_eq
    rk = RefKind("file", ELEM, lambda v: (v.e, ()) if isinstance(v, File) else None, lambda e, x: File(e))

    def about(m):
        def step(get, x):
            if isinstance(x, File):
                return EXT(get(m), x.e)
            if type(x).__name__ in ("str", "SStr"):
                return EXT(get(m), lit(to_z3(x)))
            raise NotApplicable()
        return step
    ctx.measures["args"] = Measure("args", M, START, about("args"))
    output = ctx.str("output")
    n = ctx.int("n")
    base = Base(n, "files")
    begin = EXT(START, lit(z3.StringVal("pdfunite"))) if name == "pdfunite" else START
    ctx.measures["full"] = Measure("full", M, begin, about("full"))
    base.fold("args", M, START, lambda k, G: EXT(to_z3(G("args")), file_(k)))
    base.fold("full", M, begin, lambda k, G: EXT(to_z3(G("full")), file_(k)))
    ran, log = [], VList(tag="log")

    class Inner:
        _pyvc_stub = True

        def append(self, f, *a, **kw):
            I.list_method(log, "append", (f,), {})

        def write(self, f):
            ran.append((f.name, measure_states(log)["args"]))
            f.used.append(1)

    class Out:
        _pyvc_stub = True

        def __init__(self, name):
            self.name, self.used = name, []

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.used.append(2)

    def open_(I_, f, mode="r", *a, **kw):
        ctx.prove("the document is written", mode == "wb")
        return Out(f)
    I.models[builtins.open] = open_
    I.models[PyPDF2.PdfFileMerger] = lambda I_, *a, **kw: Inner()

    def check_call(I_, args, **kw):
        I_.list_method(log, "extend", (args,), {})
        ran.append((None, measure_states(log)["args"]))
        return 0
    I.models[subprocess.check_call] = check_call
    I.sites.append(name)
    try:
        m = I.call(get_pdf_merger_by_name, (name,))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("unknown")
        ctx.prove("only unknown mergers are rejected", name == "other")
        return
    ctx.prove("unknown mergers are rejected", name != "other")
    seq = VSeq(base, lambda k: rk.make(file_(k), ()))
    I.helper("h_foreach", seq, m.append)
    I.call(m.write, (output, bool(ctx.choose(2, "debug"))))
    ctx.reach("merged by %s" % name)
    ctx.prove("merged once", len(ran) == 1)
    if len(ran) == 1:
        if name == "pypdf":
            ctx.prove("merged into the output", ran[0][0] is output)
            want = base.G("args", base.n)
        else:
            want = EXT(to_z3(base.G("full", base.n)), lit(to_z3(output)))
        ctx.prove("all files in order", mk_eq(ran[0][1], want))


@unit("PowerPoint: one blank slide per page, in order, filled by its picture", functions=["export_pptx"])
def u_pptx(ctx):
    import z3
    from elsie.ext.export import export_pptx
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, Measure, NotApplicable, VList, VSeq, measure_states, mk_eq
    from props._box import ELEM, EXT, M, START
    I = Interp(ctx)
    S, Z = z3.StringSort(), z3.IntSort()
    pic = z3.Function("picture", S, ELEM)
    page = z3.Function("page", Z, S)
    pages = Base(ctx.int("pages"), "pages")
    ctx.assume(to_z3(pages.n) >= 0)
    pages.fold("pics", M, START, lambda k, G: EXT(to_z3(G("pics")), pic(page(k))))

    def about(get, x):
        if type(x).__name__ in ("str", "SStr"):
            return EXT(to_z3(get("pics")), pic(to_z3(x)))
        raise NotApplicable()
    ctx.measures["pics"] = Measure("pics", M, START, about)
    width, height = ctx.real("width"), ctx.real("height")
    log, saved, calls = VList(tag="log"), [], []
    name = ctx.str("name")

    class Layout:
        _pyvc_stub = True

        def __init__(self, name):
            self.name = name

    layouts = [Layout(n) for n in (["Title", "Blank", "X"], ["Blank", "X"], ["Title", "X"])[ctx.choose(3, "layouts")]]
    has = any(x.name == "Blank" for x in layouts)

    class Shapes:
        _pyvc_stub = True

        def __init__(self):
            self.used = 0

        def add_picture(self, image_file, left, top, width_=None, height_=None, **kw):
            width_, height_ = kw.pop("width", width_), kw.pop("height", height_)
            for got, want in ((left, 0), (top, 0), (width_, width), (height_, height)):
                ctx.prove("the picture fills the slide", got is not None and not kw and mk_eq(got, want))
            ctx.prove("one picture on a slide", self.used == 0)
            self.used += 1
            I.list_method(log, "append", (image_file,), {})

    class New:
        _pyvc_stub = True

        def __init__(self):
            self.shapes = Shapes()

    class Slides:
        _pyvc_stub = True

        def add_slide(self, layout):
            ctx.prove("a blank slide", layout.name == "Blank")
            return New()

    class Pres:
        _pyvc_stub = True
        slide_width, slide_height, slide_layouts, slides = width, height, layouts, Slides()

        def save(self, f):
            saved.append((f, measure_states(log)["pics"]))

    class Deck:
        _pyvc_stub = True

        def render(self, output="slides.pdf", return_units=False, export_type="pdf", **kw):
            ctx.prove("pages as pictures", export_type == "png" and return_units is False)
            ctx.prove("arguments are passed on", kw == {"prune_cache": False})
            calls.append(1)
            return VSeq(pages, lambda k: mk(page(k)))
    mod = types.ModuleType("pptx")
    mod.Presentation = Pres
    old = sys.modules.get("pptx")
    sys.modules["pptx"] = mod
    try:
        I.call(export_pptx, (Deck(), name), {"prune_cache": False})
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only presentations without blank slides are rejected", not has)
        return
    finally:
        if old is None:
            del sys.modules["pptx"]
        else:
            sys.modules["pptx"] = old
    ctx.reach("exported")
    ctx.prove("rendered and saved once", len(calls) == 1 and len(saved) == 1 and has)
    if len(saved) == 1:
        ctx.prove("saved under the name", saved[0][0] is name)
        ctx.prove("every page once, in order", mk_eq(saved[0][1], pages.G("pics", pages.n)))
