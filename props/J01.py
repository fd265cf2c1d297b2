"""J01 slides in notebooks."""
import base64
import json
import os
import re
import subprocess

from pyvc.api import bounded, unit
from pyvc import decks

NODE = r"""
const data = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = data.map(function (d) {
  const els = d.elements.map(e => ({c: e[0], up: e[1], style: {}, disabled: false, innerText: e[2], on: []}));
  for (const e of els) { e.addEventListener = function (n, f) { if (n === 'click') e.on.push(f); }; }
  function find(sel) {
    const comp = sel.trim().split(/\s+/).map(s => s.split('.').filter(x => x));
    const last = comp.pop();
    return els.filter(e => last.every(c => e.c.includes(c)) &&
                           comp.every(q => e.up.some(u => q.every(c => u.includes(c)))));
  }
  const document = {querySelector: s => find(s)[0] || null, querySelectorAll: s => find(s)};
  for (const s of d.scripts) { new Function('document', s)(document); }
  const state = () => ({
    shown: els.filter(e => e.c.includes('elsie-step') && e.style.display !== 'none').map(e => e.c),
    buttons: els.filter(e => e.c.includes('elsie-next') || e.c.includes('elsie-previous')).map(e => [e.c[0], e.disabled]),
    text: els.filter(e => e.c.includes('elsie-current-step')).map(e => e.innerText)});
  const states = [state()];
  for (const k of d.clicks) {
    const b = els.filter(e => e.c.includes(k[0]))[k[1]];
    if (!b.disabled) b.on.forEach(f => f());
    states.push(state());
  }
  return states;
});
console.log(JSON.stringify(out));
"""


def page_elements(tree):
    out = []
    for e in tree.iter():
        if isinstance(e.tag, str) and e.get("class"):
            out.append((e.get("class").split(), [a.get("class").split() for a in e.iterancestors() if a.get("class")],
                        (e.text or "").strip()))
    return out


@bounded("shown", "random slides with 1-5 fragments among others, as SVG and PNG: the fragments in the page, their order "
                  "and content, buttons and script (run by node with any clicks), the deck and its cache afterwards")
def shown(B):
    import lxml.html
    from elsie.render.jupyter import render_slide_html
    rng = B.rng
    runs, expect = [], []
    for it in range(B.n(25, 250)):
        earlier = decks.deck(width=100, height=80)
        earlier.new_slide().rect(bg_color="red")
        with decks.quiet():
            files = earlier.render(None, export_type="png")
        d = decks.deck(width=100, height=80, cache_dir=earlier.fs_cache.cache_dir)
        slides = []
        for i in range(rng.randint(1, 3)):
            s = d.new_slide()
            for k in range(rng.randint(1, 5)):
                s.rect(bg_color="#%02x%02x%02x" % (i, k, 7)) if k == 0 else s.box(
                    show="%d+" % (k + 1), width=10 + k, height=5).rect(bg_color="#%02x%02x%02x" % (i, k, 7))
            if rng.random() < 0.4:
                s.text("a < b & </div> \"c'")
            slides.append(s)
        before = [decks.svgs(d, select_slides=[s.slide]) for s in slides]
        with decks.quiet():
            files += d.render(None, export_type="png", prune_cache=False)
        i = rng.randrange(len(slides))
        fmt = rng.choice(["svg", "png", "box"])
        with decks.quiet():
            first = slides[0]
            html = (slides[i].box()._repr_html_() if rng.random() < 0.5 else slides[i].slide._repr_html_()) \
                if fmt == "box" else render_slide_html(slides[i].slide, fmt)
            slides[i].slide.steps()
        want = decks.svgs(d, select_slides=[slides[i].slide])
        n = len(want)
        B.case((len(slides), i, fmt, n))
        tree = lxml.html.fromstring(html)
        steps = tree.find_class("elsie-step")
        B.eq([sorted(e.get("class").split()) for e in steps], [sorted(["elsie-step", "step-%d" % (k + 1)])
                                                               for k in range(n)], "fragments in the page")
        for k, e in enumerate(steps):
            if fmt == "svg":
                B.eq(re.findall(r"#[0-9a-f]{6}", lxml.html.tostring(e).decode()), re.findall(r"#[0-9a-f]{6}", want[k]),
                     "content of fragment %d" % (k + 1))
                B.check(want[k] in html, "a page is not shown as it is")
            else:
                imgs = list(e.iter("img"))
                B.eq(len(imgs), 1, "one picture for a fragment")
                head, _, data = imgs[0].get("src").partition(",")
                B.eq(head.replace(" ", ""), "data:image/png;base64", "kind of the picture")
                with decks.quiet():
                    f = d.render(None, export_type="png", select_slides=[slides[i].slide], prune_cache=False)
                with open(f[k], "rb") as h:
                    B.check(base64.b64decode(data) == h.read(), "picture of fragment %d" % (k + 1))
        B.check(all(os.path.isfile(f) for f in files), "files of the deck are pruned")
        if fmt != "box":
            B.eq([decks.svgs(d, select_slides=[s.slide]) for s in slides], before, "the deck afterwards")
        scripts = [s.text or "" for s in tree.iter("script")]
        B.eq(bool(scripts), n > 1, "controls are there exactly if there are several fragments")
        els = page_elements(tree)
        if n == 1:
            B.check(not [c for c, _, _ in els if "elsie-next" in c], "controls of a single fragment")
            continue
        clicks = [rng.choice(["elsie-next", "elsie-previous", "elsie-next"]) for _ in range(8)]
        runs.append(dict(elements=els, scripts=scripts, clicks=[(c, 0) for c in clicks]))
        at, states = 1, [1]
        for c in clicks:
            at = min(n, at + 1) if c == "elsie-next" else max(1, at - 1)
            states.append(at)
        expect.append([(n, a) for a in states])
    # several slides in one notebook
    for (a, ea), (b, eb) in list(zip(zip(runs, expect), zip(runs[1:], expect[1:]))):
        clicks = [(c, i) for pair in zip(a["clicks"], b["clicks"]) for i, (c, _) in enumerate(pair)]
        runs.append(dict(elements=a["elements"] + b["elements"], scripts=a["scripts"] + b["scripts"], clicks=clicks))
        expect.append([(*ea[(k + 1) // 2], *eb[k // 2]) for k in range(len(clicks) + 1)])
    r = subprocess.run(["node", "-e", NODE], input=json.dumps(runs), capture_output=True, text=True)
    if r.returncode:
        B.fail("the script of the page fails: %s" % r.stderr[-300:])
    for states, got, run in zip(expect, json.loads(r.stdout), runs):
        B.case(run["clicks"])
        for state, g in zip(states, got):
            pages = [(state[i], state[i + 1]) for i in range(0, len(state), 2)]
            B.eq([sorted(c) for c in g["shown"]], [sorted(["elsie-step", "step-%d" % at]) for _, at in pages],
                 "the fragment that is shown")
            B.eq(sorted(map(str, g["buttons"])), sorted(str([c, e]) for n, at in pages for c, e in
                                                        [("elsie-next", at == n), ("elsie-previous", at == 1)]),
                 "disabled buttons")
            B.eq(g["text"], ["Fragment: %d" % at for _, at in pages], "the number that is shown")


@unit("a slide in a notebook: exactly the pages of that slide, in order, nothing pruned",
      functions=["get_slide_repr_steps"])
def u_steps(ctx):
    import builtins
    import z3
    from elsie.render import jupyter
    from pyvc.core import Unsupported, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Base, VSeq
    I = Interp(ctx)
    S, Z = z3.StringSort(), z3.IntSort()
    n = ctx.int("pages")
    ctx.assume(to_z3(n) >= 1)
    page = z3.Function("page", Z, S)
    enc = z3.Function("base64", S, S)
    pages = Base(n, "pages")
    kind = ("svg", "png")[ctx.choose(2, "format")]
    calls = []

    class Page:
        _pyvc_stub = True

        def __init__(self, k):
            self.svg = mk(page(k))

        def get_svg(self):
            return self.svg

    class Data:
        _pyvc_stub = True

        def __init__(self, e):
            self.e = e

        def decode(self, *a):
            return mk(self.e)

    class File:
        _pyvc_stub = True

        def __init__(self, name):
            self.name = name

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def read(self):
            return Data(z3.Function("content", S, S)(to_z3(self.name)))

    def open_(I_, f, mode="r", *a, **kw):
        ctx.prove("pictures are read as bytes", "b" in mode and "w" not in mode)
        return File(f)
    I.models[builtins.open] = open_
    for f in (base64.encodebytes, base64.b64encode, base64.standard_b64encode):
        I.models[f] = lambda I_, d: Data(enc(d.e))

    class Deck:
        _pyvc_stub = True

        def render(self, output="slides.pdf", return_units=False, export_type="pdf", pdf_merger="pypdf",
                   slide_postprocessing=None, prune_cache=True, save_cache=True, select_slides=None,
                   slides_per_page=None):
            ctx.prove("exactly that slide is rendered", isinstance(select_slides, (list, tuple)) and
                      len(select_slides) == 1 and select_slides[0] is slide)
            ctx.prove("other cached files stay", prune_cache is False)
            ctx.prove("pages stay single and as they are", slides_per_page is None and slide_postprocessing is None)
            ctx.prove("pages of the format", return_units is True if kind == "svg" else
                      not return_units and export_type == "png")
            calls.append(1)
            return VSeq(pages, Page if return_units else lambda k: mk(page(k)))

    class Slide:
        _pyvc_stub = True
        slides = Deck()
    slide = Slide()
    from pyvc.core import SStr
    from pyvc.values import VList, Measure, measure_states, mk_eq
    from props._box import ELEM, EXT, M, START
    shown = z3.Function("shown", S, ELEM)
    log = VList(tag="shown")

    def text(x):
        if kind == "svg":
            return to_z3(x)
        ps = [p for p in x.parts if not isinstance(p, str)] if isinstance(x, SStr) else []
        lit = [p for p in x.parts if isinstance(p, str)] if isinstance(x, SStr) else []
        if not (len(ps) == 1 and len(lit) == 2 and
                re.fullmatch(r"\s*<img [^>]*src=[\"']data:image/png;base64,\s*", lit[0]) and
                re.fullmatch(r"\s*[\"'][^<>]*/?>\s*", lit[1])):
            raise Unsupported("markup of a picture")
        return to_z3(ps[0])
    ctx.measures["shown"] = Measure("shown", M, START, lambda get, x: EXT(to_z3(get("shown")), shown(text(x))))
    want = (lambda k: page(k)) if kind == "svg" else lambda k: enc(z3.Function("content", S, S)(page(k)))
    pages.fold("shown", M, START, lambda k, G: EXT(to_z3(G("shown")), shown(want(k))))
    r = I.call(jupyter.get_slide_repr_steps, (slide, kind))
    ctx.prove("rendered once", len(calls) == 1)
    if len(calls) != 1:
        return
    if isinstance(r, VList):
        st = measure_states(r)
    else:
        I.helper("h_foreach", r, lambda x: I.list_method(log, "append", (x,), {}))
        st = measure_states(log)
    ctx.reach("listed")
    ctx.prove("every page once, in order", mk_eq(st["shown"], pages.G("shown", pages.n)))


@unit("the page of a slide shows its fragments, numbered in order; controls if there are several",
      functions=["render_slide_html", "get_javascript"])
def u_html(ctx):
    import z3
    from elsie.render import jupyter
    from pyvc.core import SStr, Unsupported, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.strs import SJoin
    from pyvc.values import Base, VList, VSeq, mk_eq, measure_states, Measure
    from props._box import ELEM, EXT, M, START
    I = Interp(ctx)
    S, Z = z3.StringSort(), z3.IntSort()
    n = ctx.int("pages")
    ctx.assume(to_z3(n) >= 1)
    page = z3.Function("page", Z, S)
    pages = Base(n, "pages")
    slide = object()
    kind = ("svg", "png")[ctx.choose(2, "format")]

    def steps(s, format):
        ctx.prove("the pages of that slide in that format", s is slide and format == kind)
        return VSeq(pages, lambda k: mk(page(k)))
    steps.__module__ = "props.J01"
    ctx.contracts["render.jupyter.get_slide_repr_steps"] = steps
    html = I.call(jupyter.render_slide_html, (slide, kind))
    ps = list(html.parts) if isinstance(html, SStr) else []
    joins = [p for p in ps if isinstance(p, SJoin)]
    if len(joins) != 1 or joins[0].sep.strip():
        raise Unsupported("markup of the page")
    div = z3.Function("fragment", Z, S, ELEM)
    pages.fold("divs", M, START, lambda k, G: EXT(to_z3(G("divs")), div(k + 1, page(k))))

    def fragment(get, x):
        q = list(x.parts) if isinstance(x, SStr) else []
        # literals with the number and the content between them
        ok = len(q) == 5 and [isinstance(p, str) for p in q] == [True, False, True, False, True]
        if not (ok and re.fullmatch(r"\s*<div class=([\"'])[\w -]*?\belsie-step\b[\w -]* step-", q[0]) and
                re.fullmatch(r"[\"'][^<>]*>\s*", q[2]) and re.fullmatch(r"\s*</div>\s*", q[4])):
            raise Unsupported("markup of a fragment")
        return EXT(to_z3(get("divs")), div(to_z3(q[1]), to_z3(q[3])))
    ctx.measures["divs"] = Measure("divs", M, START, fragment)
    log = VList(tag="divs")
    I.helper("h_foreach", joins[0].seq, lambda x: I.list_method(log, "append", (x,), {}))
    ctx.reach("page")
    ctx.prove("every fragment once, in order, with its number",
              mk_eq(measure_states(log)["divs"], pages.G("divs", pages.n)))
    around = "".join(p if isinstance(p, str) else "@" for p in ps)
    several = "<script" in around
    ctx.prove("controls exactly if there are several fragments", mk_eq(n, 1) if not several else to_z3(n) > 1)
    ctx.prove("buttons exactly if there is a script", ("elsie-next" in around) == several)
    if several:
        ctx.reach("controls")
        nums = [i for i, p in enumerate(ps) if not isinstance(p, (str, SJoin))]
        if len(nums) != 1 or not re.search(r"max_step\s*=\s*$", str(ps[nums[0] - 1])):
            raise Unsupported("the script of the page")
        ctx.prove("the script knows the number of fragments", mk_eq(ps[nums[0]], n))
        ids = set(re.findall(r"elsie-wrapper-[0-9a-f]+", around))
        ctx.prove("the script controls this page only", len(ids) == 1)
