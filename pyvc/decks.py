"""Concrete harness: decks on the real code with a stand-in for the Inkscape process."""
import contextlib
import io
import os
import re

import lxml.etree as et

import elsie
from elsie.render.backends import CairoBackend, InkscapeBackend
from elsie.render.inkscape import InkscapeShell

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "fake_inkscape.py")
NS = {"s": "http://www.w3.org/2000/svg"}
SVG = "{http://www.w3.org/2000/svg}"
CHAR = 0.5  # width of a character in the stand-in, times the font size

_shell = None


def shell():
    """One stand-in process per worker."""
    global _shell
    if _shell is None:
        _shell = InkscapeShell(FAKE)
    return _shell


_n = [0]


def fresh_dir(prefix="c"):
    _n[0] += 1
    d = os.path.abspath("%s%d-%d" % (prefix, os.getpid(), _n[0]))
    os.makedirs(d)
    return d


def deck(cairo=False, cache_dir=None, sh=None, **kw):
    cache_dir = cache_dir or fresh_dir()
    if cairo:
        backend = CairoBackend(cache_dir=cache_dir)
    else:
        backend = InkscapeBackend(sh or shell(), cache_dir=cache_dir)
    kw.setdefault("name_policy", "ignore")
    with quiet():
        d = elsie.SlideDeck(backend=backend, cache_dir=cache_dir, **kw)
    return d


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def units(d, **kw):
    kw.setdefault("prune_cache", False)
    kw.setdefault("save_cache", False)
    with quiet():
        return d.render(None, return_units=True, **kw)


def svgs(d, **kw):
    return [u.get_svg() for u in units(d, **kw)]


def parse(svg):
    return et.fromstring(svg.encode() if isinstance(svg, str) else svg)


def frect(box):
    """Final content rectangle of a box through the public dynamic coordinates."""
    x, y = box.x(0).eval(), box.y(0).eval()
    return (x, y, box.x("100%").eval() - x, box.y("100%").eval() - y)


class RecCtx(elsie.render.backends.rcontext.RenderingContext if hasattr(elsie, "render") else object):
    """Rendering context that records the drawing calls."""

    def __init__(self, step=1, debug_boxes=False):
        super().__init__(step, debug_boxes)
        self.calls = []

    def _rec(name):
        def f(self, *a, **k):
            self.calls.append((name, a, k))
        return f

    for _m in ("draw_rect", "draw_ellipse", "draw_polygon", "draw_polyline", "draw_path", "draw_text",
               "draw_bitmap", "draw_svg"):
        locals()[_m] = _rec(_m)


class RecBackend(InkscapeBackend):
    """Backend that returns recording contexts instead of pages."""


def nums(text):
    return [float(v) for v in re.findall(r"-?\d+(?:\.\d+)?(?:[eE]-?\d+)?", text)]


def style_of(e):
    return dict(p.split(":", 1) for p in (e.get("style") or "").split(";") if ":" in p)


def png_bytes(w=4, h=2, color=(255, 0, 0, 255), fmt="png"):
    from PIL import Image
    im = Image.new("RGBA" if fmt == "png" else "RGB", (w, h), color if fmt == "png" else color[:3])
    b = io.BytesIO()
    im.save(b, fmt)
    return b.getvalue()


def affine(s):
    """Matrix (a,b,c,d,e,f) of an SVG transform list."""
    import math
    import re
    m = (1, 0, 0, 1, 0, 0)

    def mul(p, q):
        return (p[0] * q[0] + p[2] * q[1], p[1] * q[0] + p[3] * q[1], p[0] * q[2] + p[2] * q[3],
                p[1] * q[2] + p[3] * q[3], p[0] * q[4] + p[2] * q[5] + p[4], p[1] * q[4] + p[3] * q[5] + p[5])
    for name, args in re.findall(r"(\w+)\(([^)]*)\)", s or ""):
        v = [float(x) for x in re.split(r"[ ,]+", args.strip())]
        if name == "translate":
            t = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif name == "scale":
            t = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif name == "rotate":
            a = math.radians(v[0])
            r = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0)
            if len(v) > 1:
                t = mul(mul((1, 0, 0, 1, v[1], v[2]), r), (1, 0, 0, 1, -v[1], -v[2]))
            else:
                t = r
        else:
            raise ValueError(name)
        m = mul(m, t)
    return m


def apply(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])
