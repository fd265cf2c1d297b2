"""Capture of what the Cairo backend hands to Cairo: device-space outlines of every fill and stroke."""
import contextlib
import math

import cairocffi

Ctx = cairocffi.Context


def dev(m, p):
    return m.transform_point(*p)


def segs(path, m):
    """copy_path() -> list of subpaths; each a list of cubic segments (p0, c1, c2, p1) in device space"""
    subs, cur, start = [], None, None
    for kind, c in path:
        if kind == cairocffi.PATH_MOVE_TO:
            start = cur = dev(m, c)
            subs.append([])
        elif kind == cairocffi.PATH_LINE_TO:
            p = dev(m, c)
            subs[-1].append((cur, None, None, p))
            cur = p
        elif kind == cairocffi.PATH_CURVE_TO:
            a, b, p = dev(m, c[0:2]), dev(m, c[2:4]), dev(m, c[4:6])
            subs[-1].append((cur, a, b, p))
            cur = p
        else:
            if cur != start and subs:
                subs[-1].append((cur, None, None, start))
            cur = start
    return [s for s in subs if s]


def at(seg, t):
    p0, a, b, p1 = seg
    if a is None:
        return (p0[0] + (p1[0] - p0[0]) * t, p0[1] + (p1[1] - p0[1]) * t)
    u = 1 - t
    return tuple(u * u * u * p0[i] + 3 * u * u * t * a[i] + 3 * u * t * t * b[i] + t * t * t * p1[i] for i in (0, 1))


def dense(sub, n=24):
    """points along a subpath"""
    out = [sub[0][0]]
    for s in sub:
        k = n if s[1] is not None else 4
        out += [at(s, i / k) for i in range(1, k + 1)]
    return out


def dist_seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    q = dx * dx + dy * dy
    t = 0 if q == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / q))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def one_way(ps, qs):
    worst = 0
    for p in ps:
        worst = max(worst, min(dist_seg(p, a, b) for a, b in zip(qs, qs[1:])))
    return worst


def hausdorff(ps, qs):
    if len(ps) < 2:
        ps = ps * 2
    if len(qs) < 2:
        qs = qs * 2
    return max(one_way(ps, qs), one_way(qs, ps))


class Rec:
    def __init__(self):
        self.ops = []


@contextlib.contextmanager
def capture(factory=None):
    """Record fill/stroke operations of every cairocffi context made by the code under test."""
    rec = Rec()
    saved = {n: getattr(Ctx, n) for n in ("fill", "stroke", "fill_preserve", "stroke_preserve")}

    def mk(n):
        def f(self, *a):
            m = self.get_matrix()
            d = {"op": n.split("_")[0], "subs": segs(self.copy_path(), m), "m": m.as_tuple(),
                 "width": self.get_line_width(), "dash": self.get_dash()[0], "ctx": self}
            src = self.get_source()
            d["rgb"] = src.get_rgba()[:3] if isinstance(src, cairocffi.SolidPattern) else None
            rec.ops.append(d)
            return saved[n](self, *a)
        return f
    for n in saved:
        setattr(Ctx, n, mk(n))
    try:
        yield rec
    finally:
        for n, f in saved.items():
            setattr(Ctx, n, f)
