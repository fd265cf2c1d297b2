"""G02 paths."""
import copy
import math
from pyvc.api import bounded, unit
from pyvc import decks
from props.G01 import rnd_arrow, head, close, check_head
from elsie import Arrow

NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


def read_path(dattr):
    """d attribute -> [(command, points)]"""
    import re
    out = []
    for m in re.finditer(r"([A-Za-z])([^A-DF-Za-df-z]*)", dattr):
        v = decks.nums(m.group(2))
        assert len(v) % 2 == 0
        out.append((m.group(1), list(zip(v[::2], v[1::2]))))
    return out


@bounded("paths", "random command lists of 1-7 commands with 1-3 segments each (fixed, relative and dynamic points, "
                  "tuples and lists), with and without end arrow, drawn once or twice")
def paths(B):
    rng = B.rng
    for it in range(B.n(500, 8000)):
        d = decks.deck(width=800, height=600)
        s = d.new_slide()
        bx, by, w, h = rng.randint(0, 300), rng.randint(0, 200), rng.randint(50, 400), rng.randint(50, 300)
        b = s.box(x=bx, y=by, width=w, height=h)
        last = [None]

        def point():
            while True:
                x, y = rng.choice([rng.randint(-50, 300), rng.uniform(0, 200)]), rng.randint(-50, 300)
                k = rng.randint(0, 3)
                if k == 0:
                    p, q = (x, y), (bx + x, by + y)
                elif k == 1:
                    px, py = rng.randint(0, 100), rng.randint(0, 100)
                    p, q = ("%d%%" % px, "%d%%" % py), (bx + w * px / 100, by + h * py / 100)
                elif k == 2:
                    p, q = b.p(x, y), (bx + x, by + y)
                else:
                    p, q = b.p("50%", 0).add(x, y), (bx + w / 2 + x, by + y)
                if last[0] is None or math.hypot(q[0] - last[0][0], q[1] - last[0][1]) > 1:
                    last[0] = q
                    return p, q
        arrow = rnd_arrow(rng) if rng.random() < 0.5 else None
        given, want = [], []
        n = rng.randint(1, 7)
        for i in range(n):
            c = "M" if i == 0 and rng.random() < 0.9 else rng.choice("MLCSQT")
            if arrow and i == n - 1:
                c = rng.choice("CSQT" if i else "CSQ")
            pts = [point() for _ in range(NARGS[c] * rng.choice([1, 1, 1, 2, 3]))]
            cmd = [c] + [p for p, _ in pts]
            given.append(tuple(cmd) if rng.random() < 0.7 else cmd)
            want.append((c, [q for _, q in pts]))
        shadow = [list(c) for c in given]
        kinds = [type(c) for c in given]
        kw = {}
        if rng.random() < 0.5:
            kw["stroke_width"] = rng.choice([2, 5])
        bg = rng.choice([None, "green"])
        times = rng.choice([1, 1, 2])
        for _ in range(times):
            b.path(given, color="red", bg_color=bg, end_arrow=arrow and arrow[0], **kw)
        B.case((want, arrow and arrow[1]))
        for rnd in range(rng.choice([1, 2])):
            page = decks.parse(decks.svgs(d)[0])
            els = [e for e in page.iter() if e.tag in tuple(decks.SVG + t for t in ("path", "polyline", "polygon"))]
            B.eq(len(els), times * (2 if arrow else 1), "path and head")
            for t in range(times):
                got = read_path(els[t * (2 if arrow else 1)].get("d"))
                exp = [(c, list(p)) for c, p in want]
                if arrow:
                    flat = [p for _, ps in want for p in ps]
                    frm, tip = flat[-2], flat[-1]
                    exp[-1][1][-1] = head(frm, tip, arrow[1])[2]
                B.eq([(c, len(p)) for c, p in got], [(c, len(p)) for c, p in exp], "commands")
                for (_, g), (_, e) in zip(got, exp):
                    B.check(all(close(x, y) for x, y in zip(g, e)), "points", got=got, want=exp)
                st = decks.style_of(els[t * (2 if arrow else 1)])
                B.eq((st.get("stroke"), st.get("fill"), float(st["stroke-width"])),
                     ("red", bg or "none", kw.get("stroke_width", 1)), "colours of the path")
                if arrow:
                    check_head(B, els[t * 2 + 1], frm, tip, arrow[1], "red")
        B.check([list(c) for c in given] == shadow and [type(c) for c in given] == kinds,
                "the given command list is not modified")


@bounded("validation", "every command with 1-8 points, unknown names and malformed commands, alone and behind a valid "
                       "command: accepted exactly if the number of points is a multiple of the command's")
def validation(B):
    d = decks.deck()
    for name in list("MLCSQTmlcsqtAHVZz") + ["", "MM", "ML", None, 1, ("M",)]:
        for n in range(1, 9):
            for pre in ([], [("M", (1, 1))]):
                s = d.new_slide()
                cmds = pre + [(name,) + tuple((i, i + 1) for i in range(n))]
                B.case((name, n, len(pre)))
                if name in NARGS and n % NARGS[name] == 0:
                    s.path(cmds)
                else:
                    B.raises(lambda: s.path(cmds), "invalid command", commands=cmds)
    for bad in ("M", 5, None, (), [], "", {"M": 1}):
        for pre in ([], [("M", (1, 1))]):
            B.case((bad, len(pre)))
            B.raises(lambda: d.new_slide().path(pre + [bad]), "malformed command", command=bad)
    for badp in ((1,), (1, 2, 3), 5, "ab%", ("x", 1), None):
        B.case(badp)
        B.raises(lambda: d.new_slide().path([("M", badp)]), "malformed point", point=badp)


# ------------------------------------------------------------------ proofs
class DrawLog:
    """a rendering context that keeps what is drawn"""
    _pyvc_stub = True

    def __init__(self, ctx):
        self._ctx, self.paths, self.log = ctx, [], []

    def draw_path(self, commands, **kw):
        from pyvc.values import measure_states
        self.log.append("path")
        self.paths.append((measure_states(commands), kw))


class ArrowStub:
    """an arrow (proved in G01)"""
    _pyvc_stub = True

    def __init__(self, ctx):
        import z3
        from props._draw import R
        self._ctx = ctx
        self.calls, self.drawn = [], []
        self.fx = z3.Function("shortened_x", R, R, R, R, R)
        self.fy = z3.Function("shortened_y", R, R, R, R, R)

    def moved(self, p1, p2):
        from props._draw import real
        a = [real(v) for v in (p1[0], p1[1], p2[0], p2[1])]
        return self.fx(*a), self.fy(*a)

    def move_end_point(self, p1, p2):
        from pyvc.core import mk
        return tuple(mk(v) for v in self.moved(p1, p2))

    def render(self, c, p1, p2, color):
        c.log.append("head")
        self.drawn.append((c, p1, p2, color))


@unit("paths: accepted commands are drawn as given")
def u_path(ctx):
    import z3
    from pyvc.core import PathEnd, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import mk_eq
    from props import _draw as D, _path as P, _box as X
    I = Interp(ctx)
    b = D.placed_box(I, ctx)
    com = P.Commands(I, ctx, b.layout)
    arrow = ArrowStub(ctx) if ctx.choose(2, "arrow") else None
    kw = dict(color=D.text(ctx, "colour"), bg_color=D.text(ctx, "background"), stroke_width=ctx.real("stroke_width"),
              stroke_dasharray=D.text(ctx, "dashes"))
    try:
        I.call(b.path, (com.given,), dict(kw, end_arrow=arrow))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        k = ctx.cur_k.get("commands")
        ctx.prove("only malformed commands are rejected",
                  z3.Or(z3.Not(to_z3(com.end("whole"))), z3.BoolVal(False) if k is None else z3.Not(com.ok(k))))
        return
    ctx.reach("accepted")
    ctx.prove("all commands are supported with whole multiples of their points", to_z3(com.end("whole")))
    ctx.prove("the given list is not modified", not com.given.mutated)
    b.layout.lay_out()
    if not b.children:
        ctx.reach("nothing to draw")
        ctx.prove("only an empty path draws nothing", to_z3(com.n) == 0)
        return
    ctx.prove("one item", len(b.children) == 1)
    n = to_z3(com.n)
    for again in range(1 + ctx.choose(2, "again")):
        c = DrawLog(ctx)
        I.sites.append("again%d" % again)
        try:
            I.call(b.children[0].render, (c,))
        except Exception as e:
            if not getattr(e, "_pyvc_prog", False):
                raise
            ctx.prove("an accepted path is drawn", arrow is not None)
            com.base.at(n - 1)
            com.base.at(n - 2)
            name, cnt = com.name(n - 1), P.COUNT(com.pts(n - 1))
            before = P.COUNT(com.pts(n - 2))
            bad = z3.Or(name == z3.StringVal("M"), name == z3.StringVal("L"), cnt == 0,
                        z3.And(cnt == 1, z3.Or(n < 2, before == 0)))
            ctx.prove("an end arrow needs a curve with a point before its end", bad)
            return
        ctx.prove("the path is drawn once", len(c.paths) == 1)
        got, how = c.paths[0]
        for k, v in kw.items():
            D.same(ctx, "the path is painted as asked", how.get(k), v)
        ctx.prove("no other options", set(how) <= set(kw))
        ctx.prove("all points are numbers", to_z3(got["resolved"]))
        if arrow is None:
            ctx.reach("path")
            ctx.prove("exactly the commands and points in order", mk_eq(got["drawn"], com.end("drawn")))
            ctx.prove("nothing else is drawn", c.log == ["path"])
            continue
        ctx.reach("path with an arrow")
        com.base.at(n - 1)
        com.base.at(n - 2)
        last = com.pts(n - 1)
        cnt = P.COUNT(last)

        def pt(p, j):
            return b.layout.px(P.PX(p, j)), b.layout.py(P.PY(p, j))
        prev = com.pts(n - 2)
        pc = P.COUNT(prev)
        p1 = [z3.If(cnt >= 2, x, y) for x, y in zip(pt(last, cnt - 2), pt(prev, pc - 1))]
        p2 = pt(last, cnt - 1)
        mx, my = arrow.moved(p1, p2)
        want = P.CMD(to_z3(com.base.G("drawn", n - 1)), com.name(n - 1), P.UPD(last, cnt - 1, mx, my))
        ctx.prove("only the last point is moved, along the direction from the point before", mk_eq(got["drawn"], want))
        ctx.prove("one head is drawn", c.log == ["path", "head"] and len(arrow.drawn) == again + 1)
        cc, q1, q2, col = arrow.drawn[again]
        D.eq_nums(ctx, "the head is at the original end", list(q1) + list(q2), list(p1) + list(p2))
        D.same(ctx, "the head has the colour of the path", col, kw["color"])
