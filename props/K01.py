"""K01 Cairo paths."""
import math
from pyvc.api import bounded, unit
from pyvc import caps, decks
from elsie.render.backends.cairo.rcontext import CairoRenderingContext

NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


def svg_segments(cmds):
    """SVG semantics: list of subpaths of cubic segments"""
    subs = []
    cur = (0.0, 0.0)
    lc = lq = None

    def third(a, b):
        return ((a[0] + 2 * b[0]) / 3, (a[1] + 2 * b[1]) / 3)
    for c, pts in cmds:
        n = NARGS[c]
        for i in range(0, len(pts), n):
            a = pts[i:i + n]
            if c == "M" and i == 0:
                subs.append([])
                lc = lq = None
                cur = a[0]
            elif c in "ML":
                subs[-1].append((cur, None, None, a[0]))
                lc = lq = None
                cur = a[0]
            elif c in "CS":
                if c == "C":
                    c1, c2, p = a
                else:
                    c1 = (2 * cur[0] - lc[0], 2 * cur[1] - lc[1]) if lc else cur
                    c2, p = a
                subs[-1].append((cur, c1, c2, p))
                lc, lq, cur = c2, None, p
            else:
                if c == "Q":
                    q, p = a
                else:
                    q = (2 * cur[0] - lq[0], 2 * cur[1] - lq[1]) if lq else cur
                    p = a[0]
                subs[-1].append((cur, third(cur, q), third(p, q), p))
                lq, lc, cur = q, None, p
    return [s for s in subs if s]


def norm(subs):
    """Cairo leaves out empty segments and joins lines of one direction"""
    out = []
    for sub in subs:
        r = []
        for a in sub:
            ps = [p for p in a if p]
            if max(math.hypot(p[0] - ps[0][0], p[1] - ps[0][1]) for p in ps) < 0.02:
                continue
            if r and a[1] is None and r[-1][1] is None:
                u = (r[-1][3][0] - r[-1][0][0], r[-1][3][1] - r[-1][0][1])
                v = (a[3][0] - a[0][0], a[3][1] - a[0][1])
                if abs(u[0] * v[1] - u[1] * v[0]) < 0.02 * (math.hypot(*u) + math.hypot(*v)) \
                        and u[0] * v[0] + u[1] * v[1] > 0:
                    r[-1] = (r[-1][0], None, None, a[3])
                    continue
            r.append(a)
        if r:
            out.append(r)
    return out


def compare(B, got, want, tol, **data):
    got, want = norm(got), norm(want)
    B.eq([len(s) for s in got], [len(s) for s in want], "number of segments", **data)
    for g, w in zip(got, want):
        for a, b in zip(g, w):
            for t in (0, 0.2, 0.5, 0.8, 1):
                p, q = caps.at(a, t), caps.at(b, t)
                B.check(math.hypot(p[0] - q[0], p[1] - q[1]) < tol, "point of the curve", got=a, want=b, **data)


@bounded("curves", "random command lists of 1-9 commands (every command, 1-3 segments each, starting with a move): "
                   "every outline handed to Cairo compared with the SVG curve, fill and stroke, PDF and PNG, with and "
                   "without view box")
def curves(B):
    rng = B.rng
    for it in range(B.n(1500, 25000)):
        cmds = []
        n = rng.randint(1, 9)
        for i in range(n):
            c = "M" if i == 0 else rng.choice("MLCSQTCSQTST")
            pts = [(rng.randint(-40, 200), rng.randint(-40, 200)) for _ in range(NARGS[c] * rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.1 and cmds:
                pts[0] = cmds[-1][1][-1]
            cmds.append((c, pts))
        fmt = rng.choice(["pdf", "png"])
        vb = rng.choice([None, None, (10, -5, 50, 80)])
        B.case((cmds, fmt, vb))
        shadow = [(c, list(p)) for c, p in cmds]
        rc = CairoRenderingContext(120, 100, export_format=fmt, viewbox=vb)
        with caps.capture() as rec:
            bg = rng.choice([None, "blue"])
            rc.draw_path(cmds, color="red", bg_color=bg, stroke_width=2)
        B.check([(c, list(p)) for c, p in cmds] == shadow, "the command list is not modified")
        B.eq([o["op"] for o in rec.ops], (["fill"] if bg else []) + ["stroke"], "fill and stroke")
        want = svg_segments(cmds)
        k = 0.75 if fmt == "pdf" else 1
        s = 1
        ox = oy = 0
        if vb:
            s = min(120 / 50, 100 / 80)
            ox, oy = (120 - 50 * s) / 2 - 10 * s, (100 - 80 * s) / 2 + 5 * s
        f = lambda p: p and (k * (ox + s * p[0]), k * (oy + s * p[1]))
        want = [[tuple(f(p) for p in seg) for seg in sub] for sub in want]
        for o in rec.ops:
            compare(B, o["subs"], want, 0.05, op=o["op"])
        B.eq(rec.ops[-1]["rgb"], (1.0, 0, 0), "colour of the stroke")
        B.eq(rec.ops[-1]["width"], 2, "width of the stroke")


@bounded("slides", "random paths with relative points and end arrows through whole decks")
def slides(B):
    from elsie import Arrow
    rng = B.rng
    for it in range(B.n(60, 800)):
        d = decks.deck(cairo=True, width=300, height=200)
        b = d.new_slide().box(x=20, y=10, width=200, height=100)
        cmds, want = [], []
        for i in range(rng.randint(2, 5)):
            c = "M" if i == 0 else rng.choice("LCSQT")
            if i and i == 4:
                c = rng.choice("CSQ")
            ps = []
            for _ in range(NARGS[c]):
                x, y = rng.randint(0, 100), rng.randint(0, 100)
                ps.append(rng.choice([((x, y), (20 + x, 10 + y)), (("%d%%" % x, "%d%%" % y), (20 + 2 * x, 10 + y)),
                                      (b.p(x, y), (20 + x, 10 + y))]))
            cmds.append((c,) + tuple(p[0] for p in ps))
            want.append((c, [p[1] for p in ps]))
        B.case(want)
        b.path(cmds, color="red", stroke_width=3)
        with caps.capture() as rec:
            decks.units(d)
        w = [[tuple(p and (0.75 * p[0], 0.75 * p[1]) for p in seg) for seg in sub] for sub in svg_segments(want)]
        B.eq([o["op"] for o in rec.ops], ["stroke"], "one stroke")
        compare(B, rec.ops[0]["subs"], w, 0.05)


# ------------------------------------------------------------------ proofs
CACHE = {}


def state_sort():
    import z3
    if "sort" in CACHE:
        return CACHE["sort"]
    from props import _box as X
    from props._draw import R
    d = z3.Datatype("PathState")
    d.declare("state", ("tr", X.M), ("on", z3.BoolSort()), ("x", R), ("y", R), ("hc", z3.BoolSort()), ("cx", R),
              ("cy", R), ("hq", z3.BoolSort()), ("qx", R), ("qy", R))
    CACHE["sort"] = d.create()
    return CACHE["sort"]


class Curve:
    """the SVG rules: what one more segment adds, and the reflected control points"""

    def __init__(self, ctx, com):
        import z3
        from props import _box as X
        from props import _path as P
        from props._draw import R, S, Z, real
        self.ctx, self.com = ctx, com
        self.St = St = state_sort()
        GO, MV, LN = (z3.Function(n, X.M, R, R, X.M) for n in ("path_start", "path_move", "path_line"))
        CV = z3.Function("path_curve", X.M, R, R, R, R, R, R, X.M)
        self.init = St.state(X.START, False, 0, 0, False, 0, 0, False, 0, 0)
        self.RUN = z3.Function("segments_drawn", St, S, P.P, Z, St)
        self.done = set()
        from pyvc.values import Measure, NotApplicable
        kinds = {"start": GO, "move": MV, "line": LN, "curve": CV}

        def seg(get, e):
            if type(e) is not tuple or e[0] not in kinds:
                raise NotApplicable()
            return kinds[e[0]](get("path"), *[real(v) for v in e[1:]])
        ctx.measures["path"] = Measure("path", X.M, X.START, seg)

        def build(st, name, p, j):
            """the state after segment j of the command"""
            def pt(i):
                k = j * n + i
                return P.PX(p, k), P.PY(p, k)
            tr, cur = St.tr(st), (St.x(st), St.y(st))
            res = st
            for nm, n in NARGS.items():
                if nm in "ML":
                    (x, y), = [pt(0)]
                    line = LN(tr, x, y)
                    move = z3.If(St.on(st), MV(tr, x, y), GO(tr, x, y))
                    new = St.state(z3.If(j == 0, move, line) if nm == "M" else line, True, x, y, False, 0, 0, False, 0, 0)
                elif nm in "CS":
                    if nm == "C":
                        c1, c2, e = pt(0), pt(1), pt(2)
                    else:
                        c1 = [z3.If(St.hc(st), 2 * u - v, u) for u, v in zip(cur, (St.cx(st), St.cy(st)))]
                        c2, e = pt(0), pt(1)
                    new = St.state(CV(tr, *c1, *c2, *e), True, e[0], e[1], True, c2[0], c2[1], False, 0, 0)
                else:
                    if nm == "Q":
                        q, e = pt(0), pt(1)
                    else:
                        q = [z3.If(St.hq(st), 2 * u - v, u) for u, v in zip(cur, (St.qx(st), St.qy(st)))]
                        e = pt(0)
                    c1 = [(u + 2 * v) / 3 for u, v in zip(cur, q)]
                    c2 = [(u + 2 * v) / 3 for u, v in zip(e, q)]
                    new = St.state(CV(tr, *c1, *c2, *e), True, e[0], e[1], False, 0, 0, True, q[0], q[1])
                res = z3.If(name == z3.StringVal(nm), new, res)
            return res
        vs = (z3.Const("st!", St), z3.Const("name!", S), z3.Const("points!", P.P), z3.Const("j!", Z))
        if "step" not in CACHE:
            CACHE["step"] = build(*vs)
        self.step = lambda *a: z3.substitute(CACHE["step"], *zip(vs, a))
        self.afters = {}

    def run(self, st, name, p, j):
        import z3
        j = z3.simplify(j)
        t = self.RUN(st, name, p, j)
        key = t.sexpr()
        if key not in self.done:
            self.done.add(key)
            few = self.ctx.small()
            fs = CACHE.get((key, len(few)))
            if fs is None:
                fs = CACHE[(key, len(few))] = [self.RUN(st, name, p, z3.IntVal(0)) == st] + [
                    z3.Implies(x >= 0, self.RUN(st, name, p, x + 1) == self.step(self.RUN(st, name, p, x), name, p, x))
                    for x in [j, z3.simplify(j - 1)] + few]
            for f in fs:
                self.ctx.assume(f)
        return t

    def nums(self, st):
        S = self.St
        key = ("nums", st.sexpr())
        if key not in CACHE:
            CACHE[key] = self.nums_(st)
        return CACHE[key]

    def nums_(self, st):
        S = self.St
        return {"x": S.x(st), "y": S.y(st), "cx": S.cx(st), "cy": S.cy(st), "qx": S.qx(st), "qy": S.qy(st)}

    def bools(self, st):
        S = self.St
        key = ("bools", st.sexpr())
        if key not in CACHE:
            CACHE[key] = {"on": S.on(st), "hc": S.hc(st), "hq": S.hq(st)}
        return CACHE[key]

    def folds(self, base):
        """the state before command k"""
        import z3
        from pyvc.core import to_z3
        from props import _path as P
        com = self.com
        base.folds.clear()

        def after(k, G):
            key = k.sexpr()
            if key not in self.afters:
                self.afters[key] = after_(k, G)
            return self.afters[key]

        def after_(k, G):
            name, p = com.name(k), com.pts(k)
            cnt = P.COUNT(p)
            segs = cnt
            for nm, n in NARGS.items():
                if n > 1:
                    segs = z3.If(name == z3.StringVal(nm), cnt / n, segs)
            return self.run(to_z3(G("st")), name, p, segs)
        base.fold("st", self.St, self.init, after)

    def invariants(self, view, x, bases):
        """relations to the state after x commands, or in a loop within one command after x segments of it"""
        import z3
        from pyvc.core import to_z3
        from pyvc.interp import num
        k = self.ctx.cur_k.get("commands")
        out = []
        if x is None:
            return out
        if self.com.base in bases:
            st = to_z3(self.com.base.G("st", x))
        elif k is not None:
            st = self.run(to_z3(self.com.base.G("st", k)), self.com.name(k), self.com.pts(k), x)
        else:
            return out
        tr, nums, bools = self.St.tr(st), self.nums(st), self.bools(st)
        for key, d in view.items():
            lab = "%s.%s" % key if isinstance(key[1], str) else str(key)
            for comp, v in d.items():
                if num(v):
                    e = to_z3(v)
                    if z3.is_int(e):
                        continue
                    for n, f in nums.items():
                        out.append(("%s%s==segment %s" % (lab, comp, n), lambda e=e, f=f: e == f))
                elif isinstance(v, (bool,)) or z3.is_expr(getattr(v, "e", None)) and z3.is_bool(v.e):
                    for n, f in bools.items():
                        out.append(("%s%s==segment %s" % (lab, comp, n), lambda v=v, f=f: to_z3(v) == f))
                elif hasattr(v, "sort") and v.sort() == tr.sort():
                    out.append(("%s%s==segments" % (lab, comp), v == tr))
            isnone = z3.BoolVal(d.get("", 0) is None)
            for n, f in bools.items():
                out.append(("%s none==segment !%s" % (lab, n), lambda f=f, isnone=isnone: isnone == z3.Not(f)))
        return out


@unit("a filled path is the SVG curve of its commands", budget=240)
def u_fill(ctx):
    curve(ctx, "fill")


@unit("a stroked path is the SVG curve of its commands", budget=240)
def u_stroke(ctx):
    curve(ctx, "stroke")


def curve(ctx, kind):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.core import SStr
    from pyvc.interp import Interp
    from pyvc.values import VSeq, mk_eq
    from props import _cairo as C, _draw as D, _path as P
    I = Interp(ctx)
    com = P.Commands(I, ctx, D.Place(ctx))
    ctx.measures.clear()
    cur = Curve(ctx, com)
    cur.folds(com.base)
    ctx.invariants.append(cur.invariants)
    n = to_z3(com.n)

    def ok(k):
        return z3.And(P.accepted(com.name(k), P.COUNT(com.pts(k))),
                      z3.Implies(k == 0, z3.And(com.name(k) == z3.StringVal("M"), P.COUNT(com.pts(k)) >= 1)))

    def command(k):
        ctx.assume(z3.Implies(z3.And(k >= 0, k < n), ok(k)))
        return (SStr((com.name(k),)), com.lists.seq(com.pts(k), P.GIVEN, "list"))
    given = VSeq(com.base, command)
    rc, c = C.context(I, ctx)
    bg = D.text(ctx, "background") if kind == "fill" else None
    col = D.text(ctx, "colour") if kind == "stroke" else None
    width = ctx.real("stroke_width")
    ctx.assume(to_z3(width) > 0)
    I.call(rc.draw_path, (given,), dict(color=col, bg_color=bg, stroke_width=width))
    ctx.reach("drawn")
    ctx.prove("the commands are not modified", not given.mutated)
    want = (["fill"] if bg is not None else []) + (["stroke"] if col is not None else [])
    ctx.prove("fill and stroke as asked", [o["op"] for o in c.ops] == want)
    for o in c.ops:
        ctx.prove("the outline is the SVG curve", mk_eq(o["measures"]["path"], cur.St.tr(to_z3(com.base.G("st", n)))))
        ctx.prove("the outline is not distorted", o["m"] is C.IDENT)
        D.eq_nums(ctx, "the colour", o["rgb"], C.rgb(bg if o["op"] == "fill" else col))
        if o["op"] == "stroke":
            ctx.prove("the width", real(o["width"]) == real(width))
    ctx.prove("the graphics state is as before", not c.saved and c.m is C.IDENT)


def real(v):
    from props._draw import real
    return real(v)
