"""Independent reference of the layout rules (L01-L06), written from the property statements.

A tree is a dict: size/position arguments as given to .box(), 'kids', optional 'text' lines.
Sizes: None | number | "N" | "N%" | "fill" | "fill(N)" | ("dyn", path, axis, value, add)
Positions: None | number | "N" | "N%" | "[N%]" | ("dyn", ...)
A dyn reference points to an earlier box of the tree (path = list of child indices)."""
from . import decks


def pads(n):
    def pick(*names):
        for k in names:
            if n.get(k) is not None:
                return n[k]
        return 0
    return (pick("p_left", "p_x", "padding"), pick("p_right", "p_x", "padding"),
            pick("p_top", "p_y", "padding"), pick("p_bottom", "p_y", "padding"))


def size_kind(v):
    if v is None:
        return ("min", 0.0)
    if isinstance(v, (int, float)):
        return ("min", v)
    if isinstance(v, tuple):
        return ("dyn", v)
    if v == "fill":
        return ("fill", 1)
    if v.startswith("fill("):
        return ("fill", int(v[5:-1]))
    if v.endswith("%"):
        return ("ratio", int(v[:-1]) / 100)
    return ("min", float(v))


def pos_kind(v):
    if v is None:
        return None
    if isinstance(v, (int, float)):
        return ("px", v)
    if isinstance(v, tuple):
        return ("dyn", v)
    if v.startswith("["):
        return ("align", int(v[1:-2]) / 100)
    if v.endswith("%"):
        return ("pct", int(v[:-1]) / 100)
    return ("px", float(v))


TEXT_SIZE = 28
LINE = 28 * 1.20


def request(n):
    """(width, height) the box asks for"""
    out = []
    main = 0 if n.get("horizontal") else 1
    l, r, t, b = pads(n)
    pad = (l + r, t + b)
    for ax in (0, 1):
        pos = "xy"[main]
        stacked = [request(c)[ax] for c in n["kids"] if c.get(pos) is None]
        inner = (sum(stacked) if ax == main else max(stacked)) if stacked else 0
        own = size_kind(n.get(("width", "height")[ax]))
        want = max(own[1] if own[0] == "min" else 0, inner + pad[ax])
        if n.get("text"):
            lines = n["text"]
            cont = max(len(s) for s in lines) * TEXT_SIZE * decks.CHAR if ax == 0 else len(lines) * LINE
            want = max(want, cont + pad[ax])
        out.append(want)
    return tuple(out)


def ref_eval(root, d):
    _, path, axis, value, add = d
    n = root
    for i in path:
        n = n["kids"][i]
    rect = n["_rect"]
    o, ext = (rect[0], rect[2]) if axis == "x" else (rect[1], rect[3])
    k = pos_kind(value)
    if k[0] == "px":
        v = o + k[1]
    else:  # percentage
        v = o + ext * k[1]
    return v + add


def layout(root, n, rect):
    l, r, t, b = pads(n)
    rect = (rect[0] + l, rect[1] + t, rect[2] - l - r, rect[3] - t - b)
    n["_rect"] = rect
    main = 0 if n.get("horizontal") else 1
    cross = 1 - main
    ext = (rect[2], rect[3])
    org = (rect[0], rect[1])
    stacked = [c for c in n["kids"] if c.get("xy"[main]) is None]
    used, weights = 0, 0
    for c in stacked:
        k = size_kind(c.get(("width", "height")[main]))
        rq = request(c)[main]
        if k[0] == "fill":
            weights += k[1]
        elif k[0] == "ratio":
            used += max(rq, k[1] * ext[main])
        else:
            used += rq
    if weights:
        share = (ext[main] - used) / weights
        cursor = org[main]
    else:
        share = 0
        cursor = org[main] + (ext[main] - used) / 2
    for c in n["kids"]:
        size = [0, 0]
        rq = request(c)
        for ax in (0, 1):
            k = size_kind(c.get(("width", "height")[ax]))
            if k[0] == "fill":
                size[ax] = k[1] * share if ax == main else ext[ax]
            elif k[0] == "ratio":
                size[ax] = max(rq[ax], k[1] * ext[ax])
            elif k[0] == "dyn":
                size[ax] = ref_eval(root, k[1])
            else:
                size[ax] = rq[ax]
        pos = [0, 0]
        for ax in (0, 1):
            k = pos_kind(c.get("xy"[ax]))
            if k is None:
                if ax == main:
                    pos[ax] = cursor
                    cursor += size[ax]
                else:
                    pos[ax] = org[ax] + (ext[ax] - size[ax]) / 2
            elif k[0] == "px":
                pos[ax] = org[ax] + k[1]
            elif k[0] == "pct":
                pos[ax] = org[ax] + ext[ax] * k[1]
            elif k[0] == "align":
                pos[ax] = org[ax] + (ext[ax] - size[ax]) * k[1]
            else:
                pos[ax] = ref_eval(root, k[1])
        layout(root, c, (pos[0], pos[1], size[0], size[1]))


ARGS = ("x", "y", "width", "height", "p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding",
        "horizontal")


def build(box, n, boxes, path=()):
    """Create the tree below a real box (recursively, depth first)."""
    boxes[path] = box
    if n.get("text"):
        box.text("\n".join(n["text"]))
    for i, c in enumerate(n["kids"]):
        kw = {}
        for a in ARGS:
            if a in c:
                v = c[a]
                if isinstance(v, tuple):
                    _, p, axis, value, add = v
                    v = getattr(boxes[tuple(p)], axis)(value)
                    if add:
                        v = v.add(add)
                kw[a] = v
        build(box.box(**kw), c, boxes, path + (i,))


def walk(n, path=()):
    yield path, n
    for i, c in enumerate(n["kids"]):
        yield from walk(c, path + (i,))


def strip(n):
    return {k: ([strip(c) for c in v] if k == "kids" else v) for k, v in n.items() if not k.startswith("_")}


def check_tree(B, tree, width=400, height=300, what="rectangles", renders=1):
    """tree = spec of the children of a slide's root box (itself a dict with kids)."""
    B.case(strip(tree))
    d = decks.deck(width=width, height=height)
    root = d.new_slide()
    boxes = {}
    build(root, tree, boxes)
    layout(tree, tree, (0, 0, width, height))
    for _ in range(renders):
        decks.units(d)
    for path, n in walk(tree):
        got = decks.frect(boxes[path])
        B.eq(got, n["_rect"], "%s: box at path %s" % (what, list(path)), tree=strip(tree))


def rnd_tree(rng, depth, width=3, opts=None):
    opts = opts or {}
    paths = [()]

    def size():
        return rng.choice(opts.get("sizes") or [None, None, 20, 35.5, "40", "25%", "0%", "60%", "100%", "fill", "fill(2)", "fill(3)", 0])

    def pos():
        return rng.choice(opts.get("poss") or [None, None, None, 7, "15", "30%", "[0%]", "100%", "[50%]", "[100%]", -4.5, 0])

    def dyn():
        return ("dyn", list(rng.choice(paths)), rng.choice("xy"), rng.choice([3, "50%", "100%", 0]),
                rng.choice([0, 5, -2.5]))

    def mk(path, dep):
        n = {"kids": []}
        if path:
            for a in ("width", "height"):
                v = size()
                if opts.get("dyn") and rng.random() < 0.15:
                    # a dynamic size is not reserved by the stacking; keep it off the main axis of stacked ones
                    v = dyn()
                if v is not None:
                    n[a] = v
            for a in ("x", "y"):
                v = pos()
                if opts.get("dyn") and rng.random() < 0.15:
                    v = dyn()
                if v is not None:
                    n[a] = v
            if opts.get("pads") and rng.random() < opts["pads"]:
                for a in ("p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding"):
                    if rng.random() < 0.4:
                        n[a] = rng.choice([0, 3, 5.5, 11])
            if rng.random() < opts.get("text", 0):
                n["text"] = ["a" * rng.randint(1, 5) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.5:
                n["horizontal"] = True
            paths.append(path)
        if dep > 0:
            for i in range(rng.randint(1 if not path else 0, width)):
                n["kids"].append(mk(path + (i,), dep - 1))
        return n

    return mk((), depth)
