"""L03 positions."""
from pyvc.api import bounded, unit
from pyvc import reflayout as R

POS = [None, 0, -7, 12.5, "15", "0%", "30%", "250%", "[0%]", "[30%]", "[100%]", "[150%]",
       ("dyn", [], "x", "50%", 3), ("dyn", [], "y", 4, 0)]


@bounded("positions", "every pair of 14 x 14 position forms, both orientations, parents of several sizes and offsets")
def positions(B):
    for horiz in (False, True):
        for x in POS:
            for y in POS:
                for (ox, oy, pw, ph) in ((13, 17, 203, 51), (0, 0, 31, 400)):
                    k = {"kids": [], "width": 40, "height": 21}
                    if x is not None:
                        k["x"] = x
                    if y is not None:
                        k["y"] = y
                    if isinstance(x, tuple) and x[2] == "y" or isinstance(y, tuple) and y[2] == "x":
                        pass
                    tree = {"kids": [{"kids": [k], "x": ox, "y": oy, "width": pw, "height": ph, "p_top": 3,
                                      "p_left": 2, "horizontal": horiz}]}
                    R.check_tree(B, tree, what="position")


@bounded("trees", "random trees of depth 3 with all position forms")
def trees(B):
    for _ in range(B.n(400, 6000)):
        R.check_tree(B, R.rnd_tree(B.rng, 3, 3, {"dyn": True, "pads": 0.2}), what="position")


@unit("Layout.set_rect: positions", budget=200)
def u_positions(ctx):
    from props import _layout
    _layout.set_rect_unit(ctx, ("L03",))


@unit("PosValue.compute")
def u_pos(ctx):
    from props import _layout
    _layout.values_unit(ctx, "pos")


@unit("overlay")
def u_overlay(ctx):
    from props import _layout
    _layout.shortcut_unit(ctx, ("overlay",))


@bounded("overlay", "overlays of boxes of several sizes and paddings, both orientations")
def overlay(B):
    from pyvc import decks
    for horiz in (False, True):
        for pad in (0, 7):
            for w in (40, 203):
                B.case((horiz, pad, w))
                d = decks.deck()
                b = d.new_slide().box(width=w, height=51, horizontal=horiz, p_top=pad)
                b.box(width=10, height=10)
                o = b.overlay()
                o.rect(bg_color="blue")
                b.rect(bg_color="red")
                root = decks.parse(decks.svgs(d)[0])
                got = {e.get("style").split(";")[0]: [float(e.get(k)) for k in ("x", "y", "width", "height")]
                       for e in root.iter("{http://www.w3.org/2000/svg}rect")}
                red, blue = got["fill:red"], got["fill:blue"]
                B.eq(blue[:2], red[:2], "left top edge of an overlay")
                B.eq(blue[2:], red[2:], "size of an overlay")
