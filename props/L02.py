"""L02 size semantics."""
from pyvc.api import bounded, unit
from pyvc import reflayout as R

SIZES = [None, 0, 7, 30.5, "40", "0%", "25%", "100%", "130%", "fill", "fill(4)"]


@bounded("sizes", "every pair of 11 width x 11 height definitions, both orientations, with and without content "
                  "larger than the definition, plus dynamic sizes")
def sizes(B):
    for horiz in (False, True):
        for w in SIZES:
            for h in SIZES:
                for content in (False, True):
                    k = {"kids": []}
                    if w is not None:
                        k["width"] = w
                    if h is not None:
                        k["height"] = h
                    if content:
                        k["kids"].append({"kids": [], "width": 90, "height": 70})
                        k["p_left"] = 4
                    other = {"kids": [], "width": "fill(2)", "height": "fill(2)"}
                    tree = {"kids": [{"kids": [k, other], "x": 3, "y": 5, "width": 203, "height": 151,
                                      "horizontal": horiz}]}
                    R.check_tree(B, tree, what="size")


@bounded("trees", "random trees of depth 3 with dynamic sizes and text")
def trees(B):
    for _ in range(B.n(400, 6000)):
        R.check_tree(B, R.rnd_tree(B.rng, 3, 3, {"dyn": True, "text": 0.2, "pads": 0.2}), what="size")


@unit("Layout.set_rect: sizes", budget=200)
def u_sizes(ctx):
    from props import _layout
    _layout.set_rect_unit(ctx, ("L02",))


@unit("SizeValue.compute")
def u_compute(ctx):
    from props import _layout
    _layout.values_unit(ctx, "size")


@unit("SizeValue.ensure")
def u_ensure(ctx):
    from props import _layout
    _layout.values_unit(ctx, "ensure")


@unit("Layout.compute_size_request: definitions")
def u_request(ctx):
    from props import _layout
    _layout.request_unit(ctx, "request")


@unit("fbox and sbox")
def u_shortcuts(ctx):
    from props import _layout
    _layout.shortcut_unit(ctx, ("fbox", "sbox"))


@bounded("shortcuts", "fbox and sbox in parents of both orientations")
def shortcuts(B):
    from pyvc import decks
    for horiz in (False, True):
        for name in ("fbox", "sbox"):
            B.case((horiz, name))
            d = decks.deck()
            b = d.new_slide().box(width=200, height=50, horizontal=horiz)
            getattr(b, name)(**({} if name == "fbox" else {"width" if horiz else "height": 20})).rect(bg_color="blue")
            root = decks.parse(decks.svgs(d)[0])
            e = root.find(".//{http://www.w3.org/2000/svg}rect")
            B.eq([float(e.get("width")), float(e.get("height"))],
                 [200, 50] if name == "fbox" else [20, 50] if horiz else [200, 20], name)
