"""L04 padding."""
import itertools
from pyvc.api import bounded, unit
from pyvc import reflayout as R


@bounded("precedence", "all combinations of given / explicit zero / missing over side, axis and common arguments of "
                       "each side pair, fixed and content-sized boxes with text and children")
def precedence(B):
    opts = [None, 0, 3, 7.5]
    for side in itertools.product(opts, repeat=2):
        for ax in opts:
            for com in opts:
                for axis in "xy":
                    a, b = ("p_left", "p_right") if axis == "x" else ("p_top", "p_bottom")
                    args = {a: side[0], b: side[1], "p_" + axis: ax, "padding": com}
                    args = {k: v for k, v in args.items() if v is not None}
                    inner = {"kids": [], "width": "fill", "height": "fill"}
                    fixed = dict(args, kids=[inner], width=120, height=90)
                    auto = dict(args, kids=[{"kids": [], "width": 31, "height": 17}])
                    text = dict(args, kids=[], text=["ab", "abcde"])
                    tree = {"kids": [fixed, auto, text]}
                    R.check_tree(B, tree, what="padding")


@bounded("trees", "random trees with random paddings and texts of depth 3")
def trees(B):
    for _ in range(B.n(300, 5000)):
        R.check_tree(B, R.rnd_tree(B.rng, 3, 3, {"pads": 0.8, "text": 0.3}), what="padding")


@bounded("images", "image requests with paddings")
def images(B):
    from pyvc import decks
    for l, r, t, b in itertools.product([0, 3, 5.5], repeat=4):
        B.case((l, r, t, b))
        d = decks.deck(width=400, height=300)
        bx = d.new_slide().box(p_left=l, p_right=r, p_top=t, p_bottom=b)
        inner = bx.box(x=0, y=0)   # no influence
        bx.image(decks.png_bytes(40, 20), image_type="png")
        decks.units(d)
        got = decks.frect(bx)
        x = 200 - (40 + l + r) / 2 + l
        y = 150 - (20 + t + b) / 2 + t
        B.eq(got, (x, y, 40, 20), "content rectangle of an image box")


@unit("Layout.set_rect: content rectangle", budget=200)
def u_content(ctx):
    from props import _layout
    _layout.set_rect_unit(ctx, ("L04",))


@unit("Layout.add: precedence of the padding arguments")
def u_padding(ctx):
    from props import _layout
    _layout.padding_unit(ctx)


@unit("Layout.compute_size_request")
def u_request(ctx):
    from props import _layout
    _layout.request_unit(ctx, "request")


@unit("Layout.ensure_width")
def u_width(ctx):
    from props import _layout
    _layout.request_unit(ctx, "width")


@unit("Layout.ensure_height")
def u_height(ctx):
    from props import _layout
    _layout.request_unit(ctx, "height")
