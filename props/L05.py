"""L05 size requests."""
from pyvc.api import bounded, unit
from pyvc import reflayout as R

SZ = [None, None, None, 20, "40", "25%", "100%", "fill", 3]


@bounded("requests", "random trees of depth 4 whose boxes take their requested size (mostly no size definition)")
def requests(B):
    for _ in range(B.n(700, 9000)):
        R.check_tree(B, R.rnd_tree(B.rng, 4, 3, {"sizes": SZ, "pads": 0.3, "text": 0.25}), what="requested size")


@bounded("monotone", "several texts in one box, in every order: the box never shrinks")
def monotone(B):
    import itertools
    from pyvc import decks
    texts = ["a", "abcdef", "a\nb\nc", "abc\nde"]
    for perm in itertools.permutations(texts, 3):
        for w in (None, 5, 300):
            B.case((perm, w))
            d = decks.deck(width=400, height=300)
            b = d.new_slide().box(width=w)
            for t in perm:
                b.text(t)
            decks.units(d)
            want_w = max([w or 0] + [max(map(len, t.split("\n"))) * 14 for t in perm])
            want_h = max((t.count("\n") + 1) * R.LINE for t in perm)
            r = decks.frect(b)
            B.eq(r[2:], (want_w, want_h), "size of a box with several texts", perm=perm)


@unit("Layout.min_children_size")
def u_children(ctx):
    from props import _layout
    _layout.children_unit(ctx)


@unit("Layout.compute_size_request")
def u_request(ctx):
    from props import _layout
    _layout.request_unit(ctx, "request")


@unit("SizeValue.ensure")
def u_ensure(ctx):
    from props import _layout
    _layout.values_unit(ctx, "ensure")


@unit("Layout.ensure_width")
def u_width(ctx):
    from props import _layout
    _layout.request_unit(ctx, "width")


@unit("Layout.ensure_height")
def u_height(ctx):
    from props import _layout
    _layout.request_unit(ctx, "height")
