"""L01 stacking."""
import itertools
from pyvc.api import bounded, unit
from pyvc import reflayout as R

SIZES = [None, 30, "40", "25%", "fill", "fill(2)", "fill(5)"]


@bounded("stacks", "all lists of up to 3 (thorough: 4) children over 7 main-axis sizes x stacked/explicit x both "
                   "orientations, plus random trees of depth 3")
def stacks(B):
    for horiz in (False, True):
        main, pos = ("width", "x") if horiz else ("height", "y")
        combos = [(s, p) for s in SIZES for p in (None, 10)]
        for n in range(1, 4 if not B.thorough else 5):
            cs = list(itertools.product(combos, repeat=n))
            if n == 3 and not B.thorough:
                cs = B.rng.sample(cs, 500)
            elif n == 4:
                cs = B.rng.sample(cs, 6000)
            for c in cs:
                kids = []
                for s, p in c:
                    k = {"kids": [], "width": 11, "height": 12}
                    k.pop(main)
                    if s is not None:
                        k[main] = s
                    else:
                        k["kids"].append({"kids": [], "width": 9, "height": 8})
                    if p is not None:
                        k[pos] = p
                    kids.append(k)
                tree = {"kids": [{"kids": kids, "x": 13, "y": 17, "width": 203, "height": 151,
                                  "horizontal": horiz}]}
                R.check_tree(B, tree, what="stacking")


@bounded("trees", "random trees of depth 3, at most 4 children")
def trees(B):
    for _ in range(B.n(400, 6000)):
        R.check_tree(B, R.rnd_tree(B.rng, 3, 4, {"poss": [None, None, None, None, 5]}), what="stacking")


@unit("Layout.set_rect: stacking", budget=200)
def u_stack(ctx):
    from props import _layout
    _layout.set_rect_unit(ctx, ("L01",))
