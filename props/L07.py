"""L07 notations."""
from pyvc.api import bounded, unit
from pyvc import decks

GOOD_SIZE = {"0": ("min", 0), "7": ("min", 7), "007": ("min", 7), "120": ("min", 120), "0%": ("r", 0),
             "25%": ("r", .25), "250%": ("r", 2.5), "fill": ("f", 1), "fill(1)": ("f", 1), "fill(12)": ("f", 12),
             "fill(03)": ("f", 3)}
GOOD_POS = {"0": ("px", 0), "7": ("px", 7), "012": ("px", 12), "0%": ("p", 0), "33%": ("p", .33), "120%": ("p", 1.2),
            "[0%]": ("a", 0), "[25%]": ("a", .25), "[200%]": ("a", 2)}
JUNK = ["", " ", "1 ", " 1", "-1", "+1", "1.5", "1e3", "%", "5%%", "5 %", "%5", "-5%", "1.5%", "[", "[]", "[5]", "[5%",
        "5%]", "[%]", "[-5%]", "[5%]]", "[[5%]]", "[5%] ", " [5%]", "[5 %]", "fill(", "fill()", "fill(1", "fill1",
        "fill 1", "fill(1))", "fill(2)))", "Fill", "FILL", "fills", "xfill", "fill(-1)", "fill(1.5)", "fill(%)",
        "fill(1%)", "fill(a)", "fill(1)2", "fill(1)x", "filll", "fil", "1px", "px", "a", "1a", "a1", "0x10", "1_0",
        "1,0", "none", "None", "auto", "1\n", "5%\n", "fill\n", "fill(1)\n", "[5%]\n", "\n1", "1\n2", "5%5%",
        "1fill", "fillfill", "fill(1)(2)", "(1)", "1)", "fill((1)", "[5%][5%]", "5%[5%]", "+5%", "inf", "nan", "5%5"]
# (texts that spell decimal digits of other scripts are numbers for Python and not decided here)


def measure(size=None, pos=None, main=True):
    """What a notation means, observed on a laid out deck."""
    kw = {}
    d = decks.deck(width=1000, height=1000)
    par = d.new_slide().box(x=100, y=100, width=640, height=640)
    if size is not None:
        kw["height"] = size
    if pos is not None:
        kw["y"] = pos
        kw["height"] = 40
    b = par.box(width=1, **kw)
    par.box(width=1, height="fill(2)")
    decks.units(d)
    return decks.frect(b)


@bounded("notations", "all listed correct texts, %d malformed texts, every text up to 3 (thorough: 4) characters over "
                      "the alphabet '1 0 %% [ ] f ( ) newline space -', numbers of both types" % len(JUNK))
def notations(B):
    for t, (k, v) in GOOD_SIZE.items():
        B.case(("size", t))
        r = measure(size=t)
        want = {"min": v, "r": max(v * 640, 0), "f": 640 * v / (v + 2)}[k]
        B.eq(r[3], want, "meaning of size text", text=t)
    for t, (k, v) in GOOD_POS.items():
        B.case(("pos", t))
        r = measure(pos=t)
        want = 100 + {"px": v, "p": v * 640, "a": v * 600}[k]
        B.eq(r[1], want, "meaning of position text", text=t)
    for v in (0, 5, 7.25, 1e3, True):
        B.case(v)
        if v is not True:
            B.eq(measure(size=v)[3], v, "numeric size")
            B.eq(measure(pos=v)[1], 100 + v, "numeric position")
    B.eq(measure(pos=-3.5)[1], 96.5, "negative numeric position")
    for j in JUNK:
        for axis in (0, 1):
            reject(B, j, GOOD_SIZE, GOOD_POS, axis)
    for j in ([], (), {}, object(), b"5", [5], ("5",)):
        d = decks.deck()
        s = d.new_slide()
        if j:
            B.case(("size object", j))
            B.raises(lambda: s.box(height=j), "size of a wrong type", value=j)
        B.case(("pos object", j))
        B.raises(lambda: s.box(y=j), "position of a wrong type", value=j)


def reject(B, j, gs, gp, axis=0):
    from elsie.boxtree.value import PosValue  # noqa
    d = reject.deck = reject.__dict__.get("deck") or decks.deck()
    s = d.new_slide()
    if j:  # an empty size text means "no size"
        B.case(("size", j, axis))
        B.raises(lambda: s.box(**{("width", "height")[axis]: j}), "malformed size text", text=j)
    B.case(("pos", j, axis))
    B.raises(lambda: s.box(**{"xy"[axis]: j}), "malformed position text", text=j)


@bounded("short texts", "every text up to length 3 (thorough: 5) over 10 characters")
def short(B):
    import itertools
    import re
    d = decks.deck()
    alpha = "10%[]f()\n-"
    for n in range(1, 4 if not B.thorough else 6):
        for t in itertools.product(alpha, repeat=n):
            t = "".join(t)
            ok_s = t.strip("01") == "" or (t.endswith("%") and t[:-1] and t[:-1].strip("01") == "")
            ok_p = ok_s or (t.startswith("[") and t.endswith("%]") and t[1:-2] and t[1:-2].strip("01") == "")
            s = d.new_slide()
            B.case(t)
            for ok, kw in ((ok_s, {"width": t}), (ok_p, {"x": t})):
                try:
                    s.box(**kw)
                    acc = True
                except Exception:
                    acc = False
                B.check(acc == bool(ok), "text accepted=%s, should be %s" % (acc, bool(ok)), text=t, args=kw)
            if len(d._slides) > 500:
                d = decks.deck()
    for t in ("fill(1)", "fill"):
        for i in range(len(t) + 1):
            for c in "1fil()%[] \n-":
                u = t[:i] + c + t[i:]
                if re.fullmatch(r"fill|fill\([0-9]+\)", u):
                    continue
                B.case(u)
                B.raises(lambda: d.new_slide().box(width=u), "malformed fill", text=u)


# ------------------------------------------------------------------ proofs
def rejects(ctx, I, what, fn, *args):
    try:
        I.call(fn, args)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach(what)
        ctx.prove(what, True)
        return
    ctx.prove(what, False)


def notation_unit(ctx, size):
    import z3
    from pyvc.core import SStr, mk
    from pyvc.interp import Interp
    from pyvc.relang import DIGITS, INTVAL, classify
    from pyvc.values import mk_eq
    from elsie.boxtree.value import PosValue, SizeValue
    from elsie.boxtree.lazy import LazyValue
    I = Interp(ctx)
    cls = SizeValue if size else PosValue
    d = ctx.fresh("digits", z3.StringSort())
    classify(ctx, d, DIGITS)
    ctx.assume(INTVAL(d) >= 0)
    num = z3.ToReal(INTVAL(d))
    full, unit, origin, own = [ctx.real(x) for x in ("full", "unit", "origin", "own")]
    main = ctx.choose(2, "main axis") if size else 0
    v, vi = ctx.real("v"), ctx.int("vi")

    def lazy():
        return v
    lazy.__module__ = "props.L07"
    forms = ["digits", "percent", "int", "float", "dynamic", "other", "type"] + (
        ["fill", "fill(n)"] if size else ["align", "none"])
    form = forms[ctx.choose(len(forms), "form")]
    if form == "other":
        s = ctx.fresh("text", z3.StringSort())
        pct = z3.Concat(DIGITS, z3.Re("%"))
        good = [DIGITS, pct] + ([z3.Re("fill"), z3.Concat(z3.Re("fill("), DIGITS, z3.Re(")"))] if size else
                                [z3.Concat(z3.Re("["), pct, z3.Re("]"))])
        ctx.assume(z3.Not(z3.InRe(s, z3.Union(*good))))
        return rejects(ctx, I, "everything else is rejected", cls.parse, SStr((s,)))
    if form == "type":
        x = ((), [1], b"5", {"a": 1}, ("5",))[ctx.choose(5, "type")]
        return rejects(ctx, I, "a value of another type is rejected", cls.parse, x)
    arg = {"digits": SStr((d,)), "percent": SStr((d, "%")), "fill": "fill", "fill(n)": SStr(("fill(", d, ")")),
           "align": SStr(("[", d, "%]")), "int": vi, "float": v, "none": None}
    arg = LazyValue(lazy) if form == "dynamic" else arg[form]
    try:
        obj = I.call(cls.parse, (arg,))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.prove("the notation is accepted: " + form, False)
        return
    ctx.reach(form)
    if size:
        got = I.call(obj.compute, (full, unit if main else None))
        want = {"digits": mk(num), "percent": mk(z3.If(full.e * num / 100 >= 0, full.e * num / 100, 0)), "int": vi,
                "float": v, "dynamic": v, "fill": unit if main else full,
                "fill(n)": (unit * mk(num)) if main else full}[form]
        if form == "fill(n)":
            # a zero weight asks for nothing
            ctx.prove("the meaning of a size: fill(0)", z3.Implies(num == 0, mk_eq(got, 0)))
            ctx.prove("the meaning of a size: " + form, z3.Implies(num != 0, mk_eq(got, want)))
        else:
            ctx.prove("the meaning of a size: " + form, mk_eq(got, want))
    elif form != "none":
        got = I.call(obj.compute, (origin, full, own))
        r = {"digits": origin + mk(num), "percent": origin + full * mk(num) / 100, "int": origin + vi,
             "float": origin + v, "dynamic": v, "align": origin + (full - own) * mk(num) / 100}[form]
        ctx.prove("the meaning of a position: " + form, mk_eq(got, r))


@unit("SizeValue.parse: every text", budget=150)
def u_size(ctx):
    notation_unit(ctx, True)


@unit("PosValue.parse: every text", budget=150)
def u_pos(ctx):
    notation_unit(ctx, False)
