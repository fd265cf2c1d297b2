"""F01 selectors."""
from pyvc.api import bounded, unit
from pyvc import decks

MAX = 13


def shown(d_kw, selector, current):
    """Set of the fragments (1..MAX) in which a box with that selector is painted."""
    d = decks.deck()
    s = d.new_slide()
    if current > 1:
        s.box(show=current)
    s.box(show=selector).rect(bg_color="red")
    s.box(show=MAX)
    pages = decks.svgs(d)
    out = set()
    for i, p in enumerate(pages):
        if decks.parse(p).find(".//s:rect", decks.NS) is not None:
            out.add(i + 1)
    return out, len(pages)


def part(rng):
    k = rng.randint(0, 6)
    a = rng.randint(1, 9)
    if k <= 1:
        return str(a), ("n", a)
    if k <= 3:
        b = rng.randint(a, 12)
        return "%d-%d" % (a, b), ("r", a, b)
    if k == 4:
        return "%d+" % a, ("o", a)
    w = rng.choice(["next", "last"])
    return (w, (w,)) if k == 5 else (w + "+", (w + "+",))


@bounded("selectors", "random selectors of 1-5 parts (numbers, ranges, one open start, next/last) with current "
                      "fragment 1-5; all fragments 1-13 compared")
def selectors(B):
    for it in range(B.n(500, 8000)):
        cur = B.rng.randint(1, 5)
        parts = [part(B.rng) for _ in range(B.rng.randint(1, 5))]
        opens = [p for p in parts if p[0].endswith("+")]
        parts = [p for p in parts if not p[0].endswith("+") or p is opens[0]]
        sep = B.rng.choice([",", ", ", " ,", " , "])
        text = sep.join(p[0] for p in parts)
        B.case((text, cur))
        want = set()
        for _, p in parts:
            if p[0] == "n":
                want.add(p[1])
            elif p[0] == "r":
                want.update(range(p[1], p[2] + 1))
            elif p[0] == "o":
                want.update(range(p[1], MAX + 1))
            else:
                s = cur + (1 if p[0].startswith("next") else 0)
                want.update(range(s, MAX + 1) if p[0].endswith("+") else [s])
        got, n = shown({}, text, cur)
        B.check(n == max([MAX]), "number of pages", n=n)
        B.eq(got, want, "fragments in which the box is shown", selector=text, current=cur)
    for sel, want in ((None, set(range(1, MAX + 1))), (4, {4}), (1, {1}), ("1+", set(range(1, MAX + 1))),
                      ("12-13", {12, 13}), ("5-5", {5})):
        for cur in (1, 3):
            B.case((sel, cur))
            B.eq(shown({}, sel, cur)[0], want, "fragments in which the box is shown", selector=sel, current=cur)


BAD = ["", " ", ",", "1,", ",1", "1,,2", "a", "1-", "-1", "-", "+", "++", "1++", "+1", "1-2-3", "1-2+", "1+2", "3-2",
       "10-9", "1 2", "1 - 2", "1 -2", "1.5", "1;2", "next+1", "nextlast", "Next", "LAST", "nex", "next++", "1+,2+",
       "3+,1,2+", "next+,last+", "2+,next+", "last-", "next-", "1-a", "a-2", "1,b", "*", "1-+", "all", "2-1,1", "5,4-3",
       "1 +", "0x1", "1e1"]


@bounded("malformed", "%d malformed selectors and non-selectors; placeholders in image labels" % len(BAD))
def malformed(B):
    d = decks.deck()
    for b in BAD + [[], 1.5, (1,), b"1", {1}]:
        s = d.new_slide()
        B.case(b)
        B.raises(lambda: s.box(show=b), "malformed selector", selector=b)
    # a placeholder without a current fragment: image annotations
    from elsie.slides.show import ShowInfo
    for t in ("next", "last", "next+", "last+", "1,next"):
        B.case(("no current", t))
        B.raises(lambda: ShowInfo.parse(t), "placeholder without a current fragment", selector=t)


@bounded("large", "ranges with large numbers through is_visible/max_step")
def large(B):
    from elsie.slides.show import ShowInfo
    for it in range(B.n(300, 3000)):
        a = B.rng.randint(1, 400)
        b = a + B.rng.randint(0, 300)
        o = B.rng.randint(1, 900)
        text = "%d-%d, %d+" % (a, b, o)
        if B.rng.random() < 0.5:
            text = "%d-%d" % (a, b)
            o = None
        B.case(text)
        si = ShowInfo.parse(text)
        for s in {1, a - 1, a, a + 1, b - 1, b, b + 1, (o or 1) - 1, o or 1, (o or 1) + 1, 5000} - {0}:
            want = a <= s <= b or (o is not None and s >= o)
            B.check(bool(si.is_visible(s)) == want, "is_visible", selector=text, s=s)
        B.eq(si.max_step(), max(b, o or 1), "highest fragment", selector=text)


# ------------------------------------------------------------------ proofs
def set_model(ctx, q):
    """sets of fragments: membership of one arbitrary fragment q, and the largest element"""
    import z3
    from pyvc.core import SBool, Unsupported, mk, to_z3
    from pyvc.interp import SeqModel, max2
    from pyvc.values import VSeq

    class SetModel(SeqModel):
        def __init__(self):
            self.has, self.some, self.top = mk(z3.BoolVal(False)), mk(z3.BoolVal(False)), mk(z3.IntVal(0))
            ctx.register(self, "set")

        def _put(self, nonempty, has, top):
            for a in ("has", "some", "top"):
                ctx.note_write(self, a)
            t, s0 = to_z3(self.top), to_z3(self.some)
            top = to_z3(top)
            self.top = mk(z3.If(z3.And(nonempty, z3.Or(z3.Not(s0), top > t)), top, t))
            self.has = mk(z3.Or(to_z3(self.has), z3.And(nonempty, has)))
            self.some = mk(z3.Or(s0, nonempty))

        def add(self, v):
            v = to_z3(v)
            self._put(z3.BoolVal(True), v == q, v)

        def update(self, it):
            if isinstance(it, VSeq) and it.typ is range and it.guard is None:
                k = z3.Int("r!")
                if not z3.eq(z3.simplify(to_z3(it.elem_fn(k))), k):
                    raise Unsupported("range with a step")
                self._put(it.hi > it.lo, z3.And(it.lo <= q, q < it.hi), it.hi - 1)
            elif isinstance(it, (list, tuple, range)):
                for x in it:
                    self.add(x)
            else:
                raise Unsupported("update of a set")

        def sorted(self, I, key, reverse):
            if key is not None:
                raise Unsupported("sorted with key")
            return self

        def minmax(self, I, is_max, default):
            if not is_max:
                raise Unsupported("min of a set")
            if ctx.branch(to_z3(self.some)):
                return self.top
            from pyvc.values import NA, mark
            if default is NA:
                raise mark(ValueError("max() arg is an empty sequence"))
            return default

        def _pyvc_contains(self, x):
            return SBool(z3.And(to_z3(x) == q, to_z3(self.has))) if z3.eq(z3.simplify(to_z3(x)), q) else self._unk()

        def _unk(self):
            raise Unsupported("membership of another fragment")

        def _pyvc_truth(self):
            return ctx.branch(to_z3(self.some))

    def make(items):
        s = SetModel()
        s.update(list(items))
        return s
    return make


@unit("ShowInfo.parse / is_visible / max_step: every selector text", budget=250, timeout_ms=10000)
def u_selector(ctx):
    import z3
    from pyvc.core import SStr, Unsupported, mk, to_z3
    from pyvc.interp import Interp, max2
    from pyvc.relang import DIGITS, WS, ch, classify, num, union
    from pyvc.values import Base, VSeq, mk_eq
    from elsie.slides.show import ShowInfo
    I = Interp(ctx)
    S, Z = z3.StringSort(), z3.IntSort()
    q = ctx.fresh("fragment", Z)
    ctx.set_model = set_model(ctx, q)
    n = ctx.int("n")
    ctx.assume(n >= 1)
    parts = Base(n, "parts")
    cur = ctx.int("current")
    has_cur = bool(ctx.choose(2, "current"))
    ctx.assume(cur >= 1)
    fn = {x: z3.Function(x, Z, S) for x in ("txt", "from", "end")}
    kindf = z3.Function("kind", Z, Z)   # 0 number 1 range 2 open 3 next 4 last 5 next+ 6 last+ 7 anything else
    known = set()

    def facts(k):
        key = k.sexpr()
        if key in known:
            return
        known.add(key)
        t, a, b, kd = fn["txt"](k), fn["from"](k), fn["end"](k), kindf(k)
        rel = z3.Concat(z3.Union(z3.Re("next"), z3.Re("last")), z3.Re("-"), DIGITS)
        ctx.assume(z3.And(kd >= 0, kd <= 7,
                          num(a) >= 0, num(b) >= 0))
        forms = [DIGITS, z3.Concat(DIGITS, z3.Re("-"), DIGITS), z3.Concat(DIGITS, z3.Re("+")), z3.Re("next"),
                 z3.Re("last"), z3.Re("next+"), z3.Re("last+"), rel]
        wsl = union(ch(c) for c in WS)
        any_ = z3.Star(z3.AllChar(z3.ReSort(S)))
        # any other text without leading and trailing blanks (next-5 and last-5 are not decided)
        classify(ctx, a, DIGITS)
        classify(ctx, b, DIGITS)
        classify(ctx, t, z3.Intersect(z3.Complement(z3.Union(*forms)), z3.Complement(z3.Concat(wsl, any_)),
                                      z3.Complement(z3.Concat(any_, wsl))))

    def strip(s, *args):
        if not isinstance(s, Txt) or args:
            return None
        k = s.k
        i = ctx.choose(8, "kind of the part")
        ctx.assume(kindf(k) == i)
        if i == 7:
            return SStr((fn["txt"](k),))
        w = ("next", "last", "next+", "last+")
        return w[i - 3] if i > 2 else SStr(((fn["from"](k),), (fn["from"](k), "-", fn["end"](k)),
                                            (fn["from"](k), "+"))[i])

    class Txt(SStr):
        __slots__ = ("k",)

    def elem(k):
        facts(k)
        r = Txt((fn["txt"](k),))
        r.k = k
        return r
    seq = VSeq(parts, elem)
    text = ctx.str("selector")
    classify(ctx, text.expr(), z3.Plus(z3.AllChar(z3.ReSort(S))))

    def split(s, sep=None, *a):
        if s is not text or sep != "," or a:
            return None
        return seq
    ctx.str_hooks["split"] = split
    ctx.str_hooks["strip"] = strip

    def a_(k):
        kd = kindf(k)
        return z3.If(z3.Or(kd == 3, kd == 5), cur.e + 1, z3.If(z3.Or(kd == 4, kd == 6), cur.e,
                                                               num(fn["from"](k))))

    def b_(k):
        return num(fn["end"](k))

    def is_open(k):
        kd = kindf(k)
        return z3.Or(kd == 2, kd == 5, kd == 6)

    def is_rel(k):
        return z3.And(kindf(k) >= 3, kindf(k) <= 6)

    def last(k):
        return z3.If(kindf(k) == 1, b_(k), a_(k))

    B_ = z3.BoolSort()
    parts.fold("bad", B_, z3.BoolVal(False), lambda k, G: (facts(k), z3.Or(
        to_z3(G("bad")), kindf(k) == 7, z3.And(is_rel(k), z3.BoolVal(not has_cur)),
        z3.And(kindf(k) == 1, a_(k) > b_(k)), z3.And(is_open(k), to_z3(G("opened")))))[1])
    parts_open = parts.fold("opened", B_, z3.BoolVal(False), lambda k, G: z3.Or(to_z3(G("opened")), is_open(k)))
    parts.fold("start", Z, z3.IntVal(0), lambda k, G: z3.If(is_open(k), a_(k), to_z3(G("start"))))
    parts.fold("closed", B_, z3.BoolVal(False), lambda k, G: z3.Or(
        to_z3(G("closed")), z3.And(z3.Not(is_open(k)), a_(k) <= q, q <= last(k))))
    parts.fold("some", B_, z3.BoolVal(False), lambda k, G: z3.Or(to_z3(G("some")), z3.Not(is_open(k))))
    parts.fold("top", Z, z3.IntVal(0), lambda k, G: z3.If(z3.And(z3.Not(is_open(k)), z3.Or(
        z3.Not(to_z3(G("some"))), last(k) > to_z3(G("top")))), last(k), to_z3(G("top"))))
    N = parts.n
    G = lambda nm: to_z3(parts.G(nm, N))
    try:
        r = I.call(ShowInfo.parse, (text, cur if has_cur else None))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        k = ctx.cur_k.get("parts")
        ctx.reach("rejected")
        if k is not None:
            parts.induct("a bad part stays bad", lambda j: z3.Implies(j > k, to_z3(parts.G("bad", j))))
        ctx.prove("only malformed selectors are rejected", G("bad"))
        return
    ctx.reach("accepted")
    ctx.prove("malformed selectors are rejected", z3.Not(G("bad")))
    vis = z3.Or(G("closed"), z3.And(G("opened"), G("start") <= q))
    ctx.prove("visible in exactly the selected fragments", to_z3(I.truth(I.call(r.is_visible, (mk(q),)))) == vis)
    top = max2(1, max2(mk(z3.If(G("some"), G("top"), z3.IntVal(1))), mk(z3.If(G("opened"), G("start"), z3.IntVal(1)))))
    ctx.prove("highest mentioned fragment", mk_eq(I.call(r.max_step), top))
    ctx.prove("highest required fragment", mk_eq(I.call(r.min_steps), top))


@unit("ShowInfo.parse: no selector, numbers, other types; ensure_steps")
def u_simple(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp, max2
    from pyvc.values import mk_eq
    from elsie.slides.show import ShowInfo
    I = Interp(ctx)
    q, v, m = ctx.int("fragment"), ctx.int("number"), ctx.int("required")
    kind = ctx.choose(3, "kind")
    if kind == 2:
        x = (1.5, [1], (1,), {1}, b"1")[ctx.choose(5, "type")]
        try:
            I.call(ShowInfo.parse, (x,))
        except Exception as e:
            if not getattr(e, "_pyvc_prog", False):
                raise
            ctx.prove("a selector of another type is rejected", True)
            return
        ctx.prove("a selector of another type is rejected", False)
        return
    r = I.call(ShowInfo.parse, (v if kind else None,))
    want = (q == v) if kind else (q >= 1)
    ctx.prove("visible in exactly the selected fragments", to_z3(I.truth(I.call(r.is_visible, (q,)))) == to_z3(want))
    top = max2(1, v) if kind else 1
    ctx.prove("highest mentioned fragment", mk_eq(I.call(r.max_step), top))
    ctx.assume(m >= 0)
    r2 = I.call(r.ensure_steps, (m,))
    ctx.prove("ensure_steps keeps the visibility", to_z3(I.truth(I.call(r2.is_visible, (q,)))) == to_z3(want))
    ctx.prove("ensure_steps", mk_eq(I.call(r2.min_steps), max2(top, m)))
    ctx.prove("ensure_steps keeps the original", mk_eq(I.call(r.min_steps), top))
    ctx.reach("parsed")
