"""T03 highlighted code."""
from pyvc.api import bounded, unit
from pyvc import decks, toks
from elsie.text.textparser import parse_text, tokens_merge, tokens_to_text_without_style, normalize_tokens
from elsie.text.highlight import highlight_code

SRC = ["x = 1", "def f(a, b):\n    return 'q' # c\n", "a", "if x:\n\n\n    y = \"\"\"s\nt\"\"\"\n\nz", "# only",
       "print( 'é' )\n\tq", "a  \nb  ", "  lead", "\n\nx\n\n", "'''a\n\n\nb'''", "class A:\n  x=1;y=2\n\n  z=3",
       "f(g(h(1)))"]
LANGS = ["python", "c", "text", "html", "bash", "rust", "json", "make"]


@bounded("plain", "%d sources x %d lexers, plus random line noise" % (len(SRC), len(LANGS)))
def plain(B):
    srcs = list(SRC)
    for _ in range(B.n(150, 2500)):
        srcs.append("".join(B.rng.choice("ab1 '\"#\n\t(){}[]:;.=<>/*\\&\u00e9") for _ in range(B.rng.randint(1, 30))))
    for s in srcs:
        for lang in LANGS:
            B.case((s, lang))
            if not s.strip("\n"):
                continue
            tk = highlight_code(s, lang)
            try:
                got = toks.plain(tk)
            except ValueError as e:
                B.fail("not properly nested: %s" % e, source=s, lang=lang, tokens=tk)
            B.eq(got.strip("\n"), s.strip("\n"), "text of highlighted code", source=s, lang=lang)


def rnd_pair(rng, text):
    """Two token lists over the same text with independent nested sections; the first flat like highlighting."""
    t1, t2 = [], []
    i = 0
    while i < len(text):
        j = min(len(text), i + rng.randint(1, 3))
        seg = text[i:j]
        if rng.random() < 0.75:
            t1.append(("begin", "H%d" % rng.randint(0, 2)))
            add(t1, seg)
            t1.append(("end", None))
        else:
            add(t1, seg)
        i = j
    depth, few = 0, rng.random() < 0.4
    for c in text:
        while rng.random() < 0.25 and depth < 3:
            t2.append(("begin", "u%d" % (rng.randint(0, 1) if few else len(t2))))
            depth += 1
        add(t2, c)
        while depth and rng.random() < 0.35:
            t2.append(("end", None))
            depth -= 1
    t2 += [("end", None)] * depth
    return normalize_tokens(t1), normalize_tokens(t2)


def add(t, seg):
    parts = seg.split("\n")
    for k, p in enumerate(parts):
        if k:
            t.append(("newline", 1))
        if p:
            if t and t[-1][0] == "text":
                t[-1] = ("text", t[-1][1] + p)
            else:
                t.append(("text", p))


def check_merge(B, t1, t2, what="merge"):
    B.case((t1, t2))
    a, b = list(t1), list(t2)
    try:
        m = tokens_merge(t1, t2)
    except (AssertionError, IndexError) as e:
        B.fail("%s: merging fails with %s" % (what, type(e).__name__), t1=a, t2=b)
    B.check(t1 == a and t2 == b, "the merged lists are unchanged", t1=a, t2=b)
    try:
        got = toks.named(m)
    except ValueError as e:
        B.fail("%s: not properly nested: %s" % (what, e), t1=a, t2=b, merged=m)
    n1, n2 = toks.named(t1), toks.named(t2)
    B.eq([c for c, _ in got], [c for c, _ in n1], what + ": characters", t1=a, t2=b, merged=m)
    s1 = {v for k, v in t1 if k == "begin"}
    for (c, st), (_, h), (_, u) in zip(got, n1, n2):
        if c == "\n":
            continue
        B.eq(sorted(x for x in st if x in s1), sorted(h), what + ": highlighting of a character", t1=a, t2=b, merged=m)
        B.eq([x for x in st if x not in s1], list(u), what + ": user sections of a character", t1=a, t2=b,
             merged=m)


@bounded("merge", "random pairs of token lists over the same text (flat highlighting, nested user sections)")
def merge(B):
    for _ in range(B.n(4000, 60000)):
        text = "".join(B.rng.choice("abc \n" if B.rng.random() < 0.5 else "ab") for _ in range(B.rng.randint(1, 9)))
        text = text.strip("\n")
        if text:
            check_merge(B, *rnd_pair(B.rng, text))


def drawn(d):
    """The characters of the text on the only slide, and whether each of them is italic."""
    t = decks.parse(decks.svgs(d)[0]).find(".//s:text", decks.NS)
    out = []

    def rec(el, em):
        if el.get("dy") is not None:
            out.extend([("\n", None)] * round(float(el.get("dy")) / 24))
        em = em or "italic" in (el.get("style") or "")
        out.extend((c, em) for c in el.text or "")
        for ch in el:
            rec(ch, em)
            out.extend((c, em) for c in ch.tail or "")
    rec(t, False)
    return [(c.replace("\u00a0", " "), e) for c, e in out]


@bounded("verbatim", "code without user styles drawn on slides: markup in it is text")
def verbatim(B):
    for lang in (None, "", "python", "text"):
        for src in ("x = ~emph{1}", "~emph{a\n b}", "a~", "~~x{}", "d = {'~tt{': '}'}", "}\n{~#i{q}", "~emph {x}"):
            for esc in ("~", "!", "@()"):
                B.case((lang, src, esc))
                d = decks.deck()
                d.new_slide().code(lang, src, escape_char=esc)
                B.eq("".join(c for c, _ in drawn(d)), src, "drawn code without styles", lang=lang, escape_char=esc)


@bounded("code", "code with highlighting and user styles drawn on slides")
def code(B):
    for _ in range(B.n(150, 2000)):
        src = B.rng.choice(SRC).strip("\n")
        # wrap random pieces
        pos = sorted(B.rng.sample(range(len(src) + 1), min(len(src) + 1, 2)))
        if len(pos) < 2:
            continue
        a, b = pos
        text = src[:a] + "~emph{" + src[a:b] + "}" + src[b:]
        if "}" in src[a:b] or "~" in src:
            continue
        if (src[:a] + src[a:b]).strip() == "" or src[b:] == "" or src[:a] == "" or src[a:b].strip() == "":
            continue
        B.case(text)
        d = decks.deck()
        d.new_slide().code("python", text, use_styles=True)
        out = drawn(d)
        full = src.replace("\t", "    ")
        aa, bb = len(src[:a].replace("\t", "    ")), len(src[:b].replace("\t", "    "))
        got = out
        B.eq("".join(c for c, _ in got), full, "drawn code", text=text)
        for i, (c, e) in enumerate(got):
            if c != "\n" and aa <= i < bb:
                B.check(e, "user style missing", text=text, i=i)


@bounded("edges", "the three listed sources with user styles that touch the outer line breaks of the code")
def edges(B):
    for text in ("~emph{\nfoo}", "\n~emph{\nfoo}", "foo\n~emph{}"):
        B.case(text)
        d = decks.deck()
        try:
            d.new_slide().code("python", text, use_styles=True)
            ok = True
        except AssertionError:
            ok = False
        B.check(ok, "code with user styles touching the outer line breaks: %r" % text, key="edges")


# ---------------------------------------------------------------- highlighted pieces of any code
class Pieces:
    """the given pieces of the code, with what they are; and what token lists show"""

    def __init__(self, ctx):
        import z3
        from pyvc.core import SStr, Unsupported, mk, to_z3
        from pyvc.values import Base, VSeq
        from props import _toks as K
        from props.T01 import traces
        self.ctx, self.K = ctx, K
        self.D = D = traces(ctx)
        F, Z, S = z3.Function, K.Z, K.S
        self.VALUE, self.TYPE = F("piece", Z, S), F("what", Z, S)
        self.base = b = Base(ctx.int("pieces"), "pieces")
        self.SHOWS, self.OPEN, self.MOST = F("shows", D, S), F("open", D, Z), F("well_nested", D, K.B_)
        ctx.assume(z3.And(self.SHOWS(D.empty) == K.NO, self.OPEN(D.empty) == 0, self.MOST(D.empty)))
        b.fold("code", S, K.NO, lambda k, G: z3.Concat(to_z3(G("code")), self.VALUE(k)))
        self.given = VSeq(b, lambda k: (mk(self.TYPE(k)), mk(self.VALUE(k))))
        self.parts = {}

        def split(s, *a):
            if a != ("\n",) or not isinstance(s, SStr):
                raise Unsupported("split")
            v = to_z3(s)
            n = len(self.parts)
            PART, UPTO = F("line_%d" % n, Z, S), F("lines_%d" % n, Z, S)
            p = Base(ctx.int("lines"), "lines%d" % n)
            self.parts[p.label] = p
            p.fold("lines", S, K.NO, lambda j, G: z3.Concat(to_z3(G("lines")), PART(j), z3.StringVal("\n")))
            ctx.assume(p.n >= 1)
            ctx.assume(to_z3(p.G("lines", p.n)) == z3.Concat(v, z3.StringVal("\n")))
            return VSeq(p, lambda j: mk(PART(j)))
        ctx.str_hooks["split"] = split

    def shown(self, t):
        """(characters, open sections, all ends end something) of a token list; with the defining equations"""
        import z3
        D, K = self.D, self.K
        for _ in range(4):
            t = z3.simplify(t)
            r, k, s, n = D.before(t), D.kind(t), D.text(t), D.count(t)
            d = self.OPEN(r) + z3.If(k == K.OPEN, 1, z3.If(k == K.CLOSE, -1, 0))
            self.ctx.assume(z3.Implies(D.is_tok(t), z3.And(
                z3.Implies(k == K.TXT, self.SHOWS(t) == z3.Concat(self.SHOWS(r), s)),
                z3.Implies(z3.And(k == K.NL, n == 1), self.SHOWS(t) == z3.Concat(self.SHOWS(r), z3.StringVal("\n"))),
                z3.Implies(z3.Or(k == K.OPEN, k == K.CLOSE), self.SHOWS(t) == self.SHOWS(r)),
                self.OPEN(t) == d, self.MOST(t) == z3.And(self.MOST(r), d >= 0))))
            t = r

    def invariants(self, view, x, bases):
        import z3
        from pyvc.core import to_z3
        out = []
        if x is None:
            return out
        D, K = self.D, self.K
        nl = z3.StringVal("\n")
        for key, d in view.items():
            for comp, v in d.items():
                if not comp.endswith("m:tokens"):
                    continue
                v = to_z3(v)
                lab = "%s%s" % (key, comp)
                self.shown(v)
                out.append((lab + " well nested", self.MOST(v)))
                for b in bases:
                    if b is self.base:
                        out.append((lab + " shows the pieces", self.SHOWS(v) == to_z3(b.G("code", x))))
                        out.append((lab + " all closed", self.OPEN(v) == 0))
                    elif b.label in self.parts:
                        k = self.ctx.cur_k.get(self.base.label)
                        if k is None:
                            continue
                        code = to_z3(self.base.G("code", k))
                        out.append((lab + " shows the lines", self.SHOWS(v) == z3.Concat(code, to_z3(b.G("lines", x)))))
                        out.append((lab + " one open", self.OPEN(v) == 1))
                        out.append((lab + " ends with a line break", z3.Implies(x > 0, z3.And(
                            D.is_tok(v), D.kind(v) == K.NL, D.count(v) == 1))))
        return out


@unit("highlighted pieces: the characters of any code", functions=["MyFormatter.format"])
def u_format(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import VList, measure_states
    from elsie.text import highlight as M
    I, p = Interp(ctx), Pieces(ctx)
    ctx.invariants.append(p.invariants)
    f = M.MyFormatter()
    ctx.register(f, "formatter")
    own = [n for n, v in vars(f).items() if type(v) is list and not v]
    from pyvc.core import Unsupported
    streams = []
    for n in own:
        s = VList(tag=n)
        object.__setattr__(f, n, s)
        streams.append(s)
    if len(streams) != 1:
        raise Unsupported("the stream of the formatter")
    I.call(M.MyFormatter.format, (f, p.given, None))
    ctx.reach("formatted")
    got = to_z3(measure_states(streams[0])["tokens"])
    p.shown(got)
    b = p.base
    ctx.prove("exactly the characters and line breaks of the code", p.SHOWS(got) == to_z3(b.G("code", b.n)))
    ctx.prove("properly nested sections", z3.And(p.OPEN(got) == 0, p.MOST(got)))
