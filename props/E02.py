"""E02 markdown."""
from pyvc.api import bounded, unit
from pyvc import decks
from props.X02 import read
from elsie import TextStyle
from elsie.ext import markdown

WORDS = ["alpha", "Beta x", "g\u00e9", "d-e", "a & b", "x<y", "9.5", "q!", "tail:", "mid.dot"]
BUILTIN = {"md-paragraph": {}, "md-bold": {"bold": True}, "md-italic": {"italic": True},
           "md-link": {"color": "#0EBFE9"}, "md-blockquote": {"color": "#A9A9A9"},
           "tt": None, "emph": None}
for _i in range(1, 7):
    BUILTIN["md-h%d" % _i] = {"size": 40 - (_i - 1) * 2}


def rnd_inline(rng, esc, depth=0, names=("md-bold", "md-italic", "md-link", "user")):
    """(source, [(char, section names)])"""
    src, out = "", []
    n = rng.randint(1, 3)
    for i in range(n):
        if i:
            src += " "
            out.append((" ", ()))
        k = rng.random()
        if k < 0.5 or depth > 2:
            w = rng.choice(WORDS)
            src += w
            out += [(c, ()) for c in w]
            continue
        kind = rng.choice(names)
        sub = [x for x in names if x != kind]
        if kind == "md-link":
            sub = [x for x in sub if x != "md-link"]
        s, o = rnd_inline(rng, esc, depth + 1, tuple(sub))
        if kind == "md-bold":
            src += "**%s**" % s
        elif kind == "md-italic":
            src += "_%s_" % s
        elif kind == "md-link":
            src += "[%s](u)" % s
        else:
            src += esc + "user{" + s + "}"
        out += [(c, (kind,) + ns) for c, ns in o]
    return src, out


def rnd_text(rng, esc, lines=1):
    src, out = "", []
    for i in range(rng.randint(1, lines)):
        if i:
            src += "\n"
            out.append(("\n", ()))
        a, b = rnd_inline(rng, esc)
        src += a
        out += b
    return src, out


def indent(text, by, first=None):
    ls = text.split("\n")
    return "\n".join((first if i == 0 and first is not None else by if l else "") + l for i, l in enumerate(ls))


def rnd_block(rng, esc, depth=0, inlist=False):
    """(source, [blocks]); block = (style name, chars) | ("code", text) | ("label", text)"""
    k = rng.random()
    if k < 0.3 or depth > 2:
        s, o = rnd_text(rng, esc, 3)
        return s, [("md-paragraph", o, ())]
    if k < 0.5 and not inlist:
        lv = rng.randint(1, 6)
        s, o = rnd_text(rng, esc)
        return "#" * lv + " " + s, [("md-h%d" % lv, o, ())]
    if k < 0.6:
        lines = [rng.choice(["def f(x):", "    return x", "a = 1", "# c", "", "if (a < b) { }", "* x"])
                 for _ in range(rng.randint(1, 4))]
        if not any(l.strip() for l in lines):
            lines[0] = "z = 3"
        while not lines[0].strip():
            lines.pop(0)
        while not lines[-1].strip():
            lines.pop()
        return "```python\n" + "\n".join(lines) + "\n```", [("code", "\n".join(lines), ())]
    if k < 0.7 and not inlist:
        parts = [rnd_simple(rng, esc) for _ in range(rng.randint(1, 2))]
        return indent("\n\n".join(p[0] for p in parts), "> ").replace("\n\n", "\n>\n"), [
            (b[0], b[1], b[2] + ("quote",)) for p in parts for b in p[1]]
    return rnd_list(rng, esc, depth)


def rnd_simple(rng, esc):
    if rng.random() < 0.4:
        lv = rng.randint(1, 6)
        s, o = rnd_text(rng, esc)
        return "#" * lv + " " + s, [("md-h%d" % lv, o, ())]
    s, o = rnd_text(rng, esc, 2)
    return s, [("md-paragraph", o, ())]


def rnd_list(rng, esc, depth):
    ordered = rng.random() < 0.5
    start = rng.choice([0, 1, 1, 3, 10])
    bullet = rng.choice("-*")
    src, out = [], []
    for i in range(rng.randint(1, 3)):
        mark = "%d. " % (start + i) if ordered else bullet + " "
        pad = " " * len(mark)
        s, o = rnd_text(rng, esc, 2)
        body, blocks = s, [("md-paragraph", o, ())]
        if depth < 2 and rng.random() < 0.4:
            s, o = rnd_list(rng, esc, depth + 1)
            body += "\n" + s if rng.random() < 0.5 and not s.startswith(tuple("02345678911")) else "\n\n" + s
            blocks += o
        src.append(indent(body, pad, mark))
        out.append(("label", "%d." % (start + i) if ordered else bullet, ()))
        out += blocks
    return "\n".join(src), out


def lines_of(el):
    """visible characters of a text element with line breaks, and styles"""
    out, first = [], True
    for c in read(el):
        if c[0] == "line" and len(c) == 3:
            out.append(("\n", None, round(c[2], 4)))
        else:
            out.append((c[0], c[1], None))
    return out


@bounded("documents", "random documents of the supported subset (headings, paragraphs of several lines, quotes, fenced "
                      "code, lists nested 3 deep with starts 0-10; bold/italic/link/inline styles nested), two escape "
                      "characters, built-in and user-defined md styles: every character in order with its style")
def documents(B):
    rng = B.rng
    for it in range(B.n(250, 4000)):
        esc = rng.choice("~~^")
        blocks = [rnd_block(rng, esc) for _ in range(rng.randint(1, 5))]
        srcs = []
        for i, (s, o) in enumerate(blocks):
            # two neighbouring lists (or paragraphs) of one kind would be one
            if i and o[0][0] == blocks[i - 1][1][0][0] == "label":
                srcs.append("sep")
            if i and "quote" in o[0][2] and "quote" in blocks[i - 1][1][0][2]:
                srcs.append("sep")
            srcs.append(s)
        want = []
        for i, (s, o) in enumerate(blocks):
            if i and o[0][0] == blocks[i - 1][1][0][0] == "label":
                want.append(("md-paragraph", [(c, ()) for c in "sep"], ()))
            if i and "quote" in o[0][2] and "quote" in blocks[i - 1][1][0][2]:
                want.append(("md-paragraph", [(c, ()) for c in "sep"], ()))
            want += o
        src = "\n\n".join(srcs)
        pre = rng.choice(["", "\n", "\n   "]) if not src.startswith(" ") else ""
        text = src
        if rng.random() < 0.4:
            text = "\n" + indent(src, "    ") + "\n  "
        d = decks.deck()
        s = d.new_slide()
        own = rng.sample([n for n in sorted(BUILTIN) if n.startswith("md-")], rng.randint(0, 4))
        styles = dict(BUILTIN)
        late = rng.random() < 0.7
        if not late:
            for n in own:
                s.set_style(n, TextStyle(color="own-" + n))
        host = s.box()
        host.set_style("user", TextStyle(font="U"))
        styles["user"] = {"font": "U"}
        for n in own:
            if late:
                host.set_style(n, TextStyle(color="own-" + n))
            styles[n] = {"color": "own-" + n}
        B.case((text, {k: v for k, v in styles.items() if v and "own" in str(v)}))
        before = {n: host.get_style(n) for n in ("default",)}
        markdown(host, text, **({} if esc == "~" else {"escape_char": esc}))
        for p in ("font", "size", "color", "bold", "italic", "align"):
            B.eq(getattr(host.get_style("default"), p), getattr(before["default"], p), "styles of the box itself")
        base = host.get_style("default")
        els = [e for e in decks.parse(decks.svgs(d)[0]).iter(decks.SVG + "text")]
        got = [g for g in (lines_of(e) for e in els) if any(c != "\n" for c, _, _ in g)]
        exp = []
        for name, chars, ctx in want:
            if name == "label":
                exp.append([(c, None) for c in chars])
            elif name == "code":
                exp.append([(c, None) for c in chars])
            else:
                eff = {p: getattr(base, p) for p in ("font", "size", "color")}
                eff.update(bold=bool(base.bold), italic=bool(base.italic))
                lst = [("md-blockquote",)] if "quote" in ctx else []
                row = []
                for c, ns in chars:
                    e = dict(eff)
                    for n in (["md-blockquote"] if "quote" in ctx else []) + [name] + list(ns):
                        e.update(styles[n])
                    row.append((c, e))
                exp.append(row)
        B.eq(["".join(c for c, _, _ in g).replace("\u00a0", " ") for g in got],
             [txt(r) for r in exp], "texts in document order", text=text)
        for g, r in zip(got, exp):
            r2 = []
            for c, e in r:
                if c == "\n" and r2 and r2[-1][0] == "\n":
                    continue
                r2.append((c, e))
            for (c, st, dy), (c2, e) in zip(g, r2):
                if e is None or c == "\n":
                    continue
                B.eq({k: st.get(k) for k in e}, e, "style of a character", char=c, text=text)


def txt(row):
    out = ""
    for c, _ in row:
        if c == "\n" and out.endswith("\n"):
            continue
        out += c
    return out


@bounded("blank", "blank documents; a document and its parent box")
def blank(B):
    for t in ("", " ", "\n", "   \n  \n", "\t"):
        d = decks.deck()
        s = d.new_slide()
        B.case(t)
        markdown(s.box(), t)
        B.eq([e for e in decks.parse(decks.svgs(d)[0]).iter(decks.SVG + "text")], [], "empty result", text=t)


@bounded("findings", "the two known gaps: a closing brace inside a formatted section; text after a nested list")
def findings(B):
    def texts(src):
        d = decks.deck()
        markdown(d.new_slide().box(), src)
        return ["".join(c for c, _, _ in lines_of(e)).replace("\u00a0", " ")
                for e in decks.parse(decks.svgs(d)[0]).iter(decks.SVG + "text")]
    for src, want in (("**a}b** c", "a}b c"), ("x [l}](u) y", "x l} y")):
        B.case(src)
        try:
            got = [t for t in texts(src) if t]
        except Exception as e:
            got = type(e).__name__
        B.eq(got, [want], "text with a closing brace inside a section", key="brace", text=src)
    src = "- a\n\n  - b\n\n  c\n"
    B.case(src)
    got = [t for t in texts(src) if t.strip() and t != "-"]
    B.eq(got, ["a", "b", "c"], "paragraph after a nested list of the same item", key="after-nested", text=src)


# ---------------------------------------------------------------- any document
class Node:
    """a node of the parsed document"""
    _pyvc_stub = True

    def __init__(self, tree, e):
        self.tree, self.e = tree, e

    def _pyvc_isinstance(self, t):
        from pyvc.core import cur
        ts = t if isinstance(t, tuple) else (t,)
        return any(c in ts and cur().branch(self.tree.KIND(self.e) == i) for i, c in enumerate(self.tree.classes))

    @property
    def children(self):
        return self.tree.children(self.e)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self.tree.attribute(self.e, name)


class Inline:
    """Any text with inline markup: a node with any children; what is inside them is known by induction"""

    def __init__(self, ctx, esc):
        import z3
        from marko import inline as N
        self.ctx = ctx
        Z, S = z3.IntSort(), z3.StringSort()
        self.classes = (N.RawText, N.Emphasis, N.StrongEmphasis, N.Link, N.LineBreak, None)
        self.KIND, self.CHILD = z3.Function("kind", Z, Z), z3.Function("child", Z, Z, Z)
        self.KIDS, self.CHARS = z3.Function("children", Z, Z), z3.Function("characters", Z, S)
        self.TEXT = z3.Function("text_of", Z, S)
        self.esc = esc
        self.root = ctx.int("root").e
        self.base = None

    def node(self, e):
        import z3
        self.ctx.assume(z3.And(self.KIND(e) >= 0, self.KIND(e) < len(self.classes)))
        return Node(self, e)

    def piece(self, e):
        """what a child adds to the text"""
        import z3
        S = z3.StringVal
        styled = lambda n: z3.Concat(self.esc, S(n + "{"), self.TEXT(e), S("}"))
        r = S("")
        for i, v in ((0, self.CHARS(e)), (1, styled("md-italic")), (2, styled("md-bold")), (3, styled("md-link")),
                     (4, S("\n"))):
            r = z3.If(self.KIND(e) == i, v, r)
        return r

    def children(self, e):
        import z3
        from pyvc.core import Unsupported, mk, to_z3
        from pyvc.values import Base, VSeq
        if not z3.eq(e, self.root):
            if self.ctx.valid(self.KIND(e) == 0):
                return mk(self.CHARS(e))
            raise Unsupported("the children of an inner node")
        if self.base is None:
            self.base = b = Base(mk(self.KIDS(e)), "children")
            b.fold("text", z3.StringSort(), z3.StringVal(""), lambda k, G: z3.Concat(
                to_z3(G("text")), self.piece(self.CHILD(e, k))))
        return VSeq(self.base, lambda k: self.node(self.CHILD(e, k)))

    def attribute(self, e, name):
        from pyvc.core import Unsupported
        raise Unsupported("attribute %r of an inline node" % name)


Node.__module__ = "props.E02"


@unit("inline text: every nesting of bold, italic and links", functions=["get_raw_text"])
def u_inline(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.interp import Interp
    from elsie.ext import markdown as _  # noqa: F401
    import sys
    M = sys.modules["elsie.ext.markdown"]
    I = Interp(ctx)
    esc = ctx.str("escape")
    t = Inline(ctx, to_z3(esc))
    c = M.MarkdownContext(None, "~")
    own = [n for n, v in vars(c).items() if v == "~"]
    ctx.register(c, "context")
    for n in own:
        object.__setattr__(c, n, esc)

    def recursion(f, args, kwargs):
        ns = [a for a in list(args) + list(kwargs.values()) if isinstance(a, Node)]
        if f is not M.get_raw_text or len(ns) != 1 or z3.eq(ns[0].e, t.root):
            return NotImplemented
        ctx.prove("in the same context", any(a is c for a in list(args) + list(kwargs.values())))
        return mk(t.TEXT(ns[0].e))
    ctx.recursion = recursion
    got = I.call(M.get_raw_text, (c, t.node(t.root)))
    ctx.reach("read")
    ctx.prove("all the text, in order, with its styles", to_z3(got) == to_z3(t.base.G("text", t.base.n)))
