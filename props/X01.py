"""X01 XML builder."""
from pyvc.api import bounded, unit
import lxml.etree as et
from elsie.utils.sxml import Xml

ALPHA = "ab <>&'\"\t\n\r\\;#]-\u00e9\u2800\u00a0/=]]>"


def rstr(rng, n=8):
    return "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, n)))


def build(rng, x, depth):
    """Drive the builder; return the reference node (name, attrs, [children | text])"""
    name = rng.choice(["g", "text", "tspan", "svg"])
    x.element(name)
    attrs = {}
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(["a", "b", "style", "id"])
        if k in attrs:
            continue
        v = rng.choice([rstr(rng), 5, 1.5, rstr(rng, 3)])
        x.set(k, v)
        attrs[k] = str(v)
    kids = []
    for _ in range(rng.randint(0, 4) if depth else 0):
        if rng.random() < 0.5:
            t = rstr(rng)
            x.text(t)
            kids.append(t)
        else:
            kids.append(build(rng, x, depth - 1))
    x.close(name if rng.random() < 0.7 else None)
    return (name, attrs, kids)


def check(B, el, ref):
    name, attrs, kids = ref
    B.eq(el.tag, name, "element name")
    B.eq(dict(el.attrib), attrs, "attribute values")
    merged = [""]
    for k in kids:
        if isinstance(k, str):
            merged[-1] += k.replace(" ", "\u00a0")
        else:
            merged += [k, ""]
    B.eq(el.text or "", merged[0], "text")
    B.eq(len(el), len(merged) // 2, "number of child elements")
    for i, c in enumerate(el):
        check(B, c, merged[2 * i + 1])
        B.eq(c.tail or "", merged[2 * i + 2], "text after a child")


@bounded("documents", "random documents of depth 3 with adversarial strings, read back by lxml")
def documents(B):
    for _ in range(B.n(3000, 40000)):
        x = Xml()
        ref = build(B.rng, x, 3)
        B.case(ref)
        s = x.to_string()
        try:
            root = et.fromstring(s.encode())
        except et.XMLSyntaxError as e:
            B.fail("not well-formed: %s" % e, xml=s)
        check(B, root, ref)
        if B.rng.random() < 0.02:
            x.write("out.xml")
            B.eq(open("out.xml", newline="").read(), s, "written document")


@bounded("misuse", "wrong and missing closes, attributes outside tags, unfinished documents, in random documents")
def misuse(B):
    for _ in range(B.n(500, 5000)):
        x = Xml()
        n = B.rng.randint(0, 4)
        names = [B.rng.choice("abc") for _ in range(n)]
        for m in names:
            x.element(m)
            if B.rng.random() < 0.5:
                x.text("t")
        B.case(names)
        if n:
            B.raises(lambda: x.to_string(), "unfinished document")
            B.raises(lambda: x.write("f.xml"), "unfinished document written")
            wrong = "z"
            B.raises(lambda: x.close(wrong), "wrong element closed")
            x.text("")
            B.raises(lambda: x.set("k", "v"), "attribute outside a tag")
            for m in reversed(names):
                x.close(m)
        else:
            B.raises(lambda: x.set("k", "v"), "attribute without a tag")
        B.raises(lambda: x.close(), "no element to close")
        B.raises(lambda: x.close("a"), "no element to close")
        if n:
            B.raises(lambda: x.set("k", "v"), "attribute after the document")
            et.fromstring(x.to_string())


# ------------------------------------------------------------------ proofs
CONTENT, LT, LTS, TAG, ENDTAG, SLASH, WS, ATTR, EQ, VAL1, VAL2, BAD = range(12)
WHITE = " \t\n\r"


READS = {}


class Part:
    """the characters of an unknown text, each replaced as the table says (others stay as they are)"""

    def __init__(self, text, table):
        self.text, self.table = text, table

    def map(self, f, more):
        t = dict(self.table)
        for c in more:
            t.setdefault(c, c)
        return Part(self.text, {c: f(v) for c, v in t.items()})

    def reads_as(self, where):
        """does a parser read every character of the text (in an attribute or an element) as it should?"""
        key = (where, tuple(sorted(self.table.items())))
        if key not in READS:
            READS[key] = self._reads_as(where)
        return READS[key]

    def _reads_as(self, where):
        for c in sorted(set(self.table) | set("&<>'\"\t\n\r ;#]=/ab0")):
            raw = self.table.get(c, c)
            want = "\u00a0" if c == " " and where == "text" else c
            if where == "text" and ">" in raw:
                return False    # could end up behind ]]
            q = {"'": "'", '"': '"'}.get(where)
            for a, b in (("", ""), ("a", "b"), ("&#38;", "&#59;"), ("]]", ";")):
                doc = "<x>%s%s%s</x>" % (a, raw, b) if q is None else "<x y=%s%s%s%s%s/>" % (q, a, raw, b, q)
                try:
                    e = et.fromstring(doc.encode("utf8"))
                except et.XMLSyntaxError:
                    return False
                got = (e.text or "") if q is None else e.get("y")
                if len(e) or got != a.replace("&#38;", "&") + want + b.replace("&#59;", ";"):
                    return False
        return True


def text_hooks(ctx):
    """str.replace and str.translate of unknown texts, character by character"""
    from pyvc.core import SStr

    def parts_of(s):
        return [p for p in s.parts]

    def replace(s, old, new, *count):
        if count or not isinstance(old, str) or len(old) != 1 or not isinstance(new, str):
            return None
        out = []
        for p in parts_of(s):
            if isinstance(p, TextPart):
                out.append(TextPart(p.part.map(lambda v: v.replace(old, new), [old])))
            elif isinstance(p, str):
                out.append(p.replace(old, new))
            else:
                return None
        return SStr(tuple(out))

    def translate(s, table):
        if not isinstance(table, dict) or not all(isinstance(k, int) and isinstance(v, (str, int, type(None)))
                                                  for k, v in table.items()):
            return None
        out = []
        for p in parts_of(s):
            if isinstance(p, TextPart):
                out.append(TextPart(p.part.map(lambda v: v.translate(table), [chr(k) for k in table])))
            elif isinstance(p, str):
                out.append(p.translate(table))
            else:
                return None
        return SStr(tuple(out))
    ctx.str_hooks["replace"], ctx.str_hooks["translate"] = replace, translate


from pyvc.core import Sym  # noqa: E402


class TextPart(Sym):
    """part of a symbolic text"""
    __slots__ = ("part",)

    def __init__(self, part):
        self.part = part

    def __repr__(self):
        return "TextPart"


class Doc:
    """reference parser over the pieces of a document, and the reference meaning of the calls"""

    def __init__(self, ctx):
        import z3
        from pyvc.core import SStr, Sym, Unsupported, mk, to_z3
        from pyvc.values import Measure, NotApplicable
        from props._box import M, START
        self.ctx = ctx
        S, Z = z3.StringSort(), z3.IntSort()
        self.TEXT = z3.DeclareSort("Text")
        self.ST = z3.DeclareSort("Stack")
        fn = z3.Function
        self.ev = {k: fn("then_" + k, M, s, M) for k, s in (("start", S), ("end", S), ("attr", S), ("value", self.TEXT),
                                                             ("text", self.TEXT), ("char", Z))}
        self.PUSH_, self.TOP, self.REST = fn("push", self.ST, S, self.ST), fn("top", self.ST, S), fn("rest", self.ST, self.ST)
        self.EMPTY = z3.Const("no_element", self.ST)
        START_NAME = z3.StringVal("")

        def pieces(x):
            if isinstance(x, str):
                return [x]
            if isinstance(x, SStr):
                return list(x.parts)
            raise NotApplicable()

        def run(mode, cur, ev, x):
            for p in pieces(x):
                if isinstance(p, str):
                    for c in p:
                        mode, cur, ev = self.char(mode, cur, ev, c)
                elif isinstance(p, TextPart):
                    where = {CONTENT: "text", VAL1: "'", VAL2: '"'}.get(mode)
                    if where is None or not p.part.reads_as(where):
                        mode = BAD
                    else:
                        ev = self.ev["text" if where == "text" else "value"](ev, p.part.text)
                elif z3.is_expr(p) and p.sort() == S:
                    if mode == LT:
                        mode, cur, ev = TAG, p, self.ev["start"](ev, p)
                    elif mode == LTS:
                        mode, ev = ENDTAG, self.ev["end"](ev, p)
                    elif mode == WS:
                        mode, ev = ATTR, self.ev["attr"](ev, p)
                    else:
                        mode = BAD
                else:
                    raise NotApplicable()
            return mode, cur, ev

        def step(i):
            def f(get, x):
                m, cur, ev = to_z3(get("mode")), to_z3(get("cur")), to_z3(get("events"))
                if z3.is_int_value(m):
                    r = run(m.as_long(), cur, ev, x)[i]
                    return mk(z3.IntVal(r)) if i == 0 else r if i == 2 else mk(r)
                outs = [run(k, cur, ev, x)[i] for k in range(BAD)] + [(BAD, cur, ev)[i]]
                e = z3.IntVal(outs[BAD]) if i == 0 else outs[BAD]
                for k in reversed(range(BAD)):
                    e = z3.If(m == k, z3.IntVal(outs[k]) if i == 0 else outs[k], e)
                return e if i == 2 else mk(e)
            return f

        def push(get, x):
            try:
                return self.PUSH(get("stack"), to_z3(x))
            except (Unsupported, AttributeError, TypeError, NotImplementedError):
                raise NotApplicable()
        ctx.measures["mode"] = Measure("mode", Z, z3.IntVal(CONTENT), step(0))
        ctx.measures["cur"] = Measure("cur", S, START_NAME, step(1))
        ctx.measures["events"] = Measure("events", M, START, step(2))
        ctx.measures["stack"] = Measure("stack", self.ST, self.EMPTY, push)
        self.start, self.start_name = START, START_NAME

    def PUSH(self, s, x):
        e = self.PUSH_(s, x)
        self.ctx.assume(__import__("z3").And(self.TOP(e) == x, self.REST(e) == s))
        return e

    def char(self, mode, cur, ev, c):
        if mode == CONTENT:
            if c == "<":
                return LT, cur, ev
            if c in "&>":
                return BAD, cur, ev
            return mode, cur, self.ev["char"](ev, ord(c))
        if mode == LT and c == "/":
            return LTS, cur, ev
        if mode in (TAG, WS):
            if c in WHITE:
                return WS, cur, ev
            if c == ">":
                return CONTENT, cur, ev
            if c == "/":
                return SLASH, cur, ev
        if mode == SLASH and c == ">":
            return CONTENT, cur, self.ev["end"](ev, cur)
        if mode == ENDTAG and c in WHITE:
            return mode, cur, ev
        if mode == ENDTAG and c == ">":
            return CONTENT, cur, ev
        if mode == ATTR and c == "=":
            return EQ, cur, ev
        if mode == EQ and c in "'\"":
            return VAL1 if c == "'" else VAL2, cur, ev
        if mode in (VAL1, VAL2) and c == {VAL1: "'", VAL2: '"'}[mode]:
            return TAG, cur, ev
        return BAD, cur, ev


class Calls:
    """any sequence of calls of the builder, with its meaning"""

    def __init__(self, ctx, doc):
        import z3
        from pyvc.core import SStr, mk, to_z3
        from pyvc.interp import MList
        from pyvc.values import Base, VSeq
        from props._box import M
        self.ctx, self.doc = ctx, doc
        S, Z = z3.StringSort(), z3.IntSort()
        op, name, text = (z3.Function(n, Z, s) for n, s in (("op", Z), ("name", S), ("text", doc.TEXT)))
        self.op, self.name = op, name
        n = ctx.int("calls")
        ctx.assume(n >= 0)
        b = self.base = Base(n, "calls")
        g = lambda G, k: to_z3(G(k))
        opens = lambda k: op(k) == 0
        closes = lambda k: op(k) >= 3
        ev = doc.ev

        def opened(k, G):
            # the calls are legal ones
            ctx.assume(z3.Implies(z3.And(k >= 0, k < n.e), self.rules(op(k), name(k), k)))
            return z3.Or(opens(k), z3.And(op(k) == 1, g(G, "opened")))

        b.fold("mode", Z, z3.IntVal(CONTENT), lambda k, G: z3.If(z3.Or(
            opens(k), z3.And(op(k) == 1, g(G, "opened"))), TAG, CONTENT))
        b.fold("cur", S, doc.start_name, lambda k, G: z3.If(opens(k), name(k), g(G, "cur")))
        b.fold("depth", Z, z3.IntVal(0), lambda k, G: g(G, "depth") + z3.If(opens(k), 1, z3.If(closes(k), -1, 0)))
        b.fold("stack", doc.ST, doc.EMPTY, lambda k, G: z3.If(
            opens(k), doc.PUSH(G("stack"), name(k)), z3.If(closes(k), doc.REST(G("stack")), G("stack"))))
        b.fold("events", M, doc.start, lambda k, G: z3.If(
            opens(k), ev["start"](G("events"), name(k)), z3.If(
                op(k) == 1, ev["value"](ev["attr"](G("events"), name(k)), text(k)), z3.If(
                    op(k) == 2, ev["text"](G("events"), text(k)), ev["end"](G("events"), doc.TOP(G("stack")))))))
        b.fold("opened", z3.BoolSort(), z3.BoolVal(False), opened)
        self.seq = MList(VSeq(b, lambda k: (mk(op(k)), SStr((name(k),)), SStr((TextPart(Part(text(k), {})),)))))

    def at(self, f, k):
        return self.base.folds[f][0](k)

    def legal(self):
        self.lemma(self.ctx.cur_k["calls"])

    def lemma(self, *at):
        import z3
        self.base.induct("the element being opened is the innermost", lambda j: z3.And(
            self.at("depth", j) >= 0, self.at("mode", j) == z3.If(self.at("opened", j), TAG, CONTENT), z3.Implies(self.at("opened", j), z3.And(
                self.doc.TOP(self.at("stack", j)) == self.at("cur", j), self.at("depth", j) > 0))), at=at)

    def rules(self, op, name, k):
        import z3
        top = self.doc.TOP(self.at("stack", k))
        return z3.And(op >= 0, op <= 4, z3.Implies(op == 1, self.at("opened", k)),
                      z3.Implies(op >= 3, self.at("depth", k) > 0), z3.Implies(op == 4, name == top))


@unit("documents of any sequence of calls", functions=["Xml.element", "Xml.set", "Xml.text", "Xml.close", "Xml.to_string",
                                                        "escape_text"], budget=300)
def u_document(ctx):
    import z3
    from pyvc.core import SStr
    from pyvc.interp import Interp
    from pyvc.strs import SJoin
    from pyvc.values import NA, VList, measure_states
    from props.clients.X01 import write
    doc = Doc(ctx)
    I = Interp(ctx)
    text_hooks(ctx)
    calls = Calls(ctx, doc)
    legal = calls.legal
    x = I.call(Xml)
    I.call(write, (x, calls.seq, lambda: legal()))
    n = calls.base.n
    calls.lemma()
    what = ("finish", "set", "close", "close name")[ctx.choose(4, "last")]
    name = ctx.str("last_name")
    depth, opened = calls.at("depth", n), calls.at("opened", n)
    try:
        if what == "finish":
            s = I.call(x.to_string)
        elif what == "set":
            I.call(x.set, (name, "v"))
        elif what == "close":
            I.call(x.close)
        else:
            I.call(x.close, (name,))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("refused " + what)
        if what == "finish":
            ctx.prove("a finished document is accepted", depth != 0)
        return
    ctx.reach(what)
    if what == "set":
        ctx.prove("an attribute needs an open tag", opened)
    elif what != "finish":
        ctx.prove("only open elements can be closed", depth != 0)
        if what == "close name":
            ctx.prove("only the innermost element can be closed", name.expr() == doc.TOP(calls.at("stack", n)))
    else:
        ctx.prove("an unfinished document is refused", depth == 0)
        l = VList(tag="document")
        st = None
        if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], SJoin) and s.parts[0].sep == "":
            seq = s.parts[0].seq
            if isinstance(seq, VList):
                st = measure_states(seq)
        if st is None:
            from pyvc.core import Unsupported
            raise Unsupported("document of another form")
        ctx.prove("exactly the requested elements, attributes and texts", z3.BoolVal(False) if st["events"] is NA
                  else st["events"] == calls.at("events", n))
        from pyvc.core import to_z3
        ctx.prove("no piece of markup is left open", to_z3(st["mode"]) == z3.If(opened, TAG, CONTENT))
        ctx.prove("no tag is left open", z3.Not(opened))
