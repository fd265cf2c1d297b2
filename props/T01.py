"""T01 inline markup."""
import itertools
from pyvc.api import bounded, unit
from pyvc import decks, toks
from elsie.text.textparser import parse_text


def reference(text, esc, beg, end):
    """(characters with their enclosing sections, section names) or None if rejected"""
    ev, names, stack, i = [], [], [], 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == esc:
            j = text.find(beg, i + 1)
            if j < 0:
                return None
            stack.append(len(names))
            names.append(text[i + 1:j])
            ev.append(("begin",))
            i = j + 1
        elif c == end and stack:
            stack.pop()
            ev.append(("end",))
            i += 1
        else:
            ev.append((c, tuple(stack)))
            i += 1
    if stack:
        return None
    # line breaks at the very end of the text are dropped
    k = len(ev) - 1
    while k >= 0 and ev[k][0] in ("\n", "end"):
        if ev[k][0] == "\n":
            del ev[k]
        k -= 1
    return [e if e[0] != "\n" else ("\n", None) for e in ev if e[0] not in ("begin", "end")], names


def compare(B, text, esc="~", beg="{", end="}"):
    B.case((text, esc, beg, end))
    ref = reference(text, esc, beg, end)
    try:
        tk = parse_text(text, escape_char=esc, begin_char=beg, end_char=end)
    except Exception as e:
        B.check(ref is None, "correct text rejected: %s" % e, text=text)
        return
    B.check(ref is not None, "unclosed section accepted", text=text, tokens=tk)
    try:
        chars, names = toks.flat(tk)
    except ValueError as e:
        B.fail("sections not properly nested: %s" % e, text=text, tokens=tk)
    got = [(c, st) if c != "\n" else ("\n", None) for c, st in chars]
    B.eq(got, ref[0], "characters and their sections", text=text, tokens=tk)
    B.eq(names, ref[1], "section names", text=text, tokens=tk)


@bounded("exhaustive", "every text up to length 6 (thorough: 8) over '~ { } a newline'")
def exhaustive(B):
    for n in range(0, 7 if not B.thorough else 9):
        for t in itertools.product("~{}a\n", repeat=n):
            compare(B, "".join(t))


@bounded("random", "random longer texts, other escape characters, no escape character, unicode")
def rand(B):
    for _ in range(B.n(4000, 60000)):
        esc, beg, end = B.rng.choice(["~{}", "~{}", "#[]", "!()", "$||"])
        alpha = esc + beg + end + "ab \n\u00e9" + "~{}"
        if B.rng.random() < 0.5:
            alpha = (esc + beg + end) * 2 + "a\n" + "".join(B.rng.sample("\\\"'&<>\t\r\x0b\x1c\u2028\u00a0*_-#0:;|/.", 3))
        compare(B, "".join(B.rng.choice(alpha) for _ in range(B.rng.randint(5, 40))), esc, beg, end)
    for _ in range(B.n(300)):
        t = "".join(B.rng.choice("~{}a\nb") for _ in range(B.rng.randint(0, 12)))
        B.case((None, t))
        tk = parse_text(t, escape_char=None)
        B.eq(toks.plain(tk), t.rstrip("\n"), "text without escape character", text=t)
        B.check(all(k in ("text", "newline") for k, _ in tk), "no sections without escape character", tokens=tk)


@bounded("decks", "texts with markup drawn on slides: characters and lines of the page, three-character escapes")
def drawn(B):
    for _ in range(B.n(150, 1500)):
        esc = B.rng.choice(["~", "#[]", "@"])
        e, b, c = (esc if len(esc) == 3 else esc + "{}")
        parts = []

        def mk(depth):
            s = ""
            for _ in range(B.rng.randint(0, 4)):
                k = B.rng.randint(0, 3)
                if k < 2:
                    s += B.rng.choice(["x", "yy ", "&<", "\n", " z"])
                elif depth:
                    s += e + B.rng.choice(["emph", "tt", "alert", "#q"] if e != "#" else ["emph", "tt"]) + b + \
                        mk(depth - 1) + c
            return s
        text = mk(2) + "E"
        B.case((text, esc))
        ref, _ = reference(text, e, b, c)
        want = "".join(x for x, _ in ref)
        d = decks.deck()
        d.new_slide().text(text, escape_char=esc)
        root = decks.parse(decks.svgs(d)[0])
        lines = [""]
        t = root.find(".//s:text", decks.NS)
        for el in t.iter():
            pass

        def rec(el):
            if el.get("dy") is not None:
                n = round(float(el.get("dy")) / 33.6)
                lines.extend([""] * n)
            lines[-1] += el.text or ""
            for ch in el:
                rec(ch)
                lines[-1] += ch.tail or ""
        rec(t)
        B.eq("\n".join(lines).replace("\u00a0", " "), want, "drawn text", text=text)


# ------------------------------------------------------------------ proofs
def traces(ctx):
    """lists of tokens by their tokens in order"""
    import z3
    from pyvc.core import to_z3
    from pyvc.values import Measure
    from props import _toks as K
    D = z3.Datatype("Trace")
    D.declare("empty")
    D.declare("tok", ("before", D), ("kind", K.S), ("text", K.S), ("count", K.Z))
    D = D.create()

    def then(t, x):
        k, s, n = K.read_token(x)
        return D.tok(t, k, s, n)
    ctx.measures["tokens"] = Measure("tokens", D, D.empty, lambda get, x: then(to_z3(get("tokens")), x))
    return D


def canonical(ctx, D, t):
    """what token lists stand for: empty texts are nothing, neighbouring line breaks are one, line breaks come behind
    the ends of sections, and only count if something follows. Folds: the list so far, and the line breaks that wait."""
    import z3
    from pyvc.core import to_z3
    from props import _toks as K
    b = t.base

    def flush(T, w):
        return z3.If(w == 0, T, D.tok(T, K.NL, K.NO, w))

    def step(k, G):
        T, w = to_z3(G("canon")), to_z3(G("wait"))
        kd = t.kind(k)
        return z3.If(kd == K.TEXT, z3.If(t.text(k) == K.NO, T, D.tok(flush(T, w), K.TXT, t.text(k), 0)), z3.If(
            kd == K.NEWLINE, T, z3.If(kd == K.BEGIN, D.tok(flush(T, w), K.OPEN, t.text(k), 0),
                                      D.tok(T, K.CLOSE, K.NO, 0))))

    def wait(k, G):
        w = to_z3(G("wait"))
        kd = t.kind(k)
        return z3.If(kd == K.NEWLINE, w + t.count(k), z3.If(
            z3.Or(kd == K.END, z3.And(kd == K.TEXT, t.text(k) == K.NO)), w, 0))
    b.fold("canon", D, D.empty, step)
    b.fold("wait", K.Z, z3.IntVal(0), wait)

    def lemma(k):
        T, w, o = (to_z3(b.G(n, k)) for n in ("canon", "wait", "open"))
        old(k)
        return z3.And(w >= 0, z3.Implies(o > 0, D.is_tok(T)), z3.Implies(D.is_tok(T), D.kind(T) != K.NL),
                      z3.Implies(D.is_empty(T), z3.And(o == 0)))
    old = t.facts
    b.induct("no list ends with a line break of its own", lemma)

    def facts(k):
        old(k)
        ctx.assume(lemma(k))
    t.facts = facts
    return flush


def upto(D, G, flush):
    """loop invariants: a list holds what the tokens so far stand for"""
    def inv(view, x, bases):
        out = []
        if x is None:
            return out
        T, w = G("canon", x), G("wait", x)
        for key, d in view.items():
            for comp, v in d.items():
                if comp.endswith("m:tokens"):
                    out.append(("%s%s==what the tokens stand for" % (key, comp), lambda v=v: v == flush(T, w)))
        return out
    return inv


@unit("line breaks and empty texts: what a token list stands for", functions=["normalize_tokens"])
def u_normalize(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import measure_states, mk_eq
    from elsie.text.textparser import normalize_tokens
    from props import _toks as K
    I, t = Interp(ctx), K.Tokens(ctx)
    D = traces(ctx)
    K.balanced(ctx, t)
    flush = canonical(ctx, D, t)
    ctx.invariants.append(upto(D, lambda n, k: to_z3(t.base.G(n, k)), flush))
    r = I.call(normalize_tokens, (t.given,))
    ctx.reach("normal")
    ctx.prove("the given tokens are unchanged", not t.given.mutated)
    ctx.prove("exactly what the tokens stand for, without line breaks at the end",
              mk_eq(measure_states(r)["tokens"], t.base.G("canon", t.n)))


class Text:
    """The text: any characters, with the marks of the markup among them. The reading of it, character by character:
    folds "name" (in the name of a section), "depth" (open sections), "start" (where the current piece begins), "raw"
    (pieces, names and ends so far); position n stands for the end of the text."""
    _pyvc_stub = True

    def __init__(self, ctx, D, esc, beg, end):
        import z3
        from pyvc.core import to_z3
        from pyvc.values import Base
        from props import _toks as K
        self.ctx, self.D = ctx, D
        S, Z = K.S, K.Z
        n = ctx.int("length")
        self.n = n = to_z3(n)
        ctx.assume(n >= 0)
        self.base = b = Base(n + 1, "text")
        self.CH, self.SUB = z3.Function("char", Z, S), z3.Function("piece", Z, Z, S)
        self.marks = esc, beg, end
        no = z3.BoolVal(False)
        E, Bg, En = [(lambda k: no) if m is None else (lambda k, m=to_z3(m): self.CH(k) == m) for m in (esc, beg, end)]
        piece = lambda G, k: self.SUB(to_z3(G("start")), k)
        tok = lambda T, kind, s=K.NO: D.tok(T, kind, s, z3.IntVal(0))

        def cases(k, G, opens, begins, ends, stays):
            """by what happens at position k"""
            name, d = to_z3(G("name")), to_z3(G("depth"))
            return z3.If(name, z3.If(z3.Or(k == n, Bg(k)), begins, stays), z3.If(
                k == n, stays, z3.If(E(k), opens, z3.If(z3.And(En(k), d >= 1), ends, stays))))

        def fold(name, sort, init, f):
            b.fold(name, sort, init, lambda k, G: cases(k, G, *f(k, G, to_z3(G(name)))))
        fold("name", K.B_, no, lambda k, G, v: (z3.BoolVal(True), no, v, v))
        fold("depth", Z, z3.IntVal(0), lambda k, G, v: (v, v + 1, v - 1, v))
        fold("start", Z, z3.IntVal(0), lambda k, G, v: (k + 1, k + 1, k + 1, v))
        fold("raw", D, D.empty, lambda k, G, v: (
            tok(v, K.TXT, piece(G, k)), tok(v, K.OPEN, piece(G, k)), tok(tok(v, K.TXT, piece(G, k)), K.CLOSE), v))

        def lemma(k):
            return z3.And(self.G("depth", k) >= 0, self.G("start", k) >= 0, self.G("start", k) <= k)
        b.induct("pieces begin before they end", lemma)
        self.lemma = lemma

    def G(self, name, k):
        from pyvc.core import to_z3
        return to_z3(self.base.G(name, k))

    def at(self, k):
        import z3
        self.base.at(k)
        self.ctx.assume(z3.Implies(z3.And(k >= 0, k <= self.n), z3.And(self.lemma(k), self.lemma(k + 1))))

    def _pyvc_len(self):
        from pyvc.core import mk
        return mk(self.n)

    def _pyvc_truth(self):
        from pyvc.core import mk
        return mk(self.n > 0)

    def _pyvc_isinstance(self, t):
        return str in (t if isinstance(t, tuple) else (t,))

    def _pyvc_getitem(self, i):
        import z3
        from pyvc.core import SStr, Unsupported, mk, to_z3
        from pyvc.values import mark
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice")
            a, b = to_z3(0 if i.start is None else i.start), to_z3(self.n if i.stop is None else i.stop)
            for v in (a, b):
                self.at(z3.simplify(v))
                if not self.ctx.branch(v >= 0):
                    raise Unsupported("negative index")
            if self.ctx.branch(b > self.n):
                b = self.n
            if not self.ctx.branch(a <= b):
                return ""
            return mk(self.SUB(a, b))
        k = to_z3(i)
        if not self.ctx.branch(z3.And(k >= 0, k < self.n)):
            if self.ctx.branch(k < 0):
                raise Unsupported("negative index")
            raise mark(IndexError("string index out of range"))
        self.at(z3.simplify(k))
        return mk(self.CH(k))

    def invariants(self, view, x, bases):
        """positions and what was read up to them"""
        import z3
        from pyvc.core import to_z3
        from pyvc.interp import num
        ints, raws = [], []
        for key, d in view.items():
            for comp, v in d.items():
                lab = "%s%s" % (key, comp)
                if isinstance(key[1], str) and not comp and num(v) and z3.is_int(to_z3(v)):
                    ints.append((lab, to_z3(v)))
                elif comp.endswith("m:tokens"):
                    raws.append((lab, v))
        out = []
        if x is not None:
            return out
        for la, a in ints:
            self.at(z3.simplify(a))
            out.append((la + ">=0", a >= 0))
            out.append((la + "<=n", a <= self.n))
            out.append((la + "<=n+1", a <= self.n + 1))
            out.append((la + " beyond the end only in a name", z3.Implies(a > self.n, self.G("name", self.n))))
            out.append((la + " in a name", self.G("name", a)))
            out.append((la + " in a text", z3.Not(self.G("name", a))))
            for lr, r in raws:
                out.append((lr + "==read up to " + la, r == self.G("raw", a)))
            for lb, b in ints:
                if la != lb:
                    out.append((lb + "==depth at " + la, b == self.G("depth", a)))
                    out.append((lb + "==start at " + la, b == self.G("start", a)))
        return out


class Lines:
    """str.split at line breaks: parts, and what the parts of a text stand for"""

    def __init__(self, ctx, D):
        import z3
        from props import _toks as K
        self.ctx, self.D = ctx, D
        S, Z = K.S, K.Z
        self.NP, self.PART = z3.Function("n_lines", S, Z), z3.Function("line", S, Z, S)
        self.PT = z3.Function("lines_up_to", D, S, Z, D)     # after a list, the first j+1 lines of a text
        self.BR = z3.Function("broken", D, D)                # the list with the texts broken at their line breaks
        self.texts = {}
        ctx.str_hooks["split"] = self.split

    def split(self, s, sep=None, *a):
        from pyvc.core import SStr, Unsupported, mk, to_z3
        from pyvc.values import Base, VSeq
        if sep != "\n" or a:
            raise Unsupported("split")
        e = to_z3(s)
        self.ctx.assume(self.NP(e) >= 1)
        base = Base(mk(self.NP(e)), "lines")
        self.texts[base] = e
        return VSeq(base, lambda j: mk(self.PART(e, j)))
    split.__module__ = "props.T01"

    def first(self, T, s):
        import z3
        from props import _toks as K
        D = self.D
        return D.tok(T, K.TXT, self.PART(s, 0), z3.IntVal(0))

    def parts(self, T, s, j):
        """defining equations at j"""
        import z3
        from props import _toks as K
        D = self.D
        self.ctx.assume(self.PT(T, s, 0) == self.first(T, s))
        nxt = D.tok(D.tok(self.PT(T, s, j), K.NL, K.NO, z3.IntVal(1)), K.TXT, self.PART(s, j + 1), z3.IntVal(0))
        self.ctx.assume(z3.Implies(j >= 0, self.PT(T, s, j + 1) == nxt))
        return self.PT(T, s, j)

    def broken(self, R):
        """defining equation at R"""
        import z3
        from props import _toks as K
        D = self.D
        B = self.BR(D.before(R))
        self.ctx.assume(self.BR(D.empty) == D.empty)
        self.ctx.assume(z3.Implies(D.is_tok(R), self.BR(R) == z3.If(
            D.kind(R) == K.TXT, self.PT(B, D.text(R), self.NP(D.text(R)) - 1),
            D.tok(B, D.kind(R), D.text(R), D.count(R)))))
        return self.BR(R)

    def invariants(self, view, x, bases):
        import z3
        from pyvc.core import to_z3
        out = []
        if x is None:
            return out
        lists = [("%s%s" % (key, comp), v) for key, d in view.items() for comp, v in d.items()
                 if comp.endswith("m:tokens")]
        for b in bases:
            if b in self.texts:
                k, outer = self.outer()
                if k is not None:
                    T = self.BR(outer(k))
                    s = self.texts[b]
                    self.parts(T, s, x)
                    p = self.parts(T, s, x - 1)
                    for lab, v in lists:
                        out.append((lab + "==lines so far", v == p))
            elif "tokens" in b.folds:
                self.list = b
                R = to_z3(b.G("tokens", x))
                for lab, v in lists:
                    out.append((lab + "==broken so far", v == self.broken(R)))
        return out

    def outer(self):
        from pyvc.core import to_z3
        b = getattr(self, "list", None)
        k = self.ctx.cur_k.get(b.label) if b is not None else None
        return k, lambda k: to_z3(b.G("tokens", k))


@unit("inline markup: the sections, texts and line breaks of every text", budget=300, functions=["parse_text"])
def u_parse(ctx):
    import z3
    from pyvc.core import to_z3
    from pyvc.interp import Interp
    from pyvc.values import Abs, ForAll, Measure, VList, measure_states, mk_eq, vlen
    from props import _toks as K
    I = Interp(ctx)
    D = traces(ctx)
    esc = ctx.str("escape") if ctx.choose(2, "markup") else None
    beg, end = ctx.str("begin"), ctx.str("end")
    t = Text(ctx, D, esc, beg, end)
    ls = Lines(ctx, D)
    ctx.measures["open"] = Measure("open", K.Z, z3.IntVal(0), lambda get, x: depth(K, to_z3(get("open")), x))
    ctx.measures["fine"] = Measure("fine", K.B_, z3.BoolVal(True), lambda get, x: z3.And(
        to_z3(get("fine")), depth(K, to_z3(get("open")), x) >= 0))
    ctx.measures["formed"] = ForAll("formed", formed)
    CANON = z3.Function("stands_for", D, D)
    given = []

    def normal(tokens):
        st = measure_states(tokens)
        given.append(to_z3(st["tokens"]))
        ctx.prove("sections are closed after they are opened", to_z3(st["fine"]))
        ctx.prove("every section is closed", to_z3(st["open"]) == 0)
        r = VList(tag="normal")
        n = ctx.fresh("n_normal", K.Z)
        ctx.assume(n >= 0)
        r.abs = Abs({"tokens": CANON(given[-1])}, n, [("unknown",)])
        return r
    normal.__module__ = "props.T01"
    ctx.contracts["text.textparser.normalize_tokens"] = normal
    ctx.invariants.append(t.invariants)
    ctx.invariants.append(ls.invariants)
    n = t.n
    t.at(n)
    t.at(z3.IntVal(0))
    fine = t.G("depth", n + 1) == 0
    try:
        r = I.call(parse_text, (t,), dict(escape_char=esc, begin_char=beg, end_char=end))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("rejected")
        ctx.prove("only a section left open is rejected", z3.Not(fine))
        return
    ctx.reach("parsed")
    ctx.prove("a section left open is rejected", fine)
    raw = t.G("raw", n)
    st = t.G("start", n)
    whole = z3.If(st < n, D.tok(raw, K.TXT, t.SUB(st, n), 0), raw)
    ls.broken(whole)
    ctx.prove("the tokens are the pieces of the text, broken into lines", given[-1] == ls.BR(whole))
    ctx.prove("what is returned is what they stand for", mk_eq(measure_states(r)["tokens"], CANON(given[-1])))


def depth(K, d, x):
    import z3
    k = K.read_token(x)[0]
    return z3.simplify(z3.If(k == K.OPEN, d + 1, z3.If(k == K.CLOSE, d - 1, d)))


def formed(x):
    """texts and names of sections are texts, an end has nothing"""
    import z3
    from props import _toks as K
    k = K.read_token(x)[0]
    v = x[1]
    return k == K.CLOSE if v is None else k == K.NL if z3.is_int(getattr(v, "e", v)) or isinstance(v, int) else \
        z3.Or(k == K.TXT, k == K.OPEN)
