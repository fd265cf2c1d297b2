"""T02 line numbers, line extraction, style removal."""
from pyvc.api import bounded, unit
from pyvc import decks, toks
from elsie.text.textparser import (add_line_numbers, extract_line, number_of_lines, parse_text,
                                   tokens_to_text_without_style)


def texts(B, n):
    for _ in range(n):
        yield toks.rnd_tokens(B.rng, B.rng.randint(1, 14), styles=("a", "b", "#d", ""))


@bounded("numbers", "random balanced texts (also more than 9 and 99 lines)")
def numbers(B):
    rng = B.rng
    extra = [[("text", "x"), ("newline", k), ("begin", "a"), ("text", "y"), ("newline", 1), ("text", "q"),
              ("end", None)] for k in (1, 7, 8, 9, 10, 50, 97, 98, 99, 120)] + [[], [("text", "z")], [("newline", 3), ("text", "z")]]
    for tk in list(texts(B, B.n(2500, 30000))) + extra:
        B.case(tk)
        before = list(tk)
        out = add_line_numbers(tk)
        B.eq(tk, before, "the given text is unchanged")
        lines = toks.plain(tk).split("\n")
        B.eq(number_of_lines(tk), len(lines), "number of lines", tokens=tk)
        w = len(str(len(lines)))
        src = toks.named(tk)
        want, k = [], 0

        def put_no(enclosing):
            want.extend((c, enclosing + ("code_lineno",)) for c in str(k).zfill(w) + " ")
        # enclosing sections at every line start
        opened = []
        k = 1
        put_no(())
        for kind, v in tk:
            if kind == "begin":
                opened.append(v)
            elif kind == "end":
                opened.pop()
            elif kind == "text":
                want.extend((c, tuple(opened)) for c in v)
            else:
                for _ in range(v):
                    k += 1
                    want.append(("\n", None))
                    put_no(tuple(opened))
        try:
            got = toks.named(out)
        except ValueError as e:
            B.fail("numbered text is not balanced: %s" % e, tokens=tk, out=out)
        B.eq(got, want, "numbered text", tokens=tk, out=out)


@bounded("extract", "every section of random balanced texts")
def extract(B):
    for tk in texts(B, B.n(3000, 40000)):
        for i, (kind, v) in enumerate(tk):
            if kind != "begin":
                continue
            B.case((tk, i))
            line, idx = extract_line(list(tk), i)
            try:
                got = toks.named(line)
            except ValueError as e:
                B.fail("extracted line is not balanced: %s" % e, tokens=tk, index=i, line=line)
            # the line of the source that contains token i
            full = []
            opened = []
            lineno, my = 0, None
            for j, (k2, v2) in enumerate(tk):
                if j == i:
                    my = lineno
                if k2 == "begin":
                    opened.append(v2)
                elif k2 == "end":
                    opened.pop()
                elif k2 == "text":
                    full.extend((lineno, c, tuple(opened)) for c in v2)
                else:
                    lineno += v2
            want = [(c, st) for ln, c, st in full if ln == my]
            B.eq(got, want, "extracted line", tokens=tk, index=i, line=line)
            B.check(0 <= idx < len(line) and line[idx] == ("begin", v), "index of the section in the line",
                    tokens=tk, index=i, line=line, idx=idx)
            # the same section: it must contain the same text of this line
            def section(ts, p):
                dep, out = 0, []
                for k2, v2 in ts[p:]:
                    if k2 == "begin":
                        dep += 1
                    elif k2 == "end":
                        dep -= 1
                        if dep == 0:
                            return out
                    elif k2 == "text":
                        out.append(v2)
                    else:
                        return out
                return out
            B.eq("".join(section(line, idx)), "".join(section(tk, i)), "text of the section in the line", tokens=tk,
                 index=i, line=line)


@bounded("strip", "style removal on random texts")
def strip(B):
    for tk in texts(B, B.n(1500, 20000)):
        B.case(tk)
        B.eq(tokens_to_text_without_style(tk), toks.plain(tk), "text without styles", tokens=tk)


@bounded("code", "line numbers of code with and without highlighting on slides")
def code(B):
    for text in ("a\n\nb", "x = 1\n" * 11 + "y", "\n\nq", "# c\n\n\n# d"):
        for lang in ("", "python"):
            B.case((text, lang))
            d = decks.deck()
            d.new_slide().code(lang, text, line_numbers=True)
            t = decks.parse(decks.svgs(d)[0]).find(".//s:text", decks.NS)
            s = []

            def rec(el):
                if el.get("dy") is not None:
                    s.append("\n" * round(float(el.get("dy")) / 24))
                s.append(el.text or "")
                for ch in el:
                    rec(ch)
                    s.append(ch.tail or "")
            rec(t)
            src = text.strip("\n") if lang else text
            lines = src.split("\n")
            w = len(str(len(lines)))
            want = "\n".join(str(i + 1).zfill(w) + " " + ln for i, ln in enumerate(lines))
            B.eq("".join(s).replace("\u00a0", " "), want, "numbered code")


# ------------------------------------------------------------------ proofs
def start(ctx):
    from pyvc.interp import Interp
    from props import _toks as K
    I = Interp(ctx)
    return I, K, K.Tokens(ctx)


@unit("number of lines")
def u_lines(ctx):
    from pyvc.values import mk_eq
    I, K, t = start(ctx)
    n = I.call(number_of_lines, (t.given,))
    ctx.reach("lines")
    ctx.prove("one more line than line breaks", mk_eq(n, t.lines()))


@unit("style removal")
def u_strip(ctx):
    import z3
    from pyvc.core import SStr, mk, to_z3
    from pyvc.values import Measure, VList, mk_eq
    from pyvc.strs import SJoin
    from props import _draw as D, _toks as K
    I, K, t = start(ctx)
    breaks = z3.Function("line_breaks", K.Z, K.S)

    def repeat(s, n):
        if s != "\n":
            from pyvc.core import Unsupported
            raise Unsupported("repeated text")
        return mk(breaks(to_z3(n)))
    ctx.str_hooks["repeat"] = repeat
    t.base.fold("plain", K.S, z3.StringVal(""), lambda k, G: z3.If(
        t.kind(k) == K.TEXT, z3.Concat(to_z3(G("plain")), t.text(k)), z3.If(
            t.kind(k) == K.NEWLINE, z3.Concat(to_z3(G("plain")), breaks(t.count(k))), to_z3(G("plain")))))
    ctx.measures["joined"] = Measure("joined", K.S, z3.StringVal(""), lambda get, x: z3.Concat(
        to_z3(get("joined")), to_z3(x)))

    def join(s, l):
        from pyvc.values import measure_states
        return mk(to_z3(measure_states(l)["joined"])) if s == "" and isinstance(l, list) else NotImplemented
    ctx.str_hooks["join"] = join
    r = I.call(tokens_to_text_without_style, (t.given,))
    ctx.reach("text")
    ctx.prove("the characters and line breaks in order", mk_eq(r, t.base.G("plain", t.n)))


@unit("line numbers")
def u_numbers(ctx):
    import z3
    from pyvc.core import SNum, SStr, mk, to_z3
    from pyvc.values import Measure, Rec, VList, measure_states, mk_eq
    I, K, t = start(ctx)
    K.trace_measure(ctx)
    pad, digits = z3.Function("zero_padded", K.Z, K.Z, K.S), z3.Function("digits", K.Z, K.Z)
    numbered = z3.Function("with_numbered_lines", K.T, K.Z, K.Z, K.T)   # after a line, that many line breaks
    width = digits(t.lines())

    def lines(text):
        ctx.prove("the lines of the text are counted", K.is_prefix(text, t) is not None)
        return mk(t.lines(K.is_prefix(text, t)))
    lines.__module__ = "props.T02"
    ctx.contracts["text.textparser.number_of_lines"] = lines

    def number_of(s):
        if isinstance(s, str) and s.isdigit():
            return z3.IntVal(int(s))
        p = s.parts if isinstance(s, SStr) else ()
        return to_z3(p[0]) if len(p) == 1 and isinstance(p[0], SNum) and p[0].is_int else None

    def zfill(s, w):
        n = number_of(s)
        return None if n is None else mk(pad(n, to_z3(w)))

    def length(s):
        n = number_of(s)
        return None if n is None else mk(digits(n))
    ctx.str_hooks["zfill"], ctx.str_hooks["len"] = zfill, length

    def number(tr, line):
        tr = K.tok(tr, K.OPEN, z3.StringVal("code_lineno"))
        tr = K.tok(tr, K.TXT, z3.Concat(pad(line, width), z3.StringVal(" ")))
        return K.tok(tr, K.CLOSE)

    def breaks(k):
        """line breaks of token k: every new line gets its number"""
        m, line = to_z3(t.base.G("numbered", k)), t.lines(k)
        if not ctx.valid(t.kind(k) == K.NEWLINE):
            return
        r = Rec("lines", K.T, m, lambda j, v: number(K.tok(to_z3(v), K.NL, K.NO, 1), line + j + 1))
        ctx.assume(numbered(m, line, t.count(k)) == r.at(t.count(k)))
    t.base.fold("numbered", K.T, number(K.EMPTY, z3.IntVal(1)), lambda k, G: z3.If(
        t.kind(k) == K.NEWLINE, numbered(to_z3(G("numbered")), 1 + to_z3(G("newlines")), t.count(k)),
        K.at(t, k, to_z3(G("numbered")))))
    t.on_kind = breaks
    r = I.call(add_line_numbers, (t.given,))
    ctx.reach("numbered")
    ctx.prove("the given text is unchanged", not t.given.mutated)
    ctx.prove("every line starts with its number and nothing else changes",
              mk_eq(measure_states(r)["tokens"], t.base.G("numbered", t.n)))


@unit("open sections")
def u_open(ctx):
    from pyvc.core import to_z3
    from pyvc.values import measure_states, mk_eq, vlen
    from elsie.text.textparser import _open_blocks, _open_blocks_count
    I, K, t = start(ctx)
    K.trace_measure(ctx, depth=True)
    if ctx.choose(2):
        n = I.call(_open_blocks_count, (t.given,))
        ctx.reach("count")
        ctx.prove("number of open sections", mk_eq(n, t.base.G("open", t.n)))
        return
    K.balanced(ctx, t, whole=False)
    K.stack_fold(ctx, t)
    r = I.call(_open_blocks, (t.given,))
    ctx.reach("open")
    ctx.prove("the open sections in order", mk_eq(measure_states(r)["tokens"], t.base.G("stack", t.n)))
    ctx.prove("their number", mk_eq(vlen(r), t.base.G("open", t.n)))


def sections_contract(ctx, K, t):
    """_open_blocks, _open_blocks_count: as proved by the unit "open sections" """
    from pyvc.core import to_z3
    from pyvc.values import Abs, VList, VSeq, measure_states

    def opened(tokens):
        hi = K.is_prefix(tokens, t)
        if hi is None:
            return NotImplemented
        hi = to_z3(hi)
        t.base.at(hi)
        r = VList(tag="open sections")
        d = to_z3(t.base.G("open", hi))
        ctx.assume(d >= 0)
        r.abs = Abs({"tokens": t.base.G("stack", hi), "depth": t.base.G("open", hi)}, d, [("unknown",)])
        return r

    def count(tokens):
        if isinstance(tokens, VSeq):
            hi = K.is_prefix(tokens, t)
            return NotImplemented if hi is None else t.base.G("open", hi)
        return measure_states(tokens)["depth"]
    opened.__module__ = count.__module__ = "props.T02"
    ctx.contracts["text.textparser._open_blocks"] = opened
    ctx.contracts["text.textparser._open_blocks_count"] = count


@unit("line extraction")
def u_extract(ctx):
    import z3
    from pyvc.core import mk, to_z3
    from pyvc.values import Rec, measure_states, mk_eq
    I, K, t = start(ctx)
    K.trace_measure(ctx, depth=True)
    K.balanced(ctx, t)
    K.stack_fold(ctx, t)
    b = t.base

    def G(n, k):
        return to_z3(b.G(n, k))
    # the line up to token k, with the sections open at its start reopened; where token 0 would be in it
    b.fold("line", K.T, K.EMPTY, lambda k, g: z3.If(t.kind(k) == K.NEWLINE, to_z3(g("stack")),
                                                    K.at(t, k, to_z3(g("line")))))
    b.fold("origin", K.Z, z3.IntVal(0), lambda k, g: z3.If(t.kind(k) == K.NEWLINE, to_z3(g("open")) - (k + 1),
                                                           to_z3(g("origin"))))
    K.monotone(ctx, t)
    sections_contract(ctx, K, t)
    index = ctx.int("index")
    i = to_z3(index)
    ctx.assume(z3.And(i >= 0, i < to_z3(t.n)))
    b.at(i)
    t.facts(i)
    ctx.assume(t.kind(i) == K.BEGIN)
    # the end of its line: the next line break or the end of the text
    end = z3.Const("line_end", K.Z)
    b.at(end)
    t.facts(end)
    ctx.assume(z3.And(i <= end, end <= to_z3(t.n), G("newlines", i) == G("newlines", end),
                      z3.Or(end == to_z3(t.n), t.kind(end) == K.NEWLINE)))
    ends = Rec("ends", K.T, G("line", end), lambda j, v: K.tok(to_z3(v), K.CLOSE))
    r, idx = I.call(extract_line, (t.given, index))
    ctx.reach("line")
    ctx.prove("the given text is unchanged", not t.given.mutated)
    ctx.prove("exactly the line, its sections reopened and closed",
              mk_eq(measure_states(r)["tokens"], ends.at(G("open", end))))
    ctx.prove("the place of the token in the line", mk_eq(idx, G("origin", i) + i))
