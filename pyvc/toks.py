"""Independent reading of parsed texts (token lists) for the T/X/K stand-ins."""


def flat(tokens):
    """Per character/newline: (char, ids of the enclosing sections); plus list of section names in order.

    Raises ValueError if the tokens are not properly nested."""
    out, stack, names = [], [], []
    for kind, value in tokens:
        if kind == "text":
            for c in value:
                out.append((c, tuple(stack)))
        elif kind == "newline":
            if not isinstance(value, int) or value < 1:
                raise ValueError("newline %r" % (value,))
            for _ in range(value):
                out.append(("\n", tuple(stack)))
        elif kind == "begin":
            stack.append(len(names))
            names.append(value)
        elif kind == "end":
            if not stack:
                raise ValueError("end without begin")
            stack.pop()
        else:
            raise ValueError("token %r" % (kind,))
    if stack:
        raise ValueError("unclosed section")
    return out, names


def named(tokens):
    """Per character: (char, names of the enclosing sections outermost first); newlines: ('\\n', None)."""
    out, names = flat(tokens)
    return [(c, tuple(names[i] for i in st) if c != "\n" else None) for c, st in out]


def plain(tokens):
    return "".join(c for c, _ in flat(tokens)[0])


def rnd_tokens(rng, n, styles=("a", "b", "c"), text="xy é<", newline=True, depth=4, empty=True):
    """A random balanced, normalised-looking token list."""
    out, open_ = [], 0
    last = None
    for _ in range(n):
        k = rng.randint(0, 9)
        if k < 4 and last != "text":
            out.append(("text", "".join(rng.choice(text) for _ in range(rng.randint(1, 4)))))
        elif k < 6 and open_ < depth:
            out.append(("begin", rng.choice(styles)))
            open_ += 1
        elif k < 8 and open_:
            if last == "newline" or (not empty and last == "begin"):
                continue
            out.append(("end", None))
            open_ -= 1
        elif newline and last != "newline":
            out.append(("newline", rng.randint(1, 3)))
        else:
            continue
        last = out[-1][0]
    while open_:
        if out[-1][0] == "newline":
            out.append(("text", "z"))
        out.append(("end", None))
        open_ -= 1
    while out and out[-1][0] == "newline":
        out.pop()
    return out
