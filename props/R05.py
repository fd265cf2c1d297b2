"""R05 the session with the drawing program."""
import os
import signal
import stat
import sys

from pyvc.api import bounded, unit
from pyvc import decks

PROG = r'''#!%s
import os, sys, time, random
seed, log, die = %r, %r, %r
rng = random.Random(seed)
def out(s):
    while s:
        k = rng.randint(1, max(1, min(len(s), rng.choice([1, 3, 50, 100000]))))
        sys.stdout.write(s[:k]); sys.stdout.flush(); s = s[k:]
        if rng.random() < 0.02: time.sleep(0.001)
lf = open(log, "a")
if die == 0: os._exit(3)
out("Inkscape interactive shell mode. Type 'action-list' to list all actions.\n> ")
n = 0
answers = %r
isopen = None
for line in iter(sys.stdin.readline, ""):
    c = line.rstrip("\n")
    n += 1
    lf.write(c + "\n"); lf.flush()
    a = answers.get(c, "")
    if c.startswith("file-open:"):
        lf.write("CONTENT " + open(c[10:]).read().replace("\n", " ") + "\n"); lf.flush()
    if n == die:
        out(a[:len(a) // 2]); sys.stdout.close(); os._exit(3)
    if c.startswith("export-filename:"):
        target = c[16:]
    if c == "export-do" and "NOEXPORT" not in answers:
        open(target, "w").write("done")
    out(a + "> ")
'''


def session(B, answers, seed=0, die=None):
    from elsie.render.inkscape import InkscapeShell
    d = decks.fresh_dir()
    p, log = os.path.join(d, "prog"), os.path.join(d, "log")
    with open(p, "w") as f:
        f.write(PROG % (sys.executable, seed, log, die, answers))
    os.chmod(p, 0o755)
    return InkscapeShell(p), log


def lines(log):
    return [l.rstrip("\n") for l in open(log)]


def stop(s):
    s.process.kill()
    s.process.wait()


ANS = ["", "12.5\n", "0\n", "-3\n", "1e3\n", "a\nb\nlast\n", "x" * 70000 + "\n", "a > b\n", ">\n", "> x\n"[1:], "žluť\n",
       "line >\nend\n", "\n\n7\n", " 5 \n", ">> \n", "a> b\n"]


def last(a):
    a = a.strip()
    return a.splitlines()[-1] if a else ""


@bounded("answers", "random sessions of 5-40 commands with answers of 0-70000 characters that contain '>', spaces, empty "
                    "and several lines, delivered in random pieces; every answer against the one printed for it")
def answers(B):
    rng = B.rng
    for it in range(B.n(12, 120)):
        table = {"cmd%d" % i: rng.choice(ANS) for i in range(20)}
        s, log = session(B, table, seed=it)
        cmds = [rng.choice(list(table)) for _ in range(rng.randint(5, 40))]
        B.case([table[c][:20] for c in cmds])
        signal.alarm(60)
        for c in cmds:
            B.eq(s.run_command(c), last(table[c]), "answer of a command", command=c)
        signal.alarm(0)
        B.eq([l for l in lines(log) if l.startswith("cmd")], cmds, "commands received")
        stop(s)


@bounded("queries", "measurements with numeric and other answers; commands around them")
def queries(B):
    for q in ("width", "height", "x"):
        for ans in ("12.5\n", "-7\n", "1e-3\n", "", "none\n", "warning\n42\n", "12,5\n", "nan2\n"):
            B.case((q, ans))
            s, log = session(B, {"query-" + q: ans}, seed=3)
            fn = {"width": s.get_width, "height": s.get_height, "x": s.get_x}[q]
            svg = "<svg><g id='target'/></svg>"
            try:
                want = float(last(ans))
            except ValueError:
                want = None
            for rep in range(2):
                if want is None:
                    B.raises(lambda: fn(svg, "target"), "an answer that is no number")
                else:
                    B.eq(fn(svg, "target"), want, "measured number")
            got = [l for l in lines(log)]
            k = [i for i, l in enumerate(got) if l.startswith("file-open:")]
            B.eq(len(k), 2, "documents opened")
            for i, a in enumerate(k):
                part = got[a:k[i + 1] if i + 1 < len(k) else None]
                B.check(part[1] == "CONTENT " + svg, "document given to the program", got=part)
                B.eq([p for p in part if not p.startswith("CONTENT")][1:], ["select:target", "query-" + q, "file-close"],
                     "commands of a measurement")
            stop(s)


@bounded("exports", "exports, also failing ones: document opened before and closed after, target and type as requested")
def exports(B):
    from elsie.render.inkscape import export_by_inkscape
    for typ in ("pdf", "png"):
        for fail in (False, True):
            for text_to_path in (False, True):
                B.case((typ, fail, text_to_path))
                s, log = session(B, {"NOEXPORT": ""} if fail else {}, seed=5)
                s.text_to_path = text_to_path
                t = os.path.join(decks.fresh_dir(), "out." + typ)
                if fail:
                    B.raises(lambda: export_by_inkscape(s, b"<svg/>", t, typ), "an export without a file")
                else:
                    export_by_inkscape(s, b"<svg/>", t, typ)
                    B.check(os.path.isfile(t), "exported file")
                got = lines(log)
                a = max(i for i, l in enumerate(got) if l.startswith("file-open:"))
                B.eq(got[a + 1], "CONTENT <svg/>", "exported document")
                B.eq(got[-1], "file-close", "last command")
                for c in ("export-filename:" + t, "export-type:" + typ, "export-do"):
                    B.check(c in got[a:], "command of an export", command=c, got=got[a:])
                B.check(got.index("export-do") > got.index("export-filename:" + t), "order of the commands")
                B.eq("export-text-to-path" in got, text_to_path, "text to path")
                # the session goes on
                B.eq(s.run_command("nothing"), "", "next command")
                stop(s)


@bounded("ends", "the program ends at every command of a session, with and without a partial answer: the call fails")
def ends(B):
    def hang(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, hang)
    for die in range(0, 8):
        B.case(die)
        signal.alarm(20)
        failed = False
        s = None
        try:
            s, log = session(B, {"query-width": "12.5\n"}, die=die)
            for _ in range(2):
                s.get_width("<svg/>", "target")
        except TimeoutError:
            B.fail("the call hangs when the program ends")
        except Exception:
            failed = True
        finally:
            signal.alarm(0)
        B.check(failed, "the call did not fail")
        if s:
            stop(s)


# ------------------------------------------------------------------ proofs
class Line:
    """What the program was told and what it answered: one command, one answer."""

    def __init__(self, ctx, failing=True):
        import subprocess
        import tempfile
        import z3
        from pyvc.interp import Interp
        self.ctx, self.failing = ctx, failing
        self.I = I = Interp(ctx)
        self.buf, self.sent, self.flushed = [], [], True
        self.commands = []          # (parts of the command, answer)
        self.dead = False
        self.files = []
        self.started = []
        line = self
        S = z3.StringSort()
        self.stripped = z3.Function("stripped", S, S)
        self.last = z3.Function("last_line", S, S)
        self.numeric = z3.Function("is_number", S, z3.BoolSort())
        self.number = z3.Function("number_of", S, z3.RealSort())
        I.models[subprocess.Popen] = lambda I_, args, **kw: Program(line, args, kw)
        I.models[tempfile.NamedTemporaryFile] = lambda I_, mode="w+b", *a, **kw: Temp(line, mode, kw)

        def float_(I_, x=0):
            from pyvc.core import SNum, SStr, to_z3
            from pyvc.values import mark
            if not isinstance(x, (str, SStr)):
                return I_.to_float(x)
            if ctx.branch(line.numeric(to_z3(x))):
                return SNum(line.number(to_z3(x)))
            raise mark(ValueError("could not convert string to float"))
        I.models[float] = float_
        from pyvc.core import SStr, to_z3
        ctx.str_hooks["strip"] = lambda s: SStr((line.stripped(to_z3(s)),))
        ctx.str_hooks["splitlines"] = lambda s, *a, **kw: Lines(line, s)
        ctx.str_hooks["rsplit"] = lambda s, sep=None, n=-1: Lines(line, s) if sep == "\n" else None

        def wait(shell):
            from pyvc.values import mark
            if line.dead:
                raise mark(Exception("the program ended"))
            ctx.prove("the program is not waited for before it got the command", line.flushed)
            if line.started and not line.commands and not line.buf and not getattr(line, "greeted", False):
                line.greeted = True
                return ctx.str("greeting")
            ctx.prove("the program is waited for after one command", bool(line.buf))
            text = SStr(tuple(line.buf))
            line.buf = []
            parts = text.parts
            ctx.prove("a command is a line", isinstance(parts[-1], str) and parts[-1].endswith("\n")
                      and sum(p.count("\n") for p in parts if isinstance(p, str)) == 1)
            if line.failing and ctx.choose(2, "the program ends"):
                line.dead = True
                line.commands.append((parts, None))
                raise mark(Exception("the program ended"))
            a = ctx.str("answer")
            line.commands.append((parts, a))
            return a
        wait.__module__ = "props.R05"
        ctx.contracts["render.inkscape.InkscapeShell.wait_for_prompt"] = wait

    def by_contract(self):
        """one command by its contract (the unit before): sent once, its answer comes back, an error if the program ended"""
        ctx, line = self.ctx, self

        def run(shell, command):
            from pyvc.core import SStr
            from pyvc.values import mark
            if line.dead:
                raise mark(Exception("the program ended"))
            parts = SStr((command, "\n")).parts
            if isinstance(parts[0], str) and parts[0].startswith("file-open:"):
                ctx.prove("the document is there when it is opened", len(line.files) == 1 and line.files[0].there
                          and line.files[0].written == line.files[0].data != [])
            if line.failing and ctx.choose(2, "the program ends"):
                line.dead = True
                line.commands.append((parts, None))
                raise mark(Exception("the program ended"))
            a = ctx.str("answer")
            line.commands.append((parts, a))
            return a
        run.__module__ = "props.R05"
        ctx.contracts["render.inkscape.InkscapeShell.run_command"] = run

    def shell(self, **kw):
        """a session after its start"""
        from elsie.render.inkscape import InkscapeShell
        f, self.failing = self.failing, False
        s = self.I.call(InkscapeShell, ("the program",), kw)
        self.failing = f
        return s

    def texts(self, k=0):
        """the commands since the k-th, a symbol in the place of unknown text"""
        out = []
        for parts, a in self.commands[k:]:
            out.append("".join(p if isinstance(p, str) else "<%s>" % (p.sexpr() if hasattr(p, "sexpr") else p)
                               for p in parts)[:-1])
        return out


class Program:
    _pyvc_stub = True

    def __init__(self, line, args, kw):
        self.line = line
        line.started.append((args, kw))
        self.stdin = In(line)
        self.stdout = object()
        self.stderr = object()


class In:
    _pyvc_stub = True

    def __init__(self, line):
        self.line = line

    def write(self, s):
        self.line.buf.append(s)
        self.line.flushed = False

    def flush(self):
        self.line.flushed = True


class Temp:
    """a temporary file: what it holds and whether it is there"""
    _pyvc_stub = True

    def __init__(self, line, mode, kw):
        self.line, self.mode = line, mode
        self.name = line.ctx.str("file")
        self.data, self.written, self.there = [], [], True
        line.files.append(self)

    def __enter__(self):
        return self

    def write(self, s):
        self.data.append(s)

    def flush(self):
        self.written = list(self.data)

    def close(self):
        self.flush()
        self.there = False

    def __exit__(self, *a):
        self.close()


class Lines:
    """the lines of an answer"""
    _pyvc_stub = True

    def __init__(self, line, text):
        self.line, self.text = line, text

    def _pyvc_getitem(self, i):
        from pyvc.core import SStr, Unsupported, to_z3
        if i != -1:
            raise Unsupported("another line of an answer")
        return SStr((self.line.last(to_z3(self.text)),))

    def _pyvc_truth(self):
        import z3
        from pyvc.core import mk, to_z3
        return mk(to_z3(self.text) != z3.StringVal(""))

    def pop(self, i=-1):
        return self._pyvc_getitem(i)


def answer(line, a):
    """the last line of the answer"""
    import z3
    from pyvc.core import to_z3
    t = line.stripped(to_z3(a))
    return z3.If(t == z3.StringVal(""), z3.StringVal(""), line.last(t))


@unit("a command is sent once, as one line, after the prompt of the one before; its answer is what was printed for it",
      functions=["InkscapeShell.__init__", "InkscapeShell.run_command", "InkscapeShell.get_version"])
def u_command(ctx):
    from pyvc.core import to_z3
    line = Line(ctx)
    s = line.shell()
    ctx.prove("one program is started", len(line.started) == 1 and line.started[0][0][0] == "the program")
    ctx.prove("the greeting of the program is read", getattr(line, "greeted", False))
    n = len(line.commands)
    cmd = ctx.str("command")
    want = "<%s>" % cmd.expr().sexpr()
    fn = [lambda: s.run_command, lambda: s.get_version][ctx.choose(2, "command")]()
    if fn == s.get_version:
        want, args = "inkscape-version", ()
    else:
        args = (cmd,)
    try:
        r = line.I.call(fn, args)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("ended")
        ctx.prove("a call fails only if the program ended", line.dead)
        return
    ctx.reach("answered")
    ctx.prove("a call fails if the program ended", not line.dead)
    ctx.prove("the command is sent once", line.texts(n) == [want])
    ctx.prove("the answer of this command", to_z3(r) == answer(line, line.commands[-1][1]))


@unit("measurements and exports: the document is open around exactly their commands, whatever fails",
      functions=["svg_file_input", "InkscapeShell.run_query", "InkscapeShell.get_width", "InkscapeShell.get_height",
                 "InkscapeShell.get_x", "InkscapeShell.convert_to_pdf"])
def u_document(ctx):
    from pyvc.core import SNum, to_z3
    line = Line(ctx)
    line.by_contract()
    to_path = bool(ctx.choose(2, "text to path"))
    s = line.shell(text_to_path=to_path)
    n = len(line.commands)
    svg, ident, target = ctx.str("document"), ctx.str("id"), ctx.str("target")
    what = ("width", "height", "x", "pdf", "png")[ctx.choose(5, "request")]
    data = svg
    if what in ("pdf", "png"):
        data = object()
    err = r = None
    try:
        if data is svg:
            r = line.I.call(getattr(s, "get_" + what), (svg, ident))
        else:
            r = line.I.call(s.convert_to_pdf, (data, target, what))
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        err = e
    cmds = line.texts(n)
    ctx.prove("the document is given in one file", len(line.files) == 1)
    if len(line.files) != 1:
        return
    f = line.files[0]
    ctx.prove("the file holds exactly the document", f.written == [data])
    ctx.prove("bytes are written as bytes", ("b" in f.mode) == (data is not svg))
    ctx.prove("the file is removed", not f.there)
    name = "<%s>" % f.name.expr().sexpr()
    ctx.prove("the document is opened first", cmds[:1] == ["file-open:" + name])
    body = cmds[1:-1]
    if line.dead:
        ctx.reach("ended")
        ctx.prove("the call fails if the program ends", err is not None)
        return
    ctx.prove("the document is closed last", cmds[-1:] == ["file-close"])
    ctx.prove("the document is opened and closed once",
              not [c for c in body if c.startswith(("file-open", "file-close", "file-new", "quit"))])
    if data is svg:
        ctx.prove("the element asked for is measured",
                  body == ["select:<%s>" % ident.expr().sexpr(), "query-" + what])
        if len(line.commands) - n != 4:
            return
        a = to_z3(line.commands[n + 2][1])
        if err is not None:
            ctx.reach("no number")
            import z3
            ctx.prove("only an answer that is no number is an error", z3.Not(line.numeric(a)))
            return
        ctx.reach("measured")
        ctx.prove("an answer that is no number is an error", line.numeric(a))
        ctx.prove("a measurement is a number", isinstance(r, SNum))
        ctx.prove("the number answered to the query", to_z3(r) == line.number(a))
        return
    ctx.reach("exported")
    ctx.prove("an export does not fail", err is None)
    ctx.prove("exported once, at the end", body[-1:] == ["export-do"] and body.count("export-do") == 1)
    tgt = "export-filename:<%s>" % target.expr().sexpr()
    ctx.prove("to the file asked for", [c for c in body if c.startswith("export-filename")] == [tgt])
    ctx.prove("in the format asked for", [c for c in body if c.startswith("export-type")] == ["export-type:" + what])
    ctx.prove("text to path", ("export-text-to-path" in body) == to_path)
    ctx.prove("the page is exported", "export-area-page" in body)


@unit("the answer of a command is exactly what is printed up to the first prompt, and nothing after it is read",
      functions=["InkscapeShell.wait_for_prompt"])
def u_prompt(ctx):
    import z3
    from pyvc.core import SStr, Unsupported, mk, to_z3
    from pyvc.interp import Interp
    from pyvc.values import Measure, NotApplicable, SChar, VList, measure_states
    from elsie.render.inkscape import InkscapeShell
    I = Interp(ctx)
    Z, B_ = z3.IntSort(), z3.BoolSort()
    T = z3.DeclareSort("Printed")
    EMPTY, THEN = z3.Const("nothing", T), z3.Function("then_char", T, Z, T)
    REST, LAST = z3.Function("all_but_last", T, T), z3.Function("last_char", T, Z)
    TEXT = z3.Function("text_of", T, z3.StringSort())
    ctx.assume(TEXT(EMPTY) == z3.StringVal(""))

    def code(x):
        if isinstance(x, SChar):
            return x.e
        if isinstance(x, str) and len(x) == 1:
            return z3.IntVal(ord(x))
        raise NotApplicable()

    def trace(get, x):
        t, c = to_z3(get("trace")), code(x)
        r = THEN(t, c)
        ctx.assume(z3.And(REST(r) == t, LAST(r) == c))
        return r
    ctx.measures["trace"] = Measure("trace", T, EMPTY, trace)
    ctx.measures["chars"] = Measure("chars", Z, z3.IntVal(0), lambda get, x: mk(to_z3(get("chars")) + 1))
    ctx.measures["last"] = Measure("last", Z, z3.IntVal(0), lambda get, x: mk(code(x)))
    ctx.measures["before"] = Measure("before", Z, z3.IntVal(0), lambda get, x: mk(to_z3(get("last"))))

    def prompt(get, x):
        """a space after a '>' at the beginning of a line"""
        c, l, b, n = code(x), to_z3(get("last")), to_z3(get("before")), to_z3(get("chars"))
        return mk(z3.Or(to_z3(get("seen")), z3.And(c == 32, n >= 1, l == 62, z3.Or(n == 1, b == 10))))
    ctx.measures["seen"] = Measure("seen", B_, z3.BoolVal(False), prompt)
    printed = VList(tag="printed")
    ended = []

    def same(view, x, bases):
        """what was read is what is remembered; no prompt was passed"""
        tr = [(key, comp, v) for key, d in view.items() for comp, v in d.items() if comp.endswith("m:trace")]
        out = []
        for i, (ka, ca, va) in enumerate(tr):
            for kb, cb, vb in tr[i + 1:]:
                out.append(("%s%s same as %s%s" % (ka, ca, kb, cb), to_z3(va) == to_z3(vb)))
        for key, d in view.items():
            for comp, v in d.items():
                if comp.endswith("m:seen"):
                    out.append(("%s no prompt" % (key,), z3.Not(to_z3(v))))
        return out
    ctx.invariants.append(same)

    class Out:
        _pyvc_stub = True

        def read(self, n=-1):
            if n != 1:
                raise Unsupported("reading more than one character")
            ctx.prove("nothing is read after the program ended", not ended)
            if ctx.choose(2, "the program ends"):
                ended.append(1)
                return ""
            c = ctx.fresh("char", Z)
            ctx.assume(z3.And(c >= 0, c < 0x110000))
            ctx.prove("nothing is read after the prompt", z3.Not(to_z3(measure_states(printed)["seen"])))
            I.list_method(printed, "append", (SChar(c),), {})
            return SChar(c)

    class Proc:
        _pyvc_stub = True
        stdout = Out()
        stdin = object()

        def poll(self):
            return None

    def join(sep, parts):
        if sep == "" and isinstance(parts, VList):
            return SStr((TEXT(to_z3(measure_states(parts)["trace"])),))
    ctx.str_hooks["join"] = join
    s = InkscapeShell.__new__(InkscapeShell)
    s.process, s.text_to_path = Proc(), False
    ctx.register(s, "shell")
    try:
        r = I.call(s.wait_for_prompt)
    except Exception as e:
        if not getattr(e, "_pyvc_prog", False):
            raise
        ctx.reach("ended")
        ctx.prove("a call fails only if the program ended", bool(ended))
        return
    ctx.reach("answered")
    ctx.prove("a call fails if the program ended", not ended)
    st = {k: to_z3(v) for k, v in measure_states(printed).items()}
    ctx.prove("everything up to the prompt is read", st["seen"])
    # the text before the prompt: without the end of its last line, the '>' and the space
    p1 = REST(st["trace"])
    text = z3.If(st["chars"] == 2, EMPTY, REST(REST(p1)))
    # (with or without the end of its last line: space around an answer does not count)
    ctx.prove("the answer is the text before the prompt",
              z3.Or(to_z3(r) == TEXT(text), z3.And(st["chars"] > 2, to_z3(r) == TEXT(REST(p1)))))
