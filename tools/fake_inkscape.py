#!/opt/venv/bin/python -SE
"""A stand-in for `inkscape --shell` used by the bounded stand-ins (deterministic, no fonts).

Measures: every character c of a <text>/<tspan> is W(font-size) wide; a newline is a tspan with dy.
Logs every command to $FAKE_INKSCAPE_LOG.  Exports: png -> raw marker file, pdf -> a one-page PDF whose
content stream carries the sha1 of the svg.
"""
import hashlib
import os
import re
import sys
import xml.etree.ElementTree as ET

log = open(os.environ["FAKE_INKSCAPE_LOG"], "a") if os.environ.get("FAKE_INKSCAPE_LOG") else None
state = {"svg": None, "target": None, "type": None, "file": None}


def tag(e):
    return e.tag.rsplit("}", 1)[-1]


def segments(e, inherited):
    """(chars, size, is-in-target, newline-before) in document order"""
    size = inherited[0]
    if e.get("font-size"):
        size = float(e.get("font-size"))
    tgt = inherited[1] or e.get("id") == "target"
    if e.get("dy") is not None:
        yield ("nl", None, None)
    if e.text:
        yield (e.text, size, tgt)
    for c in e:
        for s in segments(c, (size, tgt)):
            yield s
        if c.tail:
            yield (c.tail, size, tgt)


def width(text, size):
    return len(text) * size * 0.5


def measure(root):
    """(x, width, height) of the element with id target"""
    for t in root.iter():
        if tag(t) != "text":
            continue
        if t.get("id") == "target" or any(d.get("id") == "target" for d in t.iter()):
            whole = t.get("id") == "target"
            lines = [[]]
            for txt, size, tgt in segments(t, (10.0, False)):
                if txt == "nl":
                    lines.append([])
                else:
                    lines[-1].append((txt, size, tgt or whole))
            w = max(sum(width(a, s) for a, s, _ in ln) for ln in lines)
            anchor = t.get("text-anchor")
            x0 = float(t.get("x"))
            if whole:
                off = {"start": 0, "middle": -w / 2, "end": -w}[anchor]
                return x0 + off, w, 20.0 * len(lines)
            for ln in lines:
                if any(g for _, _, g in ln):
                    lw = sum(width(a, s) for a, s, _ in ln)
                    pre = 0
                    tw = 0
                    seen = False
                    for a, s, g in ln:
                        if g:
                            seen = True
                            tw += width(a, s)
                        elif not seen:
                            pre += width(a, s)
                    off = {"start": 0, "middle": -lw / 2, "end": -lw}[anchor]
                    return x0 + off + pre, tw, 20.0
            return x0, 0.0, 0.0
    return None


def pdf(marker):
    content = ("%% %s\n0 0 m 10 10 l S\n" % marker).encode()
    objs = [b"<< /Type /Catalog /Pages 2 0 R >>", b"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
            b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 100 100] /Contents 4 0 R /Resources << >> >>",
            b"<< /Length %d >>\nstream\n" % len(content) + content + b"endstream"]
    out = b"%PDF-1.4\n"
    offs = []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n" % (i + 1) + o + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 5\n0000000000 65535 f \n" + b"".join(b"%010d 00000 n \n" % o for o in offs)
    out += b"trailer << /Size 5 /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % x
    return out


def say(s=""):
    sys.stdout.write(s)
    sys.stdout.flush()


def main():
    say("Inkscape interactive shell mode. Type 'action-list' to list all actions.\n> ")
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        cmd = line.rstrip("\n")
        if log:
            log.write(cmd + "\n")
            log.flush()
        out = ""
        name, _, arg = cmd.partition(":")
        try:
            if name == "inkscape-version":
                out = "Inkscape %s (fake)\n" % os.environ.get("FAKE_INKSCAPE_VERSION", "1.2")
            elif name == "file-open":
                with open(arg) as f:
                    state["svg"] = f.read()
            elif name == "file-close":
                state["svg"] = None
            elif name == "select":
                state["target"] = arg
            elif name in ("query-width", "query-height", "query-x"):
                m = measure(ET.fromstring(state["svg"]))
                out = "%r\n" % m[{"query-x": 0, "query-width": 1, "query-height": 2}[name]]
            elif name == "export-type":
                state["type"] = arg
            elif name == "export-filename":
                state["file"] = arg
            elif name == "export-do":
                if state["svg"] is not None and "FAIL-EXPORT" not in state["svg"]:
                    h = hashlib.sha1(state["svg"].encode()).hexdigest()
                    if state["type"] == "pdf":
                        data = pdf(h)
                    else:
                        data = ("EXPORT %s %s" % (state["type"], h)).encode()
                    with open(state["file"], "wb") as f:
                        f.write(data)
        except Exception as e:
            out = "error %s\n" % e
        say(out + "> ")


main()
