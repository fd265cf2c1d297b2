"""Declarations used by /verif/props/<ID>.py: proof units and bounded stand-ins."""
import hashlib
import json
import os
import random
import signal
import traceback

CASE_S = 150  # every case of the bounded stand-ins takes far less
REPO = os.path.join(os.environ.get("PYVC_REPO", "/repo"), "")


class Fail(Exception):
    """A concrete failing input on the real code."""

    def __init__(self, msg, data, key=None):
        super().__init__(msg)
        self.msg, self.data, self.key = msg, data, key


class HarnessGap(Exception):
    """The harness cannot exercise the code (a private name is gone, ...): not a violation."""


class Item:
    def __init__(self, kind, name, fn, **kw):
        self.kind, self.name, self.fn, self.kw = kind, name, fn, kw


REGISTRY = []


def unit(name, functions=(), budget=100, **kw):
    """A proof unit: fn(ctx) is executed symbolically over all paths of the real code it calls."""
    def deco(fn):
        REGISTRY.append(Item("unit", name, fn, functions=list(functions), budget=budget, **kw))
        return fn
    return deco


def bounded(name, bound, **kw):
    """A bounded stand-in: fn(B) runs the real, un-instrumented code on concrete inputs."""
    def deco(fn):
        REGISTRY.append(Item("bounded", name, fn, bound=bound, **kw))
        return fn
    return deco


def show(v):
    try:
        r = repr(v)
    except Exception:
        r = "<%s>" % type(v).__name__
    return r if len(r) < 3000 else r[:3000] + "..."


class B:
    """Context of a bounded run."""

    def __init__(self, name, seed, thorough, known=()):
        self.name = name
        self.seed = seed
        self.thorough = thorough
        self.rng = random.Random("%s/%s" % (name, seed))
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.known = known
        self.known_hit = {}
        self.watch = False

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def case(self, data, trivial=False):
        """Register one evaluated input."""
        self.evaluations += 1
        self.current = data
        if self.watch:
            signal.setitimer(signal.ITIMER_REAL, CASE_S)
        if not trivial:
            h = hashlib.blake2b(show(data).encode("utf8", "replace"), digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 3:
                    self.samples.append(show(data)[:600])

    def fail(self, msg, key=None, **data):
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, msg)
            return
        d = {k: show(v) for k, v in data.items()}
        d["case"] = show(getattr(self, "current", None))
        raise Fail(msg, d, key)

    def check(self, cond, msg, key=None, **data):
        if not cond:
            self.fail(msg, key, **data)

    def eq(self, got, want, msg, key=None, **data):
        if not same(got, want):
            self.fail(msg, key, got=got, want=want, **data)

    def raises(self, fn, msg, exc=Exception, **data):
        """fn has to be rejected with an error"""
        try:
            r = fn()
        except exc:
            return
        self.fail(msg + " (accepted instead of rejected)", result=r, **data)


def same(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    return a == b


class Slow(Exception):
    """A case did not end."""


def slow(*a):
    raise Slow("the case does not end within %d s" % CASE_S)


def from_repo(exc):
    """Is the innermost frame (or anything between it and the harness) code of /repo?"""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO) for f in frames)
