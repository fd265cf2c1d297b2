"""PyVC interpreter: executes the ASTs of the functions of /repo/elsie over concrete and symbolic values.

Anything outside the supported subset raises Unsupported; nothing is proved about such code."""
import ast
import builtins
import contextlib
import functools
import inspect
import math
import os
import re
import types

import z3

from . import core, values
from .core import (Dirty, EngineSignal, PathEnd, ProbeSymbolic, SBool, SNum, SStr, Sym, Unsupported, cur, mk, to_z3)
from .values import (NA, Abs, Base, SChar, VList, VSeq, has_abs, mark, measure_states, mk_eq, vlen)

PKG = "elsie"


class Ctl(BaseException):
    pass


class ReturnSig(Ctl):
    def __init__(self, v):
        self.v = v


class BreakSig(Ctl):
    pass


class ContinueSig(Ctl):
    pass


class Poison:
    def __repr__(self):
        return "<unknown>"


POISON = Poison()
UNBOUND = Poison()


# ------------------------------------------------------------------ source lookup
_files = {}


def _index_file(fn):
    if fn not in _files:
        with open(fn) as f:
            tree = ast.parse(f.read(), fn)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(n.name, line)] = n
                n._pyvc_file = fn
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("<lambda>", n.lineno), []).append(n)
                n._pyvc_file = fn
        _files[fn] = idx
    return _files[fn]


def fn_ast(f):
    code = f.__code__
    idx = _index_file(code.co_filename)
    n = idx.get((code.co_name, code.co_firstlineno))
    if isinstance(n, list):
        n = n[0] if len(n) == 1 else None
    if n is None:
        raise Unsupported("source of %s not found" % code.co_name)
    return n


def in_pkg(f):
    m = getattr(f, "__module__", None)
    return isinstance(m, str) and (m == PKG or m.startswith(PKG + "."))


class FnInfo:
    """static facts about a function definition"""

    def __init__(self, node):
        self.node = node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.body = node.body if isinstance(node, ast.FunctionDef) else [ast.Return(value=node.body,
                                                                                   lineno=node.lineno,
                                                                                   col_offset=node.col_offset)]
        self.nonlocals = set()
        self.globals_ = set()
        loc = set(self.params + self.kwonly)
        if self.vararg:
            loc.add(self.vararg)
        if self.kwarg:
            loc.add(self.kwarg)
        self.is_gen = False
        for st in self.body:
            self._scan(st, loc)
        self.locals = loc - self.nonlocals - self.globals_

    def _scan(self, n, loc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                self._scan(d, loc)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Global):
            self.globals_.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c, loc)


_info = {}


def info_of(node):
    i = _info.get(id(node))
    if i is None:
        i = _info[id(node)] = FnInfo(node)
        i.keep = node
    return i


class Frame:
    def __init__(self, interp, info, parent, module_globals, native_fn=None, tag="frame"):
        self.vars = {}
        self.info = info
        self.parent = parent
        self.globals = module_globals
        self.native_fn = native_fn
        self.yield_handler = None
        interp.ctx.register(self, "F:" + tag)


class IFunc:
    """A function object created by interpreted code."""

    def __init__(self, interp, node, frame, defaults, kwdefaults, qual):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = getattr(node, "name", "<lambda>")
        self.__qualname__ = qual
        self.__module__ = PKG
        interp.ctx.register(self, "fn:" + qual)

    def __call__(self, *a, **k):
        return self.interp.call(self, a, k)


class Site:
    def __init__(self):
        self.data = {"mod": [], "shapes": {}, "removed": set(), "cut": False, "na": {}}


class LoopFrame:
    def __init__(self, site, clock):
        self.site, self.clock, self.pending = site, clock, []


def has_sym(v, depth=0):
    if isinstance(v, (Sym, VSeq)) or z3.is_expr(v) or has_abs(v):
        return True
    if depth < 4:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(has_sym(x, depth + 1) for x in v)
        if isinstance(v, dict):
            return any(has_sym(x, depth + 1) for x in v.values()) or any(has_sym(x, depth + 1) for x in v)
    return False


HELPERS = '''
def h_sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc

def h_max(it, key, has_default, default):
    first = True
    acc = None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = _max2(acc, x)
    if first:
        if has_default:
            return default
        raise ValueError("max() arg is an empty sequence")
    return acc

def h_min(it, key, has_default, default):
    first = True
    acc = None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = _min2(acc, x)
    if first:
        if has_default:
            return default
        raise ValueError("min() arg is an empty sequence")
    return acc

def h_any(it):
    for x in it:
        if x:
            return True
    return False

def h_all(it):
    for x in it:
        if not x:
            return False
    return True

def h_foreach(it, fn):
    for x in it:
        fn(x)

def h_extend(lst, it):
    for x in it:
        lst.append(x)

def h_contains(it, v):
    for x in it:
        if x == v:
            return True
    return False

def h_index(it, v):
    i = 0
    for x in it:
        if x == v:
            return i
        i += 1
    raise ValueError("not in list")

def h_first(it):
    for x in it:
        return x
    raise IndexError("list index out of range")

def h_next(it, has_default, default):
    for x in it:
        return x
    if has_default:
        return default
    raise StopIteration()
'''
_HTREE = ast.parse(HELPERS, "<pyvc helpers>")
HELPER = {}
for _n in _HTREE.body:
    _n._pyvc_file = "<pyvc>"
    HELPER[_n.name] = _n


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.frames = []      # call stack of Frames
        self.sites = []       # call-site labels
        self.models = dict(MODELS)
        ctx.interp = self

    # ================================================================ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        ctx.tick()
        while True:
            if isinstance(f, types.MethodType):
                con = ctx.contracts.get(self.qual(f.__func__)) if isinstance(f.__func__, types.FunctionType) else None
                args = (f.__self__,) + tuple(args)
                f = f.__func__
                continue
            if isinstance(f, functools.partial):
                kw = dict(f.keywords)
                kw.update(kwargs)
                args, kwargs, f = tuple(f.args) + tuple(args), kw, f.func
                continue
            break
        if isinstance(f, IFunc):
            if ctx.recursion is not None and self.active(f.node):
                r = ctx.recursion(f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_node(f.node, f.frame, f.frame.globals, args, kwargs, f.defaults, f.kwdefaults,
                                  f.frame.native_fn, f.__qualname__)
        if isinstance(f, types.FunctionType):
            if in_pkg(f):
                q = self.qual(f)
                con = ctx.contracts.get(q)
                if con is not None:
                    for g in ctx.read_guards:
                        if any(id(a) in g for a in args) or any(id(a) in g for a in kwargs.values()):
                            raise Unsupported("contract over an object written after a lazy comprehension")
                    r = con(*args, **kwargs)
                    if r is not NotImplemented:
                        ctx.contract_calls.add(q)
                        return r
                fn = f
                if getattr(f, "__wrapped__", None) is not None:
                    if f.__code__.co_filename == contextlib.__file__:
                        return GenCM(self, f.__wrapped__, args, kwargs)
                    raise Unsupported("decorated function " + q)
                node = fn_ast(fn)
                ctx.functions.add(q)
                if ctx.recursion is not None and self.active(node):
                    r = ctx.recursion(f, args, kwargs)
                    if r is not NotImplemented:
                        return r
                return self.call_node(node, None, fn.__globals__, args, kwargs, fn.__defaults__ or (),
                                      fn.__kwdefaults__ or {}, fn, q)
            m = self.models.get(f)
            return m(self, *args, **kwargs) if m is not None else self.native(f, args, kwargs)
        if f is functools.partial:
            return functools.partial(*args, **kwargs)
        if isinstance(f, type):
            m = self.models.get(f)
            if m is not None:
                return m(self, *args, **kwargs)
            if in_pkg(f) and not issubclass(f, BaseException) and not getattr(f, "_pyvc_stub", False):
                return self.instantiate(f, args, kwargs)
            return self.native(f, args, kwargs)
        if getattr(f, "_pyvc_stub", False) or getattr(type(f), "_pyvc_stub", False):
            return f(*args, **kwargs)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, *args, **kwargs)
        # bound methods of builtin types
        slf = getattr(f, "__self__", None)
        if isinstance(f, BoundVirtual):
            return f.fn(*args, **kwargs)
        if slf is not None and not isinstance(slf, types.ModuleType):
            return self.builtin_method(f, slf, args, kwargs)
        if hasattr(type(f), "__call__") and in_pkg(type(f)):
            return self.call(type(f).__call__, (f,) + tuple(args), kwargs)
        return self.native(f, args, kwargs)

    def active(self, node):
        info = info_of(node)
        return any(fr.info is info for fr in self.frames)

    def qual(self, f):
        return f.__module__[len(PKG) + 1:] + "." + f.__qualname__

    def native(self, f, args, kwargs):
        m = getattr(f, "__module__", "") or ""
        if not (m.startswith("props") or m.startswith("pyvc") or getattr(f, "_pyvc_native", False)):
            if any(has_sym(a) for a in args) or any(has_sym(v) for v in kwargs.values()):
                if not (isinstance(f, type) and issubclass(f, BaseException)):
                    raise Unsupported("call of %s with symbolic arguments" % getattr(f, "__qualname__", f))
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if not has_sym(a) else "<sym>" for a in args])
        try:
            return f(*args, **kwargs)
        except (EngineSignal, Ctl):
            raise
        except BaseException as e:
            raise mark(e)

    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        q = cls.__module__[len(PKG) + 1:] + "." + cls.__qualname__
        con = ctx.contracts.get(q)
        if con is not None:
            ctx.contract_calls.add(q)
            return con(*args, **kwargs)
        obj = cls.__new__(cls)
        ctx.register(obj, "new:" + cls.__name__)
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            self.call(init, (obj,) + tuple(args), kwargs)
        elif args or kwargs:
            raise mark(TypeError("%s() takes no arguments" % cls.__name__))
        return obj

    def bind(self, info, args, kwargs, defaults, kwdefaults, name):
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        np_ = len(info.params)
        if len(args) > np_:
            if not info.vararg:
                raise mark(TypeError("%s() takes %d positional arguments but %d were given" % (name, np_, len(args))))
            out[info.vararg] = tuple(args[np_:])
            args = args[:np_]
        elif info.vararg:
            out[info.vararg] = ()
        for p, v in zip(info.params, args):
            out[p] = v
        nd = len(defaults)
        for i, p in enumerate(info.params):
            if p in out:
                if p in kwargs:
                    raise mark(TypeError("%s() got multiple values for argument '%s'" % (name, p)))
                continue
            if p in kwargs:
                out[p] = kwargs.pop(p)
            elif i >= np_ - nd:
                out[p] = defaults[i - (np_ - nd)]
            else:
                raise mark(TypeError("%s() missing argument '%s'" % (name, p)))
        for p in info.kwonly:
            if p in kwargs:
                out[p] = kwargs.pop(p)
            elif p in kwdefaults:
                out[p] = kwdefaults[p]
            else:
                raise mark(TypeError("%s() missing keyword argument '%s'" % (name, p)))
        if info.kwarg:
            self.ctx.register(kwargs, "kwargs")
            out[info.kwarg] = kwargs
        elif kwargs:
            raise mark(TypeError("%s() got an unexpected keyword argument '%s'" % (name, next(iter(kwargs)))))
        return out

    def call_node(self, node, parent, glob, args, kwargs, defaults, kwdefaults, native_fn, qual, yield_handler=None):
        info = info_of(node)
        ctx = self.ctx
        ctx.depth += 1
        if ctx.depth > 80:
            raise Unsupported("call depth (recursion without contract?)")
        nf, ns = len(self.frames), len(self.sites)
        try:
            bound = self.bind(info, args, kwargs, defaults, kwdefaults, qual)
            if info.is_gen and yield_handler is None:
                return GenObj(self, node, parent, glob, args, kwargs, defaults, kwdefaults, native_fn, qual)
            fr = Frame(self, info, parent, glob, native_fn, qual)
            fr.vars.update(bound)
            fr.yield_handler = yield_handler
            self.frames.append(fr)
            self.sites.append(qual)
            try:
                self.block(fr, info.body)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            ctx.depth -= 1
            del self.frames[nf:]
            del self.sites[ns:]

    # ================================================================ names
    def follow(self, fr, name):
        """a variable first bound in a loop is read in another iteration or after the loop: follow it from now on"""
        key = (fr.info.node.name if fr.info is not None and hasattr(fr.info.node, "name") else None, name)
        if key in self.ctx.followed:
            raise Unsupported("value of '%s' is not known here" % name)
        self.ctx.followed.add(key)
        for x in self.ctx.site_state.values():
            x["removed"].clear()
        raise Dirty()

    def followed(self, obj, attr):
        """a variable that may be unbound at the head of a loop, and is followed"""
        return isinstance(obj, Frame) and bool(self.ctx.followed) and obj.info is not None and (
            getattr(obj.info.node, "name", None), attr) in self.ctx.followed

    def load(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is POISON:
                    self.follow(f, name)
                if self.ctx.read_guards:
                    self.guard_read(f, name, v)
                return v
            if f.info is not None and name in f.info.locals:
                raise mark(UnboundLocalError(name))
            if f.native_fn is not None and f.parent is None:
                nf = f.native_fn
                if name in nf.__code__.co_freevars:
                    return nf.__closure__[nf.__code__.co_freevars.index(name)].cell_contents
            f = f.parent
        if name in fr.globals:
            return fr.globals[name]
        if name in ("_max2", "_min2"):
            return max2 if name == "_max2" else min2
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise mark(NameError(name))

    def store(self, fr, name, v):
        f = fr
        if fr.info is not None and name in fr.info.nonlocals:
            f = fr.parent
            while f is not None and not (name in f.vars or (f.info is not None and name in f.info.locals)):
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal " + name)
        elif fr.info is not None and name in fr.info.globals_:
            raise Unsupported("global " + name)
        self.ctx.note_write(f, name, heap=False)
        f.vars[name] = v

    # ================================================================ statements
    def block(self, fr, stmts):
        for s in stmts:
            self.stmt(fr, s)

    def stmt(self, fr, s):
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(fr, s)

    def s_unsupported(self, fr, s):
        raise Unsupported("statement %s" % type(s).__name__)

    def s_Pass(self, fr, s):
        pass

    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(fr, s.value)

    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(fr, t.id)
            new = self.at_node(s, self.aug, old, s.op, self.ev(fr, s.value))
            self.store(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.at_node(s, self.aug, old, s.op, self.ev(fr, s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            i = self.index_of(fr, t.slice)
            old = self.getitem(o, i)
            self.setitem(o, i, self.at_node(s, self.aug, old, s.op, self.ev(fr, s.value)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, old, op, v):
        if isinstance(op, ast.Add) and isinstance(old, list):
            self.list_method(old, "extend", (v,), {})
            return old
        return self.binop(op, old, v)

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(fr, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(fr, t.value), self.index_of(fr, t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, VSeq):
            ln = v.length()
            if not self.ctx.branch(to_z3(ln) == n):
                raise mark(ValueError("wrong number of values to unpack"))
            return [v.getitem(i) for i in range(n)]
        if has_abs(v):
            raise Unsupported("unpacking of an abstract list")
        if isinstance(v, Sym):
            raise Unsupported("unpacking of a symbolic value")
        try:
            vals = list(self.iterate(v))
        except TypeError as e:
            raise mark(e)
        if len(vals) != n:
            raise mark(ValueError("wrong number of values to unpack"))
        return vals

    def iterate(self, v):
        """concrete iteration"""
        if isinstance(v, (GenObj, LazyGen)):
            out = []
            v.drive(lambda x: out.append(x))
            return out
        if isinstance(v, (VSeq, Sym)) or has_abs(v):
            raise Unsupported("concrete iteration over a symbolic value")
        if isinstance(v, (list, tuple, str, range, dict, set, frozenset, bytes)) or type(v).__module__ == "builtins":
            if isinstance(v, (set, frozenset)) and len(v) > 1:
                # the order of a set is arbitrary; the engine has no way to cover all orders
                self.ctx.assumptions.add("iteration order of small concrete sets")
            try:
                return list(v)
            except TypeError as e:
                raise mark(e)
        if getattr(type(v), "_pyvc_stub", False):
            return list(v)
        try:
            return list(v)
        except TypeError as e:
            raise mark(e)

    def s_Return(self, fr, s):
        raise ReturnSig(None if s.value is None else self.ev(fr, s.value))

    def s_If(self, fr, s):
        if self.truth(self.ev(fr, s.test)):
            self.block(fr, s.body)
        else:
            self.block(fr, s.orelse)

    def s_Assert(self, fr, s):
        if not self.truth(self.ev(fr, s.test)):
            raise mark(AssertionError())

    def s_Raise(self, fr, s):
        if s.exc is None:
            e = getattr(fr, "exc", None)
            if e is None:
                raise Unsupported("re-raise")
            raise e
        e = self.ev(fr, s.exc)
        if isinstance(e, type):
            e = self.call(e, (), {})
        raise mark(e)

    def s_Break(self, fr, s):
        raise BreakSig()

    def s_Continue(self, fr, s):
        raise ContinueSig()

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(fr, t.value)
                i = self.index_of(fr, t.slice)
                self.delitem(o, i)
            elif isinstance(t, ast.Name):
                self.ctx.note_write(fr, t.id, heap=False)
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_FunctionDef(self, fr, s):
        d = s.args
        dec = [self.ev(fr, x) for x in s.decorator_list]
        defaults = tuple(self.ev(fr, x) for x in d.defaults)
        kwd = {a.arg: self.ev(fr, x) for a, x in zip(d.kwonlyargs, d.kw_defaults) if x is not None}
        f = IFunc(self, s, fr, defaults, kwd, s.name)
        for x in reversed(dec):
            f = self.call(x, (f,), {})
        self.store(fr, s.name, f)

    def s_Import(self, fr, s):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            if al.asname:
                self.store(fr, al.asname, m)
            else:
                self.store(fr, al.name.split(".")[0], importlib.import_module(al.name.split(".")[0]))

    def s_ImportFrom(self, fr, s):
        import importlib
        pkg = fr.globals.get("__package__") or fr.globals["__name__"].rpartition(".")[0]
        name = "." * s.level + (s.module or "")
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(name)
        for al in s.names:
            try:
                v = getattr(m, al.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + "." + al.name)
            self.store(fr, al.asname or al.name, v)

    def s_Nonlocal(self, fr, s):
        pass

    def s_Try(self, fr, s):
        try:
            try:
                self.block(fr, s.body)
            except (EngineSignal, Ctl):
                raise
            except BaseException as e:
                if not getattr(e, "_pyvc_prog", False):
                    raise
                for h in s.handlers:
                    t = (Exception if False else BaseException) if h.type is None else self.ev(fr, h.type)
                    if isinstance(e, t):
                        if h.name:
                            self.store(fr, h.name, e)
                        old = getattr(fr, "exc", None)
                        fr.exc = e
                        try:
                            self.block(fr, h.body)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.block(fr, s.orelse)
        except EngineSignal:
            raise
        except BaseException as e:
            if not isinstance(e, Ctl) and not getattr(e, "_pyvc_prog", False):
                raise
            self.block(fr, s.finalbody)
            raise
        else:
            self.block(fr, s.finalbody)

    def s_With(self, fr, s):
        self.with_items(fr, s.items, s.body)

    def with_items(self, fr, items, body):
        if not items:
            return self.block(fr, body)
        it = items[0]
        cm = self.ev(fr, it.context_expr)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)
            self.with_items(fr, items[1:], body)
        if isinstance(cm, GenCM):
            return cm.run(inner)
        enter, ex = getattr(type(cm), "__enter__", None), getattr(type(cm), "__exit__", None)
        if enter is None or ex is None:
            raise Unsupported("with on %s" % type(cm).__name__)
        v = self.call(enter, (cm,))
        try:
            inner(v)
        except EngineSignal:
            raise
        except Ctl:
            self.call(ex, (cm, None, None, None))
            raise
        except BaseException as e:
            if not getattr(e, "_pyvc_prog", False):
                raise
            if not self.truth(self.call(ex, (cm, type(e), e, None))):
                raise
        else:
            self.call(ex, (cm, None, None, None))

    # ---------------------------------------------------------------- loops
    def site(self, fr, node):
        key = (tuple(self.sites), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)
        st = self.ctx.site_state.get(key)
        if st is None:
            st = self.ctx.site_state[key] = Site().data
        return st

    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)

        def body(x):
            self.assign(fr, s.target, x)
            self.block(fr, s.body)
        self.for_loop(fr, s, it, body, s.orelse)

    def for_loop(self, fr, node, it, body, orelse=()):
        ctx = self.ctx
        if isinstance(it, (GenObj, LazyGen)):
            def wrapped(x):
                try:
                    body(x)
                except ContinueSig:
                    pass
            try:
                it.drive(wrapped)
            except BreakSig:
                return
            self.block(fr, orelse)
            return
        if hasattr(type(it), "_pyvc_iter"):
            it = it._pyvc_iter()
        if isinstance(it, VSeq):
            return self.cut_for(fr, node, it, body, orelse)
        if has_abs(it):
            parts = self.parts_of(it)
            if parts is not None:
                left = []

                def part_body(x):
                    try:
                        body(x)
                    except BreakSig:
                        left.append(1)
                        raise
                    if self.parts_of(it) is not parts:
                        raise Unsupported("list modified while iterated")
                for i, p in enumerate(parts):
                    n = len(self.sites)
                    self.sites.append("part%d" % i)
                    self.for_loop(fr, node, p, part_body)
                    del self.sites[n:]
                    if left:
                        return
                return self.block(fr, orelse)
            it2 = self.abs_seq(it)
            return self.cut_for(fr, node, it2, body, orelse)
        if isinstance(it, Sym):
            raise Unsupported("loop over %s" % type(it).__name__)
        live = isinstance(it, list)
        items = it if live else self.iterate(it)
        i = 0
        self.sites.append("it")
        try:
            while i < list.__len__(items) if live else i < len(items):
                x = list.__getitem__(items, i) if live else items[i]
                i += 1
                try:
                    body(x)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
                if live and has_abs(items):
                    raise Unsupported("list became abstract while iterated")
        finally:
            if self.sites and self.sites[-1] == "it":
                self.sites.pop()
        self.block(fr, orelse)

    def abs_seq(self, lst):
        """the elements of a list known by its measures: a sequence whose folds end in the states of the list"""
        return self.indexed(lst)

    def locations(self, site):
        """current (key, getter, setter) of the modified locations of a loop"""
        out = []
        ctx = self.ctx
        for key in list(site["mod"]):
            ser, attr = key
            obj = ctx.keep.get(ser)
            if obj is None:
                continue
            if isinstance(obj, list) and attr != "[]" and (ser, "[]") in site["mod"]:
                continue    # the whole list is followed
            out.append((key, obj, attr))
        return out

    def read_loc(self, obj, attr):
        if isinstance(obj, Frame):
            return obj.vars.get(attr, UNBOUND)
        if isinstance(obj, list):
            return obj if attr == "[]" else list.__getitem__(obj, attr[1])
        if isinstance(obj, dict):
            return obj.get(attr[1], UNBOUND)
        if isinstance(obj, set):
            raise Unsupported("set modified in a symbolic loop")
        try:
            return object.__getattribute__(obj, attr)
        except AttributeError:
            return UNBOUND

    def write_loc(self, obj, attr, v):
        if isinstance(obj, Frame):
            if v is UNBOUND:
                obj.vars.pop(attr, None)
            else:
                obj.vars[attr] = v
        elif isinstance(obj, list):
            list.__setitem__(obj, attr[1], v)
        elif isinstance(obj, dict):
            if v is UNBOUND or v is POISON:
                raise Unsupported("dictionary key set in a symbolic loop")
            obj[attr[1]] = v
        else:
            if v is UNBOUND or v is POISON:
                raise Unsupported("attribute set in a symbolic loop")
            object.__setattr__(obj, attr, v)

    def add_shape(self, site, key, v, shape=values.shape):
        shapes = site["shapes"].setdefault(key, [])
        new = values.merge_shape(shapes, shape(v))
        if len(new) != len(shapes) or any(not values.same_shape(a, b) for a, b in zip(new, shapes)):
            site["shapes"][key] = new
            return True
        return False

    def list_na(self, site, key, lst):
        """measures that do not apply to the list"""
        na = site["na"].setdefault(key, set())
        n = len(na)
        na.update(m for m, v in measure_states(lst).items() if v is NA)
        return len(na) != n

    def list_shapes(self, site, key, lst):
        """merge the shapes of the elements of a list location"""
        dirty = self.list_na(site, key, lst)
        if has_abs(lst):
            for s in lst.abs.shapes:
                shapes = site["shapes"].setdefault(key, [])
                new = values.merge_shape(shapes, s)
                if len(new) != len(shapes) or any(not values.same_shape(a, b) for a, b in zip(new, shapes)):
                    site["shapes"][key] = new
                    dirty = True
        for x in list.__iter__(lst):
            dirty |= self.add_shape(site, key, x, values.shape_or_unknown)
        return dirty

    def havoc(self, site, entry):
        """fresh values for all modified locations; returns their current views"""
        ctx = self.ctx
        for key, obj, attr in self.locations(site):
            old = entry[key]
            for lf in ctx.loop_stack:
                # the iterations before may have written it: so may have the loop around
                if ctx.birth(obj) <= lf.clock and key not in lf.site["mod"] and key not in lf.pending:
                    lf.pending.append(key)
            nm = "%s_%s" % (attr if isinstance(attr, str) else "key", len(site["mod"]))
            if isinstance(obj, list) and attr == "[]":
                if not isinstance(obj, VList):
                    raise Unsupported("foreign list modified in a symbolic loop")
                st = {}
                for m in ctx.measures.values():
                    st[m.name] = NA if m.name in site["na"].get(key, ()) else mk_fresh(ctx, "st_" + m.name, m.sort)
                ln = ctx.fresh("len", z3.IntSort())
                ctx.assume(ln >= 0)
                list.clear(obj)
                shapes = site["shapes"].get(key, [])
                obj.abs = Abs(st, ln, list(shapes))
                for m in ctx.measures.values():
                    if st[m.name] is not NA:
                        ctx.assume(z3.Implies(ln == 0, mk_eq(st[m.name], m.init)))
                continue
            if old is UNBOUND:
                shapes = site["shapes"].get(key, [])
                if not self.followed(obj, attr):
                    self.write_loc(obj, attr, POISON)
                elif shapes and ctx.choose(2, "bound"):
                    self.write_loc(obj, attr, values.fresh_of_shapes(shapes, nm))
                else:
                    self.write_loc(obj, attr, UNBOUND)
                continue
            if old is POISON:
                continue
            if isinstance(old, (VList,)) and site["shapes"].get(key) == [("obj", ctx.serial(old))]:
                continue
            shapes = site["shapes"][key]
            v = values.fresh_of_shapes(shapes, nm)
            if ("flist",) in shapes and isinstance(v, VList):
                if isinstance(old, list):
                    self.no_alias(old, obj, attr)
                for m in list(v.abs.states):
                    if m in site["na"].get(key, ()):
                        v.abs.states[m] = NA
            self.write_loc(obj, attr, v)

    def no_alias(self, lst, obj, attr):
        """a list variable rebound in a loop is followed by value: no other variable may hold the same list"""
        for f in self.frames:
            for n, x in f.vars.items():
                if x is lst and not (f is obj and n == attr):
                    raise Unsupported("a list rebound in a loop is also held by another variable")

    def snapshot(self, site):
        """views of the locations for candidate generation"""
        ctx = self.ctx
        out = {}
        for key, obj, attr in self.locations(site):
            if isinstance(obj, list) and attr == "[]":
                st = measure_states(obj)
                out[key] = {"#len": vlen(obj)}
                for k, v in st.items():
                    if v is NA:
                        continue
                    out[key]["m:" + k] = v
            else:
                v = self.read_loc(obj, attr)
                if v is UNBOUND and self.followed(obj, attr):
                    out[key] = {"": UNBOUND}
                    continue
                if v is UNBOUND or v is POISON:
                    continue
                d = {}
                if isinstance(v, list) and ("flist",) in site["shapes"].get(key, []):
                    d["#len"] = vlen(v)
                    for m, st in measure_states(v).items():
                        if st is not NA:
                            d["m:" + m] = st
                else:
                    flatten(v, "", d)
                out[key] = d
        return out

    def cut_prepare(self, site):
        ctx = self.ctx
        entry = {}
        dirty = False
        for key, obj, attr in self.locations(site):
            v = self.read_loc(obj, attr)
            entry[key] = v
            if isinstance(obj, list) and attr == "[]":
                dirty |= self.list_shapes(site, key, obj)
            elif v is not UNBOUND and v is not POISON:
                dirty |= self.add_shape(site, key, v)
                if isinstance(v, list) and ("flist",) in site["shapes"][key]:
                    dirty |= self.list_na(site, key, v)
        if dirty:
            raise Dirty()
        return entry

    def unrolled_for(self, fr, seq, body, orelse):
        """the loop run iteration by iteration; a path that needs more than ctx.unroll of them is dropped"""
        ctx = self.ctx
        lo, hi = seq.lo, seq.hi
        seq.inst(lo)
        for b in seq.bases():
            b.at(hi if seq.rev else lo)
        for j in range(ctx.unroll + 1):
            k = z3.simplify(hi - 1 - j if seq.rev else lo + j)
            if not ctx.branch(lo <= k if seq.rev else k < hi):
                break
            if j == ctx.unroll:
                raise PathEnd("unrolled enough")
            seq.inst(k)
            ctx.cur_k[seq.base.label] = k
            ctx.for_loops.add(seq.base.label)
            try:
                if seq.guard is None or self.truth(seq.guard(k)):
                    body(seq.at(k))
            except ContinueSig:
                pass
            except BreakSig:
                return
        for b in seq.bases():
            b.at(lo if seq.rev else hi)
        self.block(fr, orelse)

    def cut_for(self, fr, node, seq, body, orelse):
        ctx = self.ctx
        if ctx.unroll:
            return self.unrolled_for(fr, seq, body, orelse)
        site = self.site(fr, node)
        nf, nsit = len(self.frames), len(self.sites)
        entry = self.cut_prepare(site)
        v0 = self.snapshot(site)
        lo, hi = seq.lo, seq.hi
        if not ctx.valid(lo <= hi):
            hi = z3.simplify(z3.If(hi >= lo, hi, lo))
        start, end = (hi, lo) if seq.rev else (lo, hi)
        cg = Candidates(self, site, v0, seq.bases(), start, -1 if seq.rev else 1)
        seq.inst(lo)
        ctx.cuts += 1
        cg.check("entry", v0, start)
        which = ctx.choose(2, "loop")
        if which == 0:
            k = ctx.fresh("k", z3.IntSort())
            if seq.rev:
                # position k+1 before, k after
                ctx.assume(z3.And(lo <= k, k < hi))
                before, after = k + 1, k
            else:
                ctx.assume(z3.And(lo <= k, k < hi))
                before, after = k, k + 1
            seq.inst(k)
            ctx.cur_k[seq.base.label] = k
            ctx.for_loops.add(seq.base.label)
            lf = LoopFrame(site, ctx.clock)
            self.havoc(site, entry)
            cg.assume(self.snapshot(site), before)
            ctx.loop_stack.append(lf)
            self.sites.append("loop")
            try:
                if seq.guard is None or self.truth(seq.guard(k)):
                    body(seq.at(k))
            except ContinueSig:
                pass
            except BreakSig:
                del ctx.loop_stack[ctx.loop_stack.index(lf):]
                del self.sites[nsit:]
                return
            except Ctl:
                del ctx.loop_stack[ctx.loop_stack.index(lf):]
                raise
            except EngineSignal:
                raise
            except BaseException:
                if lf in ctx.loop_stack:
                    del ctx.loop_stack[ctx.loop_stack.index(lf):]
                raise
            self.end_iteration(lf, site, cg, after, entry)
        # exit
        self.havoc(site, entry)
        cg.assume(self.snapshot(site), end)
        for b in seq.bases():
            b.at(end)
        self.block(fr, orelse)

    def end_iteration(self, lf, site, cg, after, entry):
        ctx = self.ctx
        new = [k for k in lf.pending if k not in site["mod"]]
        if new:
            site["mod"] += new
            for x in ctx.site_state.values():
                x["removed"].clear()    # dropped while the location was taken for a constant
            raise Dirty()
        dirty = False
        for key, obj, attr in self.locations(site):
            if entry.get(key) is POISON or entry.get(key) is UNBOUND and not self.followed(obj, attr):
                continue    # unknown at the loop head, whatever it is now
            if isinstance(obj, list) and attr == "[]":
                dirty |= self.list_shapes(site, key, obj)
                continue
            v = self.read_loc(obj, attr)
            if v is UNBOUND or v is POISON:
                continue
            dirty |= self.add_shape(site, key, v)
            if isinstance(v, list) and ("flist",) in site["shapes"][key]:
                dirty |= self.list_na(site, key, v)
                self.no_alias(v, obj, attr)
        if dirty:
            raise Dirty()
        cg.check("step", self.snapshot(site), after)
        raise PathEnd("iteration done")

    def test_bounds(self, fr, test):
        """invariant candidates from the condition of a while loop: the bound may be reached, not passed"""
        out = []
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for t in test.values:
                out += self.test_bounds(fr, t)
            return out
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return out

        def simple(e):
            if isinstance(e, ast.Call):
                return isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and simple(e.args[0])
            return all(isinstance(n, (ast.Name, ast.Constant, ast.BinOp, ast.Attribute, ast.Load, ast.operator)) for n in
                       ast.walk(e))
        if not simple(test.left) or not simple(test.comparators[0]):
            return out
        try:
            a, b = self.ev(fr, test.left), self.ev(fr, test.comparators[0])
        except Exception:
            return out
        if not num(a) or not num(b) or not has_sym(a) and not has_sym(b):
            return out
        op = type(test.ops[0]).__name__
        ints = all(isinstance(v, int) or isinstance(v, SNum) and v.is_int for v in (a, b))
        if op == "Lt":
            out.append(("test", cmp_ge(b, a)))
        elif op == "Gt":
            out.append(("test", cmp_ge(a, b)))
        elif op == "LtE" and ints:
            out.append(("test", cmp_ge(b + 1, a)))
        elif op == "GtE" and ints:
            out.append(("test", cmp_ge(a + 1, b)))
        elif op == "NotEq":
            out += [("test<=", cmp_ge(b, a)), ("test>=", cmp_ge(a, b))]
        return [("%s@%d" % (l, test.col_offset), z3.simplify(f)) for l, f in out]

    def index_lists(self, fr, s):
        """abstract lists the loop takes elements of: their elements are a sequence of which invariants can speak"""
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) \
                    and not isinstance(n.slice, (ast.Slice, ast.Constant, ast.UnaryOp)):
                try:
                    v = self.load(fr, n.value.id)
                    if has_abs(v):
                        self.indexed(v)
                except Exception:
                    pass

    def s_While(self, fr, s):
        ctx = self.ctx
        site = self.site(fr, s)
        const_true = isinstance(s.test, ast.Constant) and s.test.value
        if not site["cut"]:
            n = forks = 0
            self.sites.append("it")
            try:
                while True:
                    n += 1
                    if n > 2000:
                        raise Unsupported("long concrete loop")
                    taken = len(ctx.taken)
                    c = self.truth(self.ev(fr, s.test))
                    if len(ctx.taken) > taken and ctx_forked(ctx, taken):
                        if ctx.unroll:
                            forks += 1
                            if forks > ctx.unroll and c:
                                raise PathEnd("unrolled enough")
                        else:
                            site["cut"] = True
                            raise Dirty()
                    if not c:
                        break
                    try:
                        self.block(fr, s.body)
                    except ContinueSig:
                        pass
                    except BreakSig:
                        return
                    if const_true and ctx_forked(ctx, taken):
                        if ctx.unroll:
                            forks += 1
                            if forks > ctx.unroll:
                                raise PathEnd("unrolled enough")
                        else:
                            site["cut"] = True
                            raise Dirty()
            finally:
                if self.sites and self.sites[-1] == "it":
                    self.sites.pop()
            self.block(fr, s.orelse)
            return
        # cut
        nsit = len(self.sites)
        self.index_lists(fr, s)
        entry = self.cut_prepare(site)
        v0 = self.snapshot(site)
        cg = Candidates(self, site, v0, ctx.bases, None, 1)
        cg.extra = lambda: self.test_bounds(fr, s.test)
        ctx.cuts += 1
        cg.check("entry", v0, None)
        t = ctx.fresh("it", z3.IntSort())
        lf = LoopFrame(site, ctx.clock)
        self.havoc(site, entry)
        cg.assume(self.snapshot(site), None)
        ctx.loop_stack.append(lf)
        self.sites.append("loop")

        def leave():
            if lf in ctx.loop_stack:
                del ctx.loop_stack[ctx.loop_stack.index(lf):]
            del self.sites[nsit:]
        try:
            go = self.truth(self.ev(fr, s.test))
            if go:
                try:
                    self.block(fr, s.body)
                except ContinueSig:
                    pass
        except BreakSig:
            leave()
            return
        except EngineSignal:
            raise
        except BaseException:
            leave()
            raise
        if go:
            self.end_iteration(lf, site, cg, None, entry)
        leave()
        self.block(fr, s.orelse)

    # ================================================================ expressions
    def ev(self, fr, e):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(fr, e)

    def e_unsupported(self, fr, e):
        raise Unsupported("expression %s" % type(e).__name__)

    def e_Constant(self, fr, e):
        return e.value

    def e_Name(self, fr, e):
        return self.load(fr, e.id)

    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    def e_Tuple(self, fr, e):
        return tuple(self.elts(fr, e.elts))

    def elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(fr, x.value)))
            else:
                out.append(self.ev(fr, x))
        return out

    def e_List(self, fr, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = VList(tag="L%d" % e.lineno)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_method(r, "extend", (self.ev(fr, x.value),), {})
                else:
                    self.list_method(r, "append", (self.ev(fr, x),), {})
            return r
        return VList(self.elts(fr, e.elts), "L%d" % e.lineno)

    def e_Set(self, fr, e):
        r = set(self.elts(fr, e.elts))
        self.ctx.register(r, "set")
        return r

    def e_Dict(self, fr, e):
        if not e.keys and self.ctx.dict_model is not None:
            return self.ctx.dict_model()
        d = {}
        self.ctx.register(d, "dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(fr, v)
                if hasattr(type(m), "_pyvc_map"):
                    if d:
                        raise Unsupported("merged maps")
                    d = m.copy()
                    continue
                if hasattr(type(d), "_pyvc_map"):
                    for kk, vv in dict(m).items():
                        d._pyvc_setitem(kk, vv)
                    continue
                d.update(m)
            elif hasattr(type(d), "_pyvc_map"):
                kk = self.ev(fr, k)
                d._pyvc_setitem(kk, self.ev(fr, v))
            else:
                kk = self.ev(fr, k)
                if isinstance(kk, Sym):
                    raise Unsupported("symbolic dictionary key")
                d[kk] = self.ev(fr, v)
        return d

    def e_Lambda(self, fr, e):
        d = e.args
        defaults = tuple(self.ev(fr, x) for x in d.defaults)
        kwd = {a.arg: self.ev(fr, x) for a, x in zip(d.kwonlyargs, d.kw_defaults) if x is not None}
        return IFunc(self, e, fr, defaults, kwd, "<lambda>")

    def e_IfExp(self, fr, e):
        t = self.ev(fr, e.test)
        return self.ev(fr, e.body) if self.truth(t) else self.ev(fr, e.orelse)

    def e_BoolOp(self, fr, e):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(fr, x)
            if self.truth(v) != is_and:
                return v
            # the value is known to be truthy (and) / falsy (or)
        return self.ev(fr, e.values[-1])

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mk(z3.Not(v.e))
            return not self.truth(v)
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
        except TypeError as ex:
            raise mark(ex)
        raise Unsupported("unary operator")

    def e_BinOp(self, fr, e):
        a = self.ev(fr, e.left)
        b = self.ev(fr, e.right)
        return self.at_node(e, self.binop, e.op, a, b)

    def at_node(self, e, f, *args):
        """the same helper code called at another place has loop invariants of its own"""
        n = len(self.sites)
        self.sites.append("@%d:%d" % (e.lineno, e.col_offset))
        try:
            return f(*args)
        finally:
            del self.sites[n:]

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, list) and isinstance(b, list):
                r = VList(tag="add")
                if has_abs(a):
                    r.abs = a.abs.copy()
                list.extend(r, list.__iter__(a))
                self.list_method(r, "extend", (b,), {})
                return self.concatenated(r, a, b)
            if isinstance(a, (VSeq, list)) and isinstance(b, (VSeq, list)) and (isinstance(a, VSeq) or isinstance(b, VSeq)):
                if isinstance(a, VSeq) and a.typ is str:
                    raise Unsupported("concatenation of symbolic text")
                r = VList(tag="add")
                self.list_method(r, "extend", (a,), {})
                self.sites.append("then")
                self.list_method(r, "extend", (b,), {})
                return self.concatenated(r, a, b)
        if isinstance(op, ast.Mult) and isinstance(a, list) and isinstance(b, SNum):
            return self.repeat(a, b)
        if isinstance(op, ast.Mult) and isinstance(b, list) and isinstance(a, SNum):
            return self.repeat(b, a)
        if isinstance(op, ast.Mod) and isinstance(a, str) and has_sym(b):
            return self.percent(a, b)
        if isinstance(op, ast.Mult) and "repeat" in self.ctx.str_hooks:
            for x, n in ((a, b), (b, a)):
                if isinstance(x, (str, SStr)) and isinstance(n, (int, SNum)) and (has_sym(x) or has_sym(n)):
                    return self.ctx.str_hooks["repeat"](x, n)
        try:
            f = BINOPS[type(op)]
        except KeyError:
            raise Unsupported("operator %s" % type(op).__name__)
        try:
            r = f(a, b)
        except EngineSignal:
            raise
        except BaseException as ex:
            raise mark(ex)
        if type(r) is list:
            r = VList(r, "binop")
        return r

    def concatenated(self, r, *parts):
        """remember what an abstract list was put together from (as long as it is not modified)"""
        if has_abs(r):
            out = []
            for p in parts:
                c = self.parts_of(p) if isinstance(p, list) else [p]
                if c is None:
                    return r
                out += c
            r.parts = (out, r.abs, list(list.__iter__(r)))
        return r

    def parts_of(self, l):
        if not has_abs(l):
            return [VList(list.__iter__(l), "part")]
        parts = getattr(l, "parts", None)
        if parts is not None and parts[1] is l.abs and list.__len__(l) == len(parts[2]) and all(
                x is y for x, y in zip(list.__iter__(l), parts[2])):
            return parts[0]
        return None

    def repeat(self, lst, n):
        if list.__len__(lst) != 1 or has_abs(lst):
            raise Unsupported("list repetition")
        x = lst[0]
        r = VList(tag="repeat")
        b = Base(z3.If(to_z3(n) > 0, to_z3(n), z3.IntVal(0)), "rep%d" % len(self.ctx.bases))
        seq = VSeq(b, lambda k: x)
        self.list_method(r, "extend", (seq,), {})
        return self.concatenated(r, seq)

    def e_Compare(self, fr, e):
        a = self.ev(fr, e.left)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(fr, c)
            r = self.compare(op, a, b)
            last = i == len(e.ops) - 1
            if last and res is None:
                return r
            if last:
                return r
            if not self.truth(r):
                return r
            res = r
            a = b
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.identical(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        f = CMPS[type(op)]
        if isinstance(a, (list, tuple)) and has_sym(a) or isinstance(b, (list, tuple)) and has_sym(b):
            raise Unsupported("ordering of sequences")
        try:
            return f(a, b)
        except EngineSignal:
            raise
        except BaseException as ex:
            raise mark(ex)

    def neg(self, r):
        if isinstance(r, SBool):
            return mk(z3.Not(r.e))
        return not r

    def identical(self, a, b):
        if isinstance(a, SBool) and isinstance(b, bool):
            return a == b
        if isinstance(b, SBool) and isinstance(a, bool):
            return b == a
        h = getattr(type(a), "_pyvc_is", None) or getattr(type(b), "_pyvc_is", None)
        if h is not None:
            return h(a, b) if getattr(type(a), "_pyvc_is", None) else h(b, a)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported("identity of symbolic values")
        return a is b

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if has_abs(a) or has_abs(b):
                raise Unsupported("equality of abstract lists")
            if len(a) != len(b):
                return False
            fs = []
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if isinstance(r, bool):
                    if not r:
                        return False
                else:
                    fs.append(to_z3(r))
            return mk(z3.And(*fs)) if fs else True
        if isinstance(a, VSeq) and a.typ is str and isinstance(b, str):
            return seq_eq_lit(a, b)
        if isinstance(b, VSeq) and b.typ is str and isinstance(a, str):
            return seq_eq_lit(b, a)
        if isinstance(a, VSeq) or isinstance(b, VSeq):
            if a is None or b is None:
                return False
            raise Unsupported("equality of symbolic sequences")
        h = getattr(type(a), "_pyvc_eq", None)
        if h is not None:
            return h(a, b)
        h = getattr(type(b), "_pyvc_eq", None)
        if h is not None:
            return h(b, a)
        for x, y in ((a, b), (b, a)):
            m = getattr(type(x), "__eq__", None)
            if isinstance(m, types.FunctionType) and in_pkg(m):
                return self.call(m, (x, y))
        try:
            return a == b
        except EngineSignal:
            raise
        except BaseException as ex:
            raise mark(ex)

    def contains(self, c, x):
        if isinstance(c, (VSeq,)):
            if c.typ is str:
                raise Unsupported("substring test on symbolic text")
            return self.helper("h_contains", c, x)
        if isinstance(c, SStr):
            if isinstance(x, (str, SStr)):
                return mk(z3.Contains(c.expr(), to_z3(x)))
            raise mark(TypeError("in <string>"))
        if isinstance(c, str):
            if isinstance(x, SChar):
                return mk(z3.Or(*[x.e == ord(ch) for ch in c]) if c else z3.BoolVal(False))
            if isinstance(x, SStr):
                return mk(z3.Contains(z3.StringVal(c), x.expr()))
            try:
                return x in c
            except TypeError as e:
                raise mark(e)
        h = getattr(type(c), "_pyvc_contains", None)
        if h is not None:
            return h(c, x)
        if isinstance(c, (list, tuple)):
            if has_abs(c):
                raise Unsupported("membership in an abstract list")
            fs = []
            for y in list(c):
                if y is x:
                    return True
                r = self.eq(y, x)
                if r is True:
                    return True
                if r is not False:
                    fs.append(to_z3(r))
            return mk(z3.Or(*fs)) if fs else False
        if isinstance(c, (dict, set, frozenset)) or type(c) in (type({}.keys()), type({}.values())):
            if isinstance(x, Sym):
                return self.contains(list(c), x)
            try:
                return x in c
            except TypeError as e:
                raise mark(e)
        if isinstance(c, range):
            return self.contains(list(c), x)
        m = getattr(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType) and in_pkg(m):
            return self.truth(self.call(m, (c, x)))
        if has_sym(x):
            raise Unsupported("membership in %s" % type(c).__name__)
        try:
            return x in c
        except TypeError as e:
            raise mark(e)

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, tuple, dict, set, range, bytes)):
            return bool(v)
        if isinstance(v, (SBool, SNum, SStr, SChar)):
            return bool(v)
        if isinstance(v, VSeq):
            return v.nonempty()
        if isinstance(v, list):
            if has_abs(v):
                return list.__len__(v) > 0 or bool(vlen(v) > 0)
            return list.__len__(v) > 0
        h = getattr(type(v), "_pyvc_truth", None)
        if h is not None:
            return h(v)
        for nm in ("__bool__", "__len__"):
            m = getattr(type(v), nm, None)
            if m is not None:
                if isinstance(m, types.FunctionType) and in_pkg(m):
                    return self.truth(self.call(m, (v,)))
                return bool(v)
        return True

    # ---------------------------------------------------------------- attributes and items
    def guard_read(self, o, name, v):
        for g in self.ctx.read_guards:
            if (id(o), name) in g or (id(v), "[]") in g:
                raise Unsupported("a lazily evaluated comprehension reads what was written after it")

    def e_Attribute(self, fr, e):
        return self.getattr(self.ev(fr, e.value), e.attr)

    def getattr(self, o, name):
        v = self.getattr_(o, name)
        if self.ctx.read_guards:
            self.guard_read(o, name, v)
        return v

    def getattr_(self, o, name):
        if isinstance(o, SStr) or isinstance(o, SChar) or (isinstance(o, VSeq)) or isinstance(o, SNum) or isinstance(o, SBool):
            return self.virtual(o, name)
        if isinstance(o, (GenObj, LazyGen)):
            raise Unsupported("attribute of a generator")
        if isinstance(o, values.SOpt):
            o = o.get()
        t = type(o)
        if t.__module__.startswith(PKG) and not getattr(t, "_pyvc_stub", False):
            st = inspect.getattr_static(t, name, None)
            if isinstance(st, property):
                return self.call(st.fget, (o,))
            if isinstance(st, functools.cached_property):
                raise Unsupported("cached_property")
            try:
                return getattr(o, name)
            except AttributeError as e:
                ga = getattr(t, "__getattr__", None)
                if ga is not None:
                    raise Unsupported("__getattr__")
                raise mark(e)
        try:
            return getattr(o, name)
        except EngineSignal:
            raise
        except AttributeError as e:
            if getattr(t, "_pyvc_stub", False):
                raise Unsupported("attribute '%s' of stub %s" % (name, t.__name__))
            raise mark(e)

    def setattr(self, o, name, v):
        t = type(o)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            raise Unsupported("assignment to an attribute of %s" % o)
        if getattr(t, "_pyvc_stub", False):
            self.ctx.note_write(o, name)
            try:
                setattr(o, name, v)
            except AttributeError:
                raise Unsupported("attribute '%s' set on stub %s" % (name, t.__name__))
            return
        if not t.__module__.startswith(PKG):
            raise Unsupported("assignment to an attribute of a %s" % t.__name__)
        st = inspect.getattr_static(t, name, None)
        if isinstance(st, property):
            if st.fset is None:
                raise mark(AttributeError(name))
            self.call(st.fset, (o, v))
            return
        if getattr(o, "_pyvc_elem", False):
            raise Unsupported("write to an element of a symbolic sequence")
        self.ctx.note_write(o, name)
        try:
            object.__setattr__(o, name, v)
        except AttributeError as e:
            raise mark(e)

    def virtual(self, o, name):
        fn = None
        for t in type(o).__mro__:
            fn = fn or VIRTUAL.get((t, name))
        if fn is None:
            raise Unsupported("%s.%s" % (type(o).__name__, name))
        return BoundVirtual(lambda *a, **k: fn(self, o, *a, **k))

    def index_of(self, fr, s):
        if isinstance(s, ast.Slice):
            return slice(None if s.lower is None else self.ev(fr, s.lower),
                         None if s.upper is None else self.ev(fr, s.upper),
                         None if s.step is None else self.ev(fr, s.step))
        return self.ev(fr, s)

    def e_Subscript(self, fr, e):
        o = self.ev(fr, e.value)
        return self.getitem(o, self.index_of(fr, e.slice))

    def getitem(self, o, i):
        v = self.getitem_(o, i)
        if self.ctx.read_guards:
            self.guard_read(None, None, v)
        return v

    def getitem_(self, o, i):
        if isinstance(o, VSeq):
            return o.getitem(i)
        if isinstance(o, SStr):
            return str_index(o, i)
        if has_abs(o):
            return self.abs_getitem(o, i)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                    return self.sym_slice(o, i)
                r = list.__getitem__(o, i) if isinstance(o, list) else o[i]
                return VList(r, "slice") if isinstance(o, list) else r
            if isinstance(i, SNum):
                n = len(o)
                e = i.e
                for j in range(-n, n):
                    if self.ctx.branch(e == j):
                        return o[j]
                raise mark(IndexError("index out of range"))
            try:
                return list.__getitem__(o, i) if isinstance(o, list) else o[i]
            except (IndexError, TypeError) as ex:
                raise mark(ex)
        if isinstance(o, dict):
            if isinstance(i, Sym):
                for k, v in o.items():
                    if self.truth(self.eq(k, i)):
                        return v
                raise mark(KeyError("<sym>"))
            try:
                r = o[i]
            except (KeyError, TypeError) as ex:
                raise mark(ex)
            return r
        h = getattr(type(o), "_pyvc_getitem", None)
        if h is not None:
            return h(o, i)
        m = getattr(type(o), "__getitem__", None)
        if isinstance(m, types.FunctionType) and in_pkg(m):
            return self.call(m, (o, i))
        if has_sym(i) or m is None and isinstance(o, Sym):
            raise Unsupported("index into %s" % type(o).__name__)
        try:
            return o[i]
        except EngineSignal:
            raise
        except BaseException as ex:
            raise mark(ex)

    def sym_slice(self, o, i):
        if i.step not in (None, 1):
            raise Unsupported("slice step")
        n = len(o)
        a = values.clip(0 if i.start is None else i.start, z3.IntVal(n))
        b = z3.IntVal(n) if i.stop is None else values.clip(i.stop, z3.IntVal(n))
        ca = cb = None
        for j in range(n + 1):
            if self.ctx.branch(a == j):
                ca = j
                break
        for j in range(n + 1):
            if self.ctx.branch(b == j):
                cb = j
                break
        if ca is None or cb is None:
            raise PathEnd()
        r = o[ca:cb]
        return VList(r, "slice") if isinstance(o, list) else r

    def abs_getitem(self, o, i):
        n = list.__len__(o)
        if isinstance(i, int) and not isinstance(i, bool) and i < 0:
            while list.__len__(o) < -i:
                if not has_abs(o) or not values.peel(o):
                    break
                self.ctx.note_write(o, "[]", heap=False)
            if list.__len__(o) < -i:
                raise mark(IndexError("list index out of range"))
            return list.__getitem__(o, i)
        if isinstance(i, slice):
            ends = (i.start, i.stop)
            k = next((-e for e in ends if isinstance(e, int) and not isinstance(e, bool) and e < 0), None)
            if i.step in (None, 1) and k is not None and None in ends:
                # all but the last elements, or the last elements
                while has_abs(o) and list.__len__(o) < k and values.peel(o):
                    pass
                r = self.list_method(o, "copy", (), {})
                n = list.__len__(r)
                if i.start is None:
                    list.__delitem__(r, slice(max(0, n - k), n))
                elif n >= k:
                    r.abs = None
                    list.__delitem__(r, slice(0, n - k))
                return r
            raise Unsupported("slice of an abstract list")
        return self.indexed(o).getitem(i)

    def indexed(self, lst):
        """an abstract list, as it is now, as a sequence"""
        now = [lst.abs] + list(list.__iter__(lst))
        old = getattr(lst, "seq", None)
        if old is None or len(old[0]) != len(now) or any(a is not b for a, b in zip(old[0], now)):
            lst.seq = (now, values.abs_seq(lst))
        return lst.seq[1]

    def setitem(self, o, i, v):
        ctx = self.ctx
        if isinstance(o, list):
            if isinstance(i, slice) or isinstance(i, SNum):
                raise Unsupported("slice or symbolic item assignment")
            n = list.__len__(o)
            if isinstance(o, VList) and (-n <= i < 0 or not has_abs(o) and 0 <= i < n):
                ctx.note_write(o, ("at", i if i < 0 else i - n))
                list.__setitem__(o, i, v)
                return
            ctx.note_write(o, "[]")
            if has_abs(o):
                if i < 0:
                    while list.__len__(o) < -i:
                        if not has_abs(o) or not values.peel(o):
                            break
                else:
                    raise Unsupported("item assignment in an abstract list")
            try:
                list.__setitem__(o, i, v)
            except IndexError as ex:
                raise mark(ex)
            return
        if isinstance(o, dict):
            if isinstance(i, Sym):
                raise Unsupported("symbolic dictionary key")
            ctx.note_write(o, ("key", i))
            o[i] = v
            return
        if isinstance(o, VSeq):
            ctx.note_write(o, "[]")
            return o.setitem(i, v)
        h = getattr(type(o), "_pyvc_setitem", None)
        if h is not None:
            ctx.note_write(o, "[]")
            return h(o, i, v)
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def delitem(self, o, i):
        if isinstance(o, list) and not has_abs(o) and isinstance(i, int):
            self.ctx.note_write(o, "[]")
            try:
                list.__delitem__(o, i)
            except IndexError as ex:
                raise mark(ex)
            return
        if isinstance(o, dict) and not isinstance(i, Sym):
            self.ctx.note_write(o, ("key", i))
            try:
                del o[i]
            except KeyError as ex:
                raise mark(ex)
            return
        h = getattr(type(o), "_pyvc_delitem", None)
        if h is not None:
            self.ctx.note_write(o, "[]")
            return h(o, i)
        raise Unsupported("del item")

    # ---------------------------------------------------------------- calls
    def e_Call(self, fr, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            nf = fr.native_fn
            f = fr
            while nf is None and f is not None:
                nf = f.native_fn
                f = f.parent
            if nf is None or "__class__" not in nf.__code__.co_freevars:
                raise Unsupported("super()")
            cls = nf.__closure__[nf.__code__.co_freevars.index("__class__")].cell_contents
            f = fr
            while f.parent is not None:
                f = f.parent
            return super(cls, f.vars[f.info.params[0]])
        f = self.ev(fr, e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(fr, a.value)
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(fr, a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                for kk in v:
                    if kk in kwargs:
                        raise mark(TypeError("multiple values for keyword"))
                    kwargs[kk] = v[kk]
            else:
                kwargs[k.arg] = v
        self.sites.append("@%d:%d" % (e.lineno, e.col_offset))
        n = len(self.sites)
        try:
            return self.call(f, tuple(args), kwargs)
        finally:
            del self.sites[n - 1:]

    def helper(self, name, *args):
        return self.call_node(HELPER[name], None, {}, args, {}, (), {}, None, name)

    def e_Yield(self, fr, e):
        f = fr
        if f.yield_handler is None:
            raise Unsupported("yield")
        v = None if e.value is None else self.ev(fr, e.value)
        # the consumer's code runs at the yield
        f.yield_handler(v)
        return None

    def e_JoinedStr(self, fr, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(fr, v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(fr, v.format_spec)
                parts.append(self.fmt(x, spec, v.conversion))
        return rope(parts)

    def e_FormattedValue(self, fr, e):
        return self.ev(fr, ast.JoinedStr(values=[e]))

    def fmt(self, x, spec=None, conv=-1):
        if conv in (ord("r"), ord("a")):
            if has_sym(x) or getattr(type(x), "_pyvc_stub", False):
                return "<repr>"
            return repr(x)
        if isinstance(x, VSeq) and x.typ is str:
            return x
        if isinstance(x, (SStr, SNum)):
            if spec:
                return SStr((core.fmt_num(x, spec),)) if isinstance(x, SNum) else x
            return x
        if isinstance(x, SBool):
            return "True" if self.truth(x) else "False"
        if isinstance(x, SChar):
            raise Unsupported("formatting a symbolic character")
        if has_sym(x):
            return SStr((core.opaque_str(x),))
        if type(x).__module__.startswith(PKG):
            return "<%s>" % type(x).__name__
        try:
            return format(x, spec or "")
        except BaseException as ex:
            raise mark(ex)

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, fr, e):
        return self.comp(fr, e, e.elt, e.generators, list)

    def e_GeneratorExp(self, fr, e):
        return self.comp(fr, e, e.elt, e.generators, "gen")

    def e_SetComp(self, fr, e):
        r = self.comp(fr, e, e.elt, e.generators, list)
        if self.ctx.set_model is not None:
            return self.ctx.set_model(r)
        if isinstance(r, VSeq) or has_sym(list(r)):
            raise Unsupported("set comprehension")
        s = set(r)
        self.ctx.register(s, "set")
        return s

    def e_DictComp(self, fr, e):
        r = self.comp(fr, e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load(), lineno=e.lineno,
                                       col_offset=e.col_offset), e.generators, list)
        if isinstance(r, VSeq):
            raise Unsupported("dict comprehension over a symbolic sequence")
        d = dict(r)
        self.ctx.register(d, "dict")
        return d

    def comp(self, fr, node, elt, gens, typ):
        g = gens[0]
        it = self.ev(fr, g.iter)
        if hasattr(type(it), "_pyvc_iter"):
            it = it._pyvc_iter()
        if isinstance(it, VSeq) and len(gens) == 1:
            return self.lazy_comp(fr, node, elt, g, it, typ)

        def child():
            info = CompInfo(gens)
            return Frame(self, info, fr, fr.globals, None, "comp")
        if typ == "gen":
            # lazily driven
            return LazyGen(self, fr, node, elt, gens, it, child())
        cf = child()
        out = VList(tag="comp%d" % node.lineno)

        def rec(i, seq):
            gen = gens[i]

            def body(x):
                self.assign(cf, gen.target, x)
                for c in gen.ifs:
                    if not self.truth(self.ev(cf, c)):
                        return
                if i + 1 < len(gens):
                    rec(i + 1, self.ev(cf, gens[i + 1].iter))
                else:
                    self.list_method(out, "append", (self.ev(cf, elt),), {})
            self.for_loop(fr, gen.iter, seq, body)
        rec(0, it)
        return out

    def lazy_comp(self, fr, node, elt, g, it, typ):
        ctx = self.ctx
        born = ctx.clock
        nwrites = len(ctx.writes)
        snap = dict(fr.vars)
        sites = list(self.sites) + ["lc%d:%d" % (node.lineno, node.col_offset)]

        def frame():
            base = Frame(self, fr.info, fr.parent, fr.globals, fr.native_fn, "compbase")
            base.vars.update(snap)
            return Frame(self, CompInfo([g]), base, fr.globals, None, "comp")

        def guards():
            """locations written since the comprehension was executed: its evaluation may not read them"""
            g = set()
            for b, o, attr, heap in ctx.writes[nwrites:]:
                if b <= born and (o is not fr or typ == "gen"):
                    g.add((id(o), attr) if isinstance(attr, str) and attr != "[]" else (id(o), "[]"))
                    g.add(id(o))
            return g

        it_at = it.at

        def at(k):
            x = it_at(k)
            cf = frame()
            saved, self.sites = self.sites, list(sites)
            ls, ctx.loop_stack = ctx.loop_stack, []
            ctx.read_guards.append(guards())
            try:
                self.assign(cf, g.target, x)
                r = self.ev(cf, elt)
                return r
            finally:
                self.sites = saved
                ctx.loop_stack = ls
                ctx.read_guards.pop()

        guard = it.guard
        if g.ifs:
            def guard(k, inner=it.guard):
                if inner is not None:
                    if not self.truth(inner(k)):
                        return False
                x = it_at(k)
                cf = frame()
                saved, self.sites = self.sites, list(sites)
                ctx.read_guards.append(guards())
                try:
                    self.assign(cf, g.target, x)
                    for c in g.ifs:
                        if not self.truth(self.ev(cf, c)):
                            return False
                    return True
                finally:
                    self.sites = saved
                    ctx.read_guards.pop()
        return it.derive(at, guard, list)

    # ---------------------------------------------------------------- methods of builtins
    def builtin_method(self, f, slf, args, kwargs):
        name = f.__name__
        if isinstance(slf, type):
            m = CLS_METHODS.get((slf, name))
            if m is not None:
                return m(self, *args, **kwargs)
            return self.native(f, args, kwargs)
        if isinstance(slf, list):
            return self.list_method(slf, name, args, kwargs)
        if isinstance(slf, dict):
            return self.dict_method(slf, name, args, kwargs)
        if isinstance(slf, str):
            return self.str_method(slf, name, args, kwargs)
        if isinstance(slf, set):
            h = set_method(self, slf, name, args, kwargs)
            return h
        if isinstance(slf, tuple) and name in ("index", "count"):
            return self.list_method(VList(slf), name, args, kwargs)
        h = getattr(type(slf), "_pyvc_stub", False)
        if h:
            return f(*args, **kwargs)
        import re
        if isinstance(slf, re.Pattern):
            from . import relang
            if any(has_sym(a) for a in args):
                h = self.ctx.str_hooks.get("re." + name)
                return h(slf, *args) if h is not None else relang.call(self, slf, name, args)
            if name in ("sub", "subn") and isinstance(args[0], IFunc):
                raise Unsupported("re.sub with interpreted function")
        return self.native(f, args, kwargs)

    def list_method(self, l, name, args, kwargs):
        ctx = self.ctx
        if name == "append":
            ctx.note_write(l, "[]")
            list.append(l, args[0])
            return None
        if name == "extend":
            x = args[0]
            if hasattr(type(x), "_pyvc_iter"):
                x = x._pyvc_iter()
            if isinstance(x, VSeq):
                self.helper("h_extend", l, x)
                return None
            if has_abs(x):
                if list.__len__(l) == 0 and not has_abs(l) and isinstance(l, VList):
                    ctx.note_write(l, "[]")
                    l.abs = x.abs.copy()
                    list.extend(l, list.__iter__(x))
                    return None
                return self.concat_abs(l, x)
            ctx.note_write(l, "[]")
            items = self.iterate(x)
            list.extend(l, items)
            return None
        if name == "insert":
            i, x = args
            if has_abs(l):
                raise Unsupported("insert into an abstract list")
            ctx.note_write(l, "[]")
            if isinstance(i, SNum):
                raise Unsupported("insert at a symbolic position")
            list.insert(l, i, x)
            return None
        if name == "pop":
            ctx.note_write(l, "[]")
            i = args[0] if args else -1
            if has_abs(l):
                if i != -1:
                    raise Unsupported("pop from the front of an abstract list")
                if list.__len__(l) == 0:
                    if not values.peel(l):
                        raise mark(IndexError("pop from empty list"))
                return list.pop(l)
            try:
                return list.pop(l, i)
            except IndexError as e:
                raise mark(e)
        if name == "copy":
            r = VList(list.__iter__(l), "copy")
            if has_abs(l):
                r.abs = l.abs.copy()
            return r
        if name == "index":
            if has_abs(l):
                raise Unsupported("index in an abstract list")
            for i, x in enumerate(list.__iter__(l)):
                if x is args[0] or self.truth(self.eq(x, args[0])):
                    return i
            raise mark(ValueError("not in list"))
        if name == "remove":
            if has_abs(l):
                return self.abs_remove(l, args[0])
            for i, x in enumerate(list.__iter__(l)):
                if x is args[0] or self.truth(self.eq(x, args[0])):
                    ctx.note_write(l, "[]")
                    list.__delitem__(l, i)
                    return None
            raise mark(ValueError("not in list"))
        if name == "clear":
            ctx.note_write(l, "[]")
            list.clear(l)
            if isinstance(l, VList):
                l.abs = None
            return None
        if name == "reverse":
            if has_abs(l):
                raise Unsupported("reverse of an abstract list")
            ctx.note_write(l, "[]")
            list.reverse(l)
            return None
        if name == "sort":
            ctx.note_write(l, "[]")
            r = m_sorted(self, l, **kwargs)
            list.clear(l)
            if isinstance(r, VSeq) or has_abs(r):
                raise Unsupported("sort of an abstract list")
            list.extend(l, r)
            return None
        if name == "count":
            n = 0
            for x in list.__iter__(l):
                if self.truth(self.eq(x, args[0])):
                    n += 1
            return n
        raise Unsupported("list.%s" % name)

    def abs_remove(self, l, x):
        """removal of an element known to be in the abstract part: measures to which it adds nothing stay"""
        ctx = self.ctx
        seq = self.indexed(l)
        if list.__len__(l) or not any(r[0] is x for r in seq.cache.values()):
            raise Unsupported("remove from an abstract list")
        ctx.note_write(l, "[]")
        before = {m.name: NA if l.abs.states.get(m.name, NA) is NA else mk_fresh(ctx, "st_" + m.name, m.sort)
                  for m in ctx.measures.values()}
        after = {}
        for m in ctx.measures.values():
            after[m.name] = NA
            if before[m.name] is NA:
                continue
            try:
                v = m.apply(before, x)
            except values.NotApplicable:
                continue
            if ctx.valid(values.mk_eq(v, before[m.name])):
                after[m.name] = l.abs.states[m.name]
            elif hasattr(m, "undo"):
                after[m.name] = m.undo(l.abs.states[m.name], x)
        l.abs = Abs(after, z3.simplify(l.abs.length - 1), l.abs.shapes)

    def concat_abs(self, l, x):
        if not isinstance(l, VList):
            raise Unsupported("concatenation of abstract lists")
        a = x.abs
        if a.shapes and not any(s == ("unknown",) for s in a.shapes) and l is not x:
            st = measure_states(l)
            if any(st.get(m.name, NA) is not NA and a.states.get(m.name, NA) is not NA and m.cat is None
                   and not (a.effect is not None and m.name in a.effect) for m in self.ctx.measures.values()):
                # element by element
                parts = self.parts_of(x)
                if parts is None:
                    return self.helper("h_extend", l, x)
                n = len(self.sites)
                for i, p in enumerate(parts):
                    self.sites.append("part%d" % i)
                    self.list_method(l, "extend", (p,), {})
                    del self.sites[n:]
                return None
        values.absorb(l, x)

    def dict_method(self, d, name, args, kwargs):
        ctx = self.ctx
        if name == "get":
            k = args[0]
            if isinstance(k, Sym):
                for kk, v in d.items():
                    if self.truth(self.eq(kk, k)):
                        return v
                return args[1] if len(args) > 1 else None
            try:
                return d.get(*args)
            except TypeError as e:
                raise mark(e)
        if name in ("items", "keys", "values"):
            return VList(list(getattr(d, name)()), "items")
        if name == "copy":
            r = dict(d)
            ctx.register(r, "dict")
            return r
        if name == "setdefault":
            k = args[0]
            if isinstance(k, Sym):
                raise Unsupported("symbolic key")
            if k not in d:
                ctx.note_write(d, ("key", k))
                d[k] = args[1] if len(args) > 1 else None
            return d[k]
        if name == "update":
            src = dict(*args)
            src.update(kwargs)
            for k, v in src.items():
                ctx.note_write(d, ("key", k))
                d[k] = v
            return None
        if name == "pop":
            k = args[0]
            if isinstance(k, Sym):
                raise Unsupported("symbolic key")
            ctx.note_write(d, ("key", k))
            try:
                return d.pop(*args)
            except KeyError as e:
                raise mark(e)
        raise Unsupported("dict.%s" % name)

    def str_method(self, s, name, args, kwargs):
        if not any(has_sym(a) for a in args) and not any(has_sym(v) for v in kwargs.values()):
            if name == "format":
                args = [x if not (type(x).__module__.startswith(PKG)) else "<obj>" for x in args]
            if name == "join":
                args = [self.iterate(args[0])]
                if has_sym(args[0]):
                    return self.str_method(s, name, args, kwargs)
            try:
                r = getattr(s, name)(*args, **kwargs)
            except (EngineSignal, Ctl):
                raise
            except BaseException as e:
                raise mark(e)
            return VList(r, "strlist") if type(r) is list else r
        if name == "format":
            return self.str_format(s, args, kwargs)
        if name == "join":
            x = args[0]
            if hasattr(type(x), "_pyvc_iter"):
                x = x._pyvc_iter()
            if isinstance(x, VSeq) or has_abs(x):
                return self.sym_join(s, x)
            items = self.iterate(x)
            parts = []
            for i, it in enumerate(items):
                if i and s:
                    parts.append(s)
                if not isinstance(it, (str, SStr)) and not (isinstance(it, VSeq) and it.typ is str):
                    raise mark(TypeError("sequence item: expected str instance"))
                parts.append(it)
            return rope(parts)
        if name == "startswith" or name == "endswith":
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return mk(f(to_z3(args[0]), z3.StringVal(s)))
        if name in self.ctx.str_hooks:
            return v_hook(name)(self, s, *args)
        raise Unsupported("str.%s with symbolic arguments" % name)

    def sym_join(self, s, x):
        from .strs import join_seq
        h = self.ctx.str_hooks.get("join")
        if h is not None:
            r = h(s, x)
            if r is not NotImplemented:
                return r
        return join_seq(self, s, x)

    def percent(self, s, args):
        """s % args, for %s, %d of integers and texts"""
        import re
        args = list(args) if isinstance(args, tuple) else [args]
        parts = []
        for lit in re.split("(%.)", s):
            if lit == "%%":
                parts.append("%")
            elif lit in ("%s", "%d"):
                if not args:
                    raise mark(TypeError("not enough arguments for format string"))
                v = args.pop(0)
                if isinstance(v, (dict, tuple)) or (lit == "%d" and not isinstance(v, int) and not (
                        isinstance(v, SNum) and z3.is_int(v.e))):
                    raise Unsupported("% formatting of symbolic values")
                parts.append(self.fmt(v, None, ord("s")))
            elif lit[:1] == "%":
                raise Unsupported("% formatting of symbolic values")
            elif lit:
                parts.append(lit)
        if args:
            raise mark(TypeError("not all arguments converted during string formatting"))
        return rope(parts)

    def str_format(self, s, args, kwargs):
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kwargs[field]
            else:
                raise Unsupported("format field")
            parts.append(self.fmt(v, spec or None, ord(conv) if conv else -1))
        return rope(parts)


class CompInfo:
    def __init__(self, gens):
        self.locals = set()
        self.nonlocals = set()
        self.globals_ = set()
        self.params = []
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.locals.add(n.id)


class BoundVirtual:
    __slots__ = ("fn",)
    _pyvc_stub = True

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class GenObj:
    """A not yet started generator of the verified code; it is driven by its consumer."""

    def __init__(self, interp, node, parent, glob, args, kwargs, defaults, kwdefaults, native_fn, qual):
        self.a = (node, parent, glob, args, kwargs, defaults, kwdefaults, native_fn, qual)
        self.interp = interp
        self.used = False

    def drive(self, handler):
        if self.used:
            return
        self.used = True
        return self.interp.call_node(*self.a, yield_handler=handler)


class LazyGen:
    """generator expression over a concrete iterable"""

    def __init__(self, interp, fr, node, elt, gens, it, cf):
        self.x = (interp, fr, node, elt, gens, it, cf)
        self.used = False

    def drive(self, handler):
        if self.used:
            return
        self.used = True
        interp, fr, node, elt, gens, it, cf = self.x

        def rec(i, seq):
            gen = gens[i]

            def body(x):
                interp.assign(cf, gen.target, x)
                for c in gen.ifs:
                    if not interp.truth(interp.ev(cf, c)):
                        return
                if i + 1 < len(gens):
                    rec(i + 1, interp.ev(cf, gens[i + 1].iter))
                else:
                    handler(interp.ev(cf, elt))
            interp.for_loop(fr, gen.iter, seq, body)
        rec(0, it)


class GenCM:
    """contextlib.contextmanager over a generator function of the verified code"""

    def __init__(self, interp, fn, args, kwargs):
        self.interp, self.fn, self.args, self.kwargs = interp, fn, args, kwargs

    def run(self, inner):
        fn = self.fn
        interp = self.interp
        interp.ctx.functions.add(interp.qual(fn))
        node = fn_ast(fn)
        state = {"n": 0}

        def handler(v):
            state["n"] += 1
            if state["n"] > 1:
                raise mark(RuntimeError("generator didn't stop"))
            inner(v)
        try:
            interp.call_node(node, None, fn.__globals__, self.args, self.kwargs, fn.__defaults__ or (),
                             fn.__kwdefaults__ or {}, fn, interp.qual(fn), yield_handler=handler_ret(handler, state))
        except InnerReturn as r:
            raise r.sig
        if state["n"] == 0:
            raise mark(RuntimeError("generator didn't yield"))


class InnerReturn(Ctl):
    """return/break/continue of the consumer passing through a generator"""

    def __init__(self, sig):
        self.sig = sig


def handler_ret(handler, state):
    def h(v):
        try:
            handler(v)
        except (ReturnSig, BreakSig, ContinueSig) as s:
            raise InnerReturn(s)
    return h


def ctx_forked(ctx, pos):
    return any(d in (0, 1) or d >= 10 for d in ctx.taken[pos:])


def mk_fresh(ctx, nm, sort):
    return mk(ctx.fresh(nm, sort)) if sort != z3.BoolSort() else SBool(ctx.fresh(nm, sort))


def flatten(v, path, out):
    if type(v) is tuple:
        for i, x in enumerate(v):
            flatten(x, path + "[%d]" % i, out)
    elif isinstance(v, values.SOpt) and core.cur().optional_refs:
        out[path + ".none"] = mk(v.none)
    elif core.cur().ref_kinds and (r := values.ref_of(v)) is not None:
        out[path] = r[1]
    elif isinstance(v, VSeq):
        out[path + ".lo"] = mk(v.lo)
        out[path + ".hi"] = mk(v.hi)
    else:
        out[path] = v


def rope(parts):
    if any(isinstance(p, VSeq) for p in parts):
        raise Unsupported("concatenation of symbolic text")
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return SStr(parts)


def seq_eq_lit(a, s):
    n = a.length()
    r = n == len(s)
    if r is False:
        return False
    fs = [to_z3(r)]
    for i, ch in enumerate(s):
        x = a.at(z3.simplify(a.lo + i))
        fs.append(to_z3(x == ch))
    return mk(z3.And(*fs))


def str_index(o, i):
    # at a known end of the text
    first, last = (o.parts[0], o.parts[-1]) if o.parts else (None, None)
    if type(i) is int and isinstance(last, str) and -len(last) <= i < 0:
        return last[i]
    if type(i) is int and isinstance(first, str) and 0 <= i < len(first):
        return first[i]
    if isinstance(i, slice) and i.step is None:
        if i.start in (None, 0) and type(i.stop) is int and isinstance(last, str) and -len(last) <= i.stop < 0:
            return SStr(o.parts[:-1] + (last[:i.stop],))
        if i.stop is None and type(i.start) is int and isinstance(first, str) and 0 <= i.start <= len(first):
            return SStr((first[i.start:],) + o.parts[1:])
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("string slice step")
        e = o.expr()
        n = z3.Length(e)
        a = values.clip(0 if i.start is None else i.start, n)
        b = n if i.stop is None else values.clip(i.stop, n)
        return mk(z3.SubString(e, a, z3.If(b > a, b - a, z3.IntVal(0))))
    e = o.expr()
    n = z3.Length(e)
    k = to_z3(i)
    if cur().branch(k < 0):
        k = k + n
    if not cur().branch(z3.And(k >= 0, k < n)):
        raise mark(IndexError("string index out of range"))
    return mk(z3.SubString(e, k, 1))


def max2(a, b):
    if not has_sym(a) and not has_sym(b):
        return max(a, b)
    x, y = core.num_pair(a, b)
    return mk(z3.If(y > x, y, x))


def min2(a, b):
    if not has_sym(a) and not has_sym(b):
        return min(a, b)
    x, y = core.num_pair(a, b)
    return mk(z3.If(y < x, y, x))


max2._pyvc_native = min2._pyvc_native = True


# ------------------------------------------------------------------ loop invariants: candidates
class Candidates:
    """Invariant candidates of a cut loop: relations between the modified locations, their values at loop entry,
    the position, and the folds of the index spaces.  Candidates that fail are dropped (Houdini)."""

    def __init__(self, interp, site, v0, bases, start, direction):
        self.interp, self.site, self.v0, self.start, self.dir = interp, site, v0, start, direction
        self.bases = list(bases)
        self.ctx = interp.ctx
        self.extra = list
        self.hooked = {}
        self.allowed = None         # labels of the candidates that were checked at the entry of the loop

    def generate(self, view, x):
        """(label, formula) for the state `view` at position x"""
        out = []
        removed = self.site["removed"]
        ctx = self.ctx

        kinds = self.kinds(view)
        new = None
        if self.allowed is not None:
            # a statement about a value of another kind than at the entry holds there, as there is no such value
            new = [name for names, kind in kinds.items() if self.entry.get(names) != kind for name in names]
            new = re.compile("|".join(r"(?<![\w.])%s(?!\w)" % re.escape(name) for name in new)) if new else None

        def add(label, f):
            if label not in removed and (self.allowed is None or label in self.allowed or new and new.search(label)):
                out.append((label, f() if callable(f) else f))
        nums, bools, strs, others = [], [], [], []
        for key, d in view.items():
            for comp, v in d.items():
                lab = "%s.%s%s" % (key[0], key[1] if isinstance(key[1], str) else key[1][1], comp)
                v0 = self.v0.get(key, {}).get(comp, UNBOUND)
                v, v0 = (core.wrap(z) if z3.is_expr(z) else z for z in (v, v0))
                rec = (lab, v, v0)
                if isinstance(v, (bool, SBool)):
                    bools.append(rec)
                elif isinstance(v, (SNum, int, float)):
                    nums.append(rec)
                elif isinstance(v, (str, SStr)):
                    strs.append(rec)
                elif z3.is_expr(v):
                    others.append(rec)
                else:
                    others.append(rec)
        idx = []
        if x is not None:
            idx.append(("k", x))
        else:
            for lab, v, v0 in nums:
                if (isinstance(v, int) or (isinstance(v, SNum) and v.is_int)) and not lab.endswith("#len") \
                        and ".m:" not in lab:
                    idx.append((lab, to_z3(v)))
        for lab, v, v0 in nums:
            e = to_z3(v)
            if num(v0):
                add(lab + "==v0", lambda: eqn(v, v0))
                add(lab + ">=v0", lambda: z3.simplify(cmp_ge(v, v0)))
                add(lab + "<=v0", lambda: z3.simplify(cmp_ge(v0, v)))
            add(lab + ">=0", lambda: e >= 0)
            if num(v0) and ".m:" not in lab and not (isinstance(v0, (int, float)) and v0 <= 0):
                add(lab + ">0", lambda: e > 0)
            for il, ie in idx:
                if il == lab:
                    continue
                if x is not None:
                    add(lab + "==k", lambda: eqn(v, mk(ie)))
                    if num(v0):
                        d = mk(ie - self.start) if self.dir > 0 else mk(self.start - ie)
                        add(lab + "==v0+k", lambda: eqn(v, v0 + d))
                        add(lab + "==v0-k", lambda: eqn(v, v0 - d))
                        add(lab + "<=v0+k", lambda: cmp_ge(v0 + d, v))
                for b in self.bases:
                    for g, (f, init, step) in b.folds.items():
                        if not (f.range() == z3.IntSort() or f.range() == z3.RealSort()):
                            continue
                        gl = "%s:%s@%s" % (b.label, g, il)
                        gv = mk(f(ie))
                        add(lab + "==" + gl, lambda: eqn(v, gv))
                        if num(v0) and x is not None:
                            g0 = mk(f(self.start))
                            add(lab + "==v0+" + gl, lambda: eqn(v, v0 + (gv - g0)))
                            add(lab + "==v0-" + gl, lambda: eqn(v, v0 - (gv - g0)))
            if x is None:
                for b in self.bases:
                    if isinstance(v, int) or v.is_int:
                        add(lab + "<=n:" + b.label, lambda: e <= b.n)
                        if num(v0) and ".m:" not in lab and not lab.endswith("#len") and z3.is_int(to_z3(v0)):
                            # an index that runs over elements that do not change a fold
                            for g, (f, init, step) in b.folds.items():
                                for d in (0, 1):
                                    add("%s:%s unchanged+%d@%s" % (b.label, g, d, lab),
                                        lambda: f(z3.simplify(e + d)) == f(z3.simplify(to_z3(v0) + d)))
        for i, (la, va, a0) in enumerate(nums):
            for lb, vb, b0 in nums[i + 1:]:
                add("%s==%s" % (la, lb), lambda: eqn(va, vb))
                add("%s<=%s" % (la, lb), lambda: cmp_ge(vb, va))
                add("%s>=%s" % (la, lb), lambda: cmp_ge(va, vb))
                if num(a0) and num(b0):
                    add("%s-%s==const" % (la, lb), lambda: eqn(va - vb, a0 - b0))
                    add("%s+%s==const" % (la, lb), lambda: eqn(va + vb, a0 + b0))
        for lab, v, v0 in bools:
            e = to_z3(v)
            if isinstance(v0, (bool, SBool)):
                add(lab + "==v0", lambda: e == to_z3(v0))
            if x is not None:
                add(lab + "==(k==start)", lambda: e == (x == self.start))
                add(lab + "==(k!=start)", lambda: e == (x != self.start))
            for il, ie in idx:
                for b in self.bases:
                    for g, (f, init, step) in b.folds.items():
                        if f.range() == z3.BoolSort():
                            gl = "%s:%s@%s" % (b.label, g, il)
                            add(lab + "==" + gl, lambda: e == f(ie))
                            add(lab + "==!" + gl, lambda: e == z3.Not(f(ie)))
                        elif f.range() == z3.IntSort():
                            gl = "%s:%s@%s" % (b.label, g, il)
                            add(lab + "==(%s>0)" % gl, lambda: e == (f(ie) > 0))
                            add(lab + "==!(%s>0)" % gl, lambda: e == z3.Not(f(ie) > 0))
        for lab, v, v0 in strs:
            try:
                to_z3(v)
            except Unsupported:
                continue
            if isinstance(v0, (str, SStr)):
                add(lab + "==v0", lambda: to_z3(v) == to_z3(v0))
            for il, ie in idx:
                for b in self.bases:
                    for g, (f, init, step) in b.folds.items():
                        if f.range() == z3.StringSort():
                            gl = "%s:%s@%s" % (b.label, g, il)
                            add(lab + "==" + gl, lambda: to_z3(v) == f(ie))
                            if isinstance(v0, (str, SStr)):
                                add(lab + "==v0+" + gl, lambda: to_z3(v) == z3.Concat(to_z3(v0), f(ie)))
        # None-ness, and variables that are not bound yet
        absent = []
        for key, d in view.items():
            shapes = self.site["shapes"].get(key, [])
            lab = "%s.%s" % (key[0], key[1] if isinstance(key[1], str) else key[1][1])
            if d.get("", 0) is UNBOUND or self.v0.get(key, {}).get("", 0) is UNBOUND:
                none = z3.BoolVal(d.get("", 0) is UNBOUND)
            elif len(shapes) >= 2 and any(s[0] == "none" for s in shapes):
                none = z3.BoolVal(d.get("", 0) is None)
            else:
                continue
            for lb, other in absent:
                add("%s none==%s none" % (lab, lb), none == other)
            absent.append((lab, none))
            for il, ie in idx:
                for b in self.bases:
                    for g, (f, init, step) in b.folds.items():
                        if f.range() == z3.BoolSort():
                            gl = "%s:%s@%s" % (b.label, g, il)
                            add(lab + " none==" + gl, lambda: none == f(ie))
                            add(lab + " none==!" + gl, lambda: none == z3.Not(f(ie)))
            for lb, vb, b0 in bools:
                add("%s none==%s" % (lab, lb), lambda: none == to_z3(vb))
                add("%s none==!%s" % (lab, lb), lambda: none == z3.Not(to_z3(vb)))
        for lab, v, v0 in others:
            if z3.is_expr(v):
                if z3.is_expr(v0) and v0.sort() == v.sort():
                    add(lab + "==v0", lambda: v == v0)
                for il, ie in idx:
                    for b in self.bases:
                        for g, (f, init, step) in b.folds.items():
                            if f.range() == v.sort():
                                add(lab + "==%s:%s@%s" % (b.label, g, il), lambda: v == f(ie))
        for rec in ctx.recs:
            for il, ie in idx:
                for c in (0, -1, 1):
                    used = False
                    for lab, v, v0 in nums + bools + strs + others:
                        if isinstance(v, (str, SStr)) and rec.sort != z3.StringSort():
                            continue
                        e = to_z3(v) if isinstance(v, (Sym, int, float, bool, str)) or z3.is_expr(v) else None
                        if e is not None and e.sort() == rec.sort:
                            used = True
                            add("%s==%s@%s%+d" % (lab, rec.name, il, c), lambda: e == rec.f(ie + c))
                    if used:
                        rec.at(ie + c)
        for b in self.bases:
            for g, (f, init, step) in b.folds.items():
                if f.range() == z3.BoolSort():
                    for il, ie in idx:
                        add("!%s:%s@%s" % (b.label, g, il), lambda: z3.Not(f(ie)))
                        add("%s:%s@%s" % (b.label, g, il), lambda: f(ie))
        for i, fn in enumerate(ctx.invariants):
            cands = fn(view, x, self.bases)
            # given at the entry of the loop, where they are checked first, or not at all
            if self.hooked.setdefault(i, bool(cands)):
                for label, f in cands:
                    add(label, f)
            else:
                ctx.weak = True
        for label, f in self.extra():
            add(label, f)
        return out

    @staticmethod
    def kinds(view):
        """(names of a component as candidates call it) -> the kind of its value"""
        out = {}
        for key, d in view.items():
            for comp, v in d.items():
                lab = "%s.%s%s" % (key[0], key[1] if isinstance(key[1], str) else key[1][1], comp)
                out[lab, "%s%s" % (key, comp)] = "bool" if isinstance(v, (bool, SBool)) else \
                    "number" if isinstance(v, (SNum, int, float)) else "text" if isinstance(v, (str, SStr)) else \
                    str(v.sort()) if z3.is_expr(v) else type(v).__name__
        return out

    def check(self, what, view, x):
        ctx = self.ctx
        cands = [(l, z3.simplify(f)) for l, f in self.generate(view, x)]
        if what == "entry":
            self.allowed, self.entry = {l for l, f in cands}, self.kinds(view)
        cands = [(l, f) for l, f in cands if not z3.is_true(f)]
        removed = self.site["removed"]
        bad = [l for l, f in cands if z3.is_false(f)]
        cands = [(l, f) for l, f in cands if not z3.is_false(f)]
        while cands:
            r = ctx.check(z3.Not(z3.And(*[f for _, f in cands])))
            if r == z3.unsat:
                break
            new = []
            if r == z3.sat:
                m = ctx.solver.model()
                keep = []
                for l, f in cands:
                    if z3.is_false(m.eval(f, True)):
                        new.append(l)
                    else:
                        keep.append((l, f))
                if new:
                    cands = keep
                    bad += new
                    continue
            # no information: one by one
            keep = []
            for l, f in cands:
                if ctx.check(z3.Not(f)) == z3.unsat:
                    keep.append((l, f))
                else:
                    bad.append(l)
            cands = keep
            break
        if bad:
            removed.update(bad)
            ctx.dirty = True
        if ctx.proving and cands:
            name = "loop invariants"
            o = ctx.obls.setdefault(name, core.Obligation(name))
            o.vcs += 1
            o.ok += 1
            ctx.nvc += 1

    def assume(self, view, x):
        for l, f in self.generate(view, x):
            f = z3.simplify(f)
            if not z3.is_true(f):
                self.ctx.assume(f)


def num(v):
    return isinstance(v, (SNum, int, float)) and not isinstance(v, bool)


def eqn(a, b):
    x, y = core.num_pair(a, b)
    return x == y


def cmp_ge(a, b):
    x, y = core.num_pair(a, b)
    return x >= y


# ------------------------------------------------------------------ builtin models
import operator  # noqa: E402

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
          ast.BitAnd: operator.and_}
CMPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def m_len(I, x):
    if isinstance(x, VSeq):
        return x.length()
    if isinstance(x, list):
        return vlen(x)
    if isinstance(x, SStr):
        h = I.ctx.str_hooks.get("len")
        r = h(x) if h is not None else None
        return mk(z3.Length(x.expr())) if r is None else r
    h = getattr(type(x), "_pyvc_len", None)
    if h is not None:
        return h(x)
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType) and in_pkg(m):
        return I.call(m, (x,))
    try:
        return len(x)
    except EngineSignal:
        raise
    except BaseException as e:
        raise mark(e)


def m_isinstance(I, x, t):
    if isinstance(t, tuple):
        for y in t:
            if I.truth(m_isinstance(I, x, y)):
                return True
        return False
    if isinstance(x, SNum):
        return t is (int if x.is_int else float) or t is object
    if isinstance(x, SBool):
        return t in (bool, int, object)
    if isinstance(x, (SStr, SChar)):
        return t in (str, object)
    if isinstance(x, VSeq):
        return t is x.typ or t is object
    if isinstance(x, IFunc):
        return t is types.FunctionType or t is object
    h = getattr(type(x), "_pyvc_isinstance", None)
    if h is not None:
        return h(x, t)
    try:
        return isinstance(x, t)
    except TypeError as e:
        raise mark(e)


def m_type(I, x, *a):
    if a:
        raise Unsupported("type() with 3 arguments")
    if isinstance(x, SNum):
        return int if x.is_int else float
    if isinstance(x, SBool):
        return bool
    if isinstance(x, (SStr, SChar)):
        return str
    if isinstance(x, VSeq):
        return x.typ
    if isinstance(x, VList):
        return list
    return type(x)


def m_int(I, x=0, *a):
    if isinstance(x, SNum):
        if x.is_int:
            return x
        e = x.e
        fl = z3.ToInt(e)
        return mk(z3.If(e >= 0, fl, z3.If(z3.ToReal(fl) == e, fl, fl + 1)))
    if isinstance(x, SStr):
        from . import relang
        return relang.str_to_num(I, x, True)
    if isinstance(x, SBool):
        return mk(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    return I.native(int, (x,) + a, {})


def m_round(I, x, ndigits=None):
    if isinstance(x, SNum) and ndigits is None:
        if x.is_int:
            return x
        fl = z3.ToInt(x.e + z3.RealVal("1/2"))      # a tie goes to the even neighbour
        tie = z3.ToReal(fl) == x.e + z3.RealVal("1/2")
        return mk(z3.If(z3.And(tie, fl % 2 == 1), fl - 1, fl))
    if isinstance(x, SNum) or isinstance(ndigits, SNum):
        raise Unsupported("rounding to a number of digits")
    return I.native(round, (x,) if ndigits is None else (x, ndigits), {})


def m_float(I, x=0.0):
    if isinstance(x, SNum):
        return x if not x.is_int else mk(z3.ToReal(x.e))
    if isinstance(x, SStr):
        from . import relang
        return relang.str_to_num(I, x, False)
    return I.native(float, (x,), {})


def m_str(I, x="", *a):
    if a:
        return I.native(str, (x,) + a, {})
    if isinstance(x, SStr):
        return x
    if isinstance(x, VSeq) and x.typ is str:
        return x
    if isinstance(x, SNum):
        return SStr((x,))
    if isinstance(x, (SBool, SChar)) or has_sym(x):
        return rope([I.fmt(x)])
    m = getattr(type(x), "__str__", None)
    if isinstance(m, types.FunctionType) and in_pkg(m):
        return I.call(m, (x,))
    return I.native(str, (x,), {})


def m_bool(I, x=False):
    if isinstance(x, SBool):
        return x
    return I.truth(x)


def m_repr(I, x):
    if has_sym(x) or type(x).__module__.startswith(PKG):
        return "<repr>"
    return I.native(repr, (x,), {})


def m_max(I, *args, key=None, default=NA):
    return _minmax(I, "h_max", max2, args, key, default, max)


def m_min(I, *args, key=None, default=NA):
    return _minmax(I, "h_min", min2, args, key, default, min)


def _minmax(I, helper, two, args, key, default, native):
    if key is not None:
        raise Unsupported("max/min with key")
    if len(args) == 1:
        it = args[0]
        if isinstance(it, SeqModel):
            return it.minmax(I, native is max, default)
        return I.helper(helper, it, None, default is not NA, None if default is NA else default)
    acc = args[0]
    for x in args[1:]:
        try:
            acc = two(acc, x)
        except EngineSignal:
            raise
        except BaseException as e:
            raise mark(e)
    return acc


class SeqModel:
    """base class of abstract collections provided by contracts"""
    _pyvc_stub = True


class MList(SeqModel):
    """A list of the verified code given by a symbolic sequence; it may only change as a whole."""

    def __init__(self, seq):
        self.seq = seq
        cur().register(self, "mlist")

    def _pyvc_iter(self):
        return self.seq

    def _pyvc_truth(self):
        return self.seq.nonempty()

    def _pyvc_getitem(self, i):
        return self.seq.getitem(i)

    def _pyvc_len(self):
        return self.seq.length()

    def sorted(self, I, key, reverse):
        h = I.ctx.sort_hook
        if h is None:
            raise Unsupported("sort of a symbolic list")
        return MList(h(I, self.seq, key, reverse))

    def sort(self, key=None, reverse=False):
        c = cur()
        if c.loop_stack:
            raise Unsupported("sort inside a loop")
        c.note_write(self, "seq")
        h = c.sort_hook
        if h is None:
            raise Unsupported("sort of a symbolic list")
        self.seq = h(c.interp, self.seq, key, reverse)

    def reverse(self):
        c = cur()
        if c.loop_stack:
            raise Unsupported("reverse inside a loop")
        c.note_write(self, "seq")
        self.seq = self.seq.getitem(slice(None, None, -1))

    def copy(self):
        return MList(self.seq)


def m_sum(I, it, start=0):
    return I.helper("h_sum", it, start)


def m_any(I, it):
    return I.helper("h_any", it)


def m_all(I, it):
    return I.helper("h_all", it)


def m_abs(I, x):
    try:
        return abs(x)
    except TypeError as e:
        raise mark(e)


def m_range(I, *a):
    if not any(isinstance(x, Sym) for x in a):
        return I.native(range, a, {})
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(step, int) or step == 0:
        raise Unsupported("range with symbolic step")
    elo, ehi = to_z3(lo), to_z3(hi)
    if not z3.is_int(elo) or not z3.is_int(ehi):
        raise mark(TypeError("'float' object cannot be interpreted as an integer"))
    ctx = I.ctx
    if step == 1:
        bases = [b for b in ctx.bases if not z3.is_int_value(b.n)]
        base = next((b for b in bases if z3.eq(z3.simplify(b.n), z3.simplify(ehi))), None)
        if base is None:
            base = Base(z3.If(ehi > 0, ehi, z3.IntVal(0)), "range%d" % len(ctx.bases))
        return VSeq(base, lambda k: mk(k), z3.simplify(elo), z3.simplify(ehi), None, range)
    if step < 0:
        raise Unsupported("range with negative step")
    n = z3.simplify(z3.If(ehi > elo, (ehi - elo + step - 1) / step, z3.IntVal(0)))
    base = Base(n, "range%d" % len(ctx.bases))
    return VSeq(base, lambda k: mk(elo + k * step), 0, None, None, range)


def m_enumerate(I, it, start=0):
    if isinstance(it, VSeq):
        if it.guard is not None:
            raise Unsupported("enumerate over a filtered sequence")
        if it.rev:
            return it.derive(lambda k, at=it.at: (mk(z3.simplify(it.hi - 1 - k + to_z3(start))), at(k)))
        return it.derive(lambda k, at=it.at: (mk(z3.simplify(k - it.lo + to_z3(start))), at(k)))
    if has_abs(it):
        return m_enumerate(I, values.abs_seq(it), start)
    return VList([(start + i, x) for i, x in enumerate(I.iterate(it))], "enumerate")


def m_zip(I, *its):
    if any(isinstance(x, VSeq) for x in its):
        if not all(isinstance(x, VSeq) for x in its):
            raise Unsupported("zip of symbolic and concrete sequences")
        a = its[0]
        for b in its[1:]:
            if b.guard is not None or a.guard is not None or b.rev or a.rev:
                raise Unsupported("zip of filtered sequences")
            if not I.ctx.valid(a.hi - a.lo == b.hi - b.lo):
                raise Unsupported("zip of sequences of different length")
        extra = tuple(b.base for b in its[1:])
        return VSeq(a.base, lambda k, fs=[(x.at, x.lo) for x in its]: tuple(
            f(z3.simplify(lo + (k - a.lo))) for f, lo in fs), a.lo, a.hi, None,
                    list, False, extra)
    return VList(list(zip(*[I.iterate(x) for x in its])), "zip")


def m_reversed(I, it):
    if hasattr(type(it), "_pyvc_iter"):
        it = it._pyvc_iter()
    if isinstance(it, VSeq):
        return VSeq(it.base, it.at, it.lo, it.hi, it.guard, it.typ, not it.rev, it.extra)
    if has_abs(it):
        return m_reversed(I, values.abs_seq(it))
    return VList(list(reversed(I.iterate(it))), "reversed")


def m_list(I, it=()):
    if isinstance(it, VSeq):
        return it.derive(it.at, None, list) if it.guard is None else it
    if has_abs(it):
        return I.list_method(it, "copy", (), {})
    if isinstance(it, SeqModel):
        return it
    if isinstance(it, SStr):
        raise Unsupported("list of a symbolic string")
    return VList(I.iterate(it), "list")


def m_tuple(I, it=()):
    if isinstance(it, VSeq):
        if it.guard is not None:
            return it.derive(it.at, None, tuple)
        return it.derive(it.at, None, tuple)
    if isinstance(it, SeqModel):
        return it
    if has_abs(it):
        raise Unsupported("tuple of an abstract list")
    return tuple(I.iterate(it))


def m_set(I, it=()):
    if isinstance(it, VSeq) or has_sym(it):
        f = I.ctx.set_model
        if f is not None:
            return f(it)
        raise Unsupported("set of symbolic values")
    if I.ctx.set_model is not None:
        return I.ctx.set_model(I.iterate(it))
    s = set(I.iterate(it))
    I.ctx.register(s, "set")
    return s


def m_dict(I, *a, **k):
    if len(a) == 1 and hasattr(type(a[0]), "_pyvc_map"):
        d = a[0].copy()
        for kk, v in k.items():
            d._pyvc_setitem(kk, v)
        return d
    d = dict(*[dict(x) if isinstance(x, dict) else I.iterate(x) for x in a], **k)
    I.ctx.register(d, "dict")
    return d


def m_sorted(I, it, key=None, reverse=False):
    if isinstance(it, SeqModel):
        return it.sorted(I, key, reverse)
    items = I.iterate(it)
    keys = [I.call(key, (x,)) if key is not None else x for x in items]
    if any(has_sym(k) for k in keys):
        # stable insertion sort with decisions
        out = []
        for x, k in zip(items, keys):
            pos = len(out)
            while pos > 0:
                a, b = out[pos - 1][1], k
                lt = I.truth(I.compare(ast.Lt(), b, a)) if not reverse else I.truth(I.compare(ast.Lt(), a, b))
                if not lt:
                    break
                pos -= 1
            out.insert(pos, (x, k))
        return VList([x for x, _ in out], "sorted")
    try:
        r = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
    except TypeError as e:
        raise mark(e)
    return VList([items[i] for i in r], "sorted")


def m_getattr(I, o, name, *d):
    try:
        return I.getattr(o, name)
    except AttributeError as e:
        if d and getattr(e, "_pyvc_prog", False):
            return d[0]
        raise


def m_hasattr(I, o, name):
    try:
        I.getattr(o, name)
        return True
    except AttributeError as e:
        if getattr(e, "_pyvc_prog", False):
            return False
        raise


def m_setattr(I, o, name, v):
    I.setattr(o, name, v)


def m_callable(I, x):
    return callable(x)


def m_next(I, it, *d):
    if isinstance(it, (VSeq, list, tuple)) :
        return I.helper("h_next", it, bool(d), d[0] if d else None)
    if isinstance(it, LazyGen):
        return I.helper("h_next", it, bool(d), d[0] if d else None)
    if has_sym(it):
        raise Unsupported("next()")
    return I.native(next, (it,) + d, {})


def m_iter(I, it):
    raise Unsupported("iter()")


def m_print(I, *a, **k):
    return None


def m_map(I, f, it):
    if isinstance(it, VSeq):
        return it.derive(lambda k, at=it.at: I.call(f, (at(k),)))
    return VList([I.call(f, (x,)) for x in I.iterate(it)], "map")


def m_filter(I, f, it):
    if isinstance(it, VSeq):
        def guard(k, inner=it.guard, at=it.at):
            if inner is not None and not I.truth(inner(k)):
                return False
            return I.truth(I.call(f, (at(k),)) if f is not None else at(k))
        return it.derive(it.at, guard)
    return VList([x for x in I.iterate(it) if I.truth(I.call(f, (x,)) if f is not None else x)], "filter")


def m_copy(I, x):
    import copy
    if isinstance(x, list):
        return I.list_method(x, "copy", (), {})
    if isinstance(x, dict):
        return I.dict_method(x, "copy", (), {})
    if isinstance(x, (Sym, VSeq)) or x is None:
        return x
    if hasattr(type(x), "_pyvc_map"):
        return x.copy()
    r = copy.copy(x)
    I.ctx.register(r, "copy:" + type(x).__name__)
    return r


from pyvc.trig import COS, PI, SIN, m_cos, m_sin, m_tan  # noqa: E402
ATAN2 = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def real(v):
    e = to_z3(v)
    return z3.ToReal(e) if z3.is_int(e) else e


def m_sqrt(I, x):
    if not has_sym(x):
        return I.native(math.sqrt, (x,), {})
    e = real(x)
    ctx = I.ctx
    if ctx.branch(e < 0):
        raise mark(ValueError("math domain error"))
    r = SQRT(z3.simplify(e, som=True))
    ctx.sqrt_terms.append(r)
    ctx.assume(z3.And(r >= 0, r * r == e))
    return mk(r)


def m_atan2(I, y, x):
    if not has_sym(x) and not has_sym(y):
        return I.native(math.atan2, (y, x), {})
    ey, ex = real(y), real(x)
    r = ATAN2(ey, ex)
    h = SQRT(z3.simplify(ex * ex + ey * ey, som=True))
    I.ctx.assume(z3.And(h >= 0, h * h == ex * ex + ey * ey, h * SIN(r) == ey, h * COS(r) == ex,
                        SIN(r) * SIN(r) + COS(r) * COS(r) == 1))
    I.ctx.atan_terms.append((r, ey, ex, h))
    return mk(r)


def m_radians(I, x):
    if not has_sym(x):
        return I.native(math.radians, (x,), {})
    return mk(real(x) * z3.RealVal(str(PI / 180)))


def m_degrees(I, x):
    if not has_sym(x):
        return I.native(math.degrees, (x,), {})
    return mk(real(x) * z3.RealVal(str(180 / PI)))


def m_hypot(I, *xs):
    if not has_sym(xs):
        return I.native(math.hypot, xs, {})
    return m_sqrt(I, mk(z3.Sum(*[real(x) * real(x) for x in xs])))


import copy as _copy  # noqa: E402

MODELS = {len: m_len, isinstance: m_isinstance, type: m_type, int: m_int, float: m_float, str: m_str, bool: m_bool,
          repr: m_repr, max: m_max, min: m_min, sum: m_sum, any: m_any, all: m_all, abs: m_abs, range: m_range,
          enumerate: m_enumerate, zip: m_zip, reversed: m_reversed, list: m_list, tuple: m_tuple, set: m_set,
          dict: m_dict, sorted: m_sorted, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
          round: m_round, callable: m_callable, next: m_next, iter: m_iter, print: m_print, map: m_map, filter: m_filter,
          _copy.copy: m_copy, math.sqrt: m_sqrt, math.sin: m_sin, math.cos: m_cos, math.tan: m_tan, math.hypot: m_hypot, math.degrees: m_degrees,
          math.atan2: m_atan2, math.radians: m_radians}
for _f in ("debug", "info", "warning", "error"):
    MODELS[getattr(__import__("logging"), _f)] = m_print

CLS_METHODS = {}


def set_method(I, s, name, args, kwargs):
    if has_sym(args) or has_sym(s):
        raise Unsupported("set.%s with symbolic values" % name)
    if name in ("add", "discard", "remove", "update", "clear", "pop"):
        I.ctx.note_write(s, "[]")
        args = tuple(I.iterate(a) if name == "update" else a for a in args)
    return I.native(getattr(s, name), args, kwargs)


# ---- methods of symbolic strings
def v_startswith(I, s, p):
    return mk(z3.PrefixOf(to_z3(p), s.expr()))


def v_endswith(I, s, p):
    return mk(z3.SuffixOf(to_z3(p), s.expr()))


def v_hook(name):
    def f(I, s, *a, **kw):
        h = I.ctx.str_hooks.get(name)
        r = h(s, *a, **kw) if h is not None else None
        if r is None:
            raise Unsupported("str.%s on symbolic text" % name)
        return r
    return f


VIRTUAL = {(SStr, "startswith"): v_startswith, (SStr, "endswith"): v_endswith}
for _n in ("split", "strip", "lstrip", "rstrip", "replace", "splitlines", "lower", "upper", "isdigit", "format",
           "join", "partition", "find", "encode", "rsplit", "expandtabs", "count", "index", "removeprefix",
           "removesuffix", "zfill", "rjust", "ljust", "isalpha", "isalnum", "isspace", "isnumeric"):
    VIRTUAL[(SStr, _n)] = v_hook(_n)


def virtual(t, name):
    def deco(f):
        VIRTUAL[(t, name)] = f
        return f
    return deco
