"""The tree of an SVG image, of any size and shape, and what cutting elements out of it does to it."""
import copy

import z3

from pyvc.core import SStr, Unsupported, mk, to_z3
from pyvc.interp import IFunc
from pyvc.values import (Base, Measure, NotApplicable, RefKind, VList, VSeq, absorb, mark, measure_states, seg_list)
from props import _box as X

Z, S = z3.IntSort(), z3.StringSort()
E = z3.DeclareSort("Element")
TEXT = z3.Function("text_of", X.M, E, S)        # in the tree after the changes so far
TAIL = z3.Function("tail_of", X.M, E, S)
FIRST = z3.Function("is_first", X.M, E, X.B_)
PREV = z3.Function("element_before", X.M, E, E)
SETTEXT = z3.Function("text_set", X.M, E, S, X.M)
SETTAIL = z3.Function("tail_set", X.M, E, S, X.M)
REMOVE = z3.Function("removed", X.M, E, E, X.M)
SUB = z3.Function("pruned_inside", X.M, E, X.M)
LABEL = "{http://www.inkscape.org/namespaces/inkscape}label"


def prune(t, parent, child):
    """the element and everything in it is gone; the text behind it stays where it was"""
    tail = TAIL(t, child)
    keep = z3.If(FIRST(t, child), SETTEXT(t, parent, z3.Concat(TEXT(t, parent), tail)),
                 SETTAIL(t, PREV(t, child), z3.Concat(TAIL(t, PREV(t, child)), tail)))
    return REMOVE(z3.If(tail == z3.StringVal(""), t, keep), parent, child)


class Tree:
    def __init__(self, I, ctx, step):
        import lxml.etree as et
        self.I, self.ctx, self.step = I, ctx, step
        self.log = VList(tag="changes")
        self.marked = z3.Function("has_annotation", E, X.B_)
        self.vis = z3.Function("is_selected", E, Z, X.B_)
        self.least = z3.Function("fragments_of", E, Z)
        self.n = ctx.int("n_children")
        self.base = Base(self.n, "children")
        ctx.assume(to_z3(self.n) >= 0)
        self.child = z3.Function("child", Z, E)
        self.copy = z3.Const("copied_image", E)
        self.kind = RefKind("element", E, lambda v: (v.e, v.mine) if isinstance(v, Elem) else None,
                            lambda e, mine: Elem(self, e, mine))
        ctx.measures["pruned"] = Measure("pruned", X.M, X.START, self.measure)
        self.base.fold("pruned", X.M, X.START, self.spec)
        self.orig = Elem(self, z3.Const("image", E), False)
        self.copies = 0
        self.out = []
        ctx.recursion = self.recursion

        def deepcopy(I_, x, *a):
            if x is not self.orig:
                raise Unsupported("copy of a part of the image")
            self.copies += 1
            return self.kind.make(self.copy, True)

        def tostring(I_, x, *a, **kw):
            self.out.append((x, self.state()))
            return Text()

        def from_label(cls, label):
            if not isinstance(label, Label):
                raise Unsupported("annotation of something else than the label")
            return Show(self, label.e) if ctx.branch(self.marked(label.e)) else None
        from_label.__module__ = "props._tree"
        I.models[copy.deepcopy] = deepcopy
        I.models[et.tostring] = tostring
        ctx.contracts["slides.show.ShowInfo.from_label"] = from_label

    def spec(self, k, G):
        t, c = to_z3(G("pruned")), self.child(k)
        hidden = z3.And(self.marked(c), z3.Not(self.vis(c, to_z3(self.step))))
        return z3.If(hidden, prune(t, self.copy, c), SUB(t, c))

    def measure(self, get, x):
        t = to_z3(get("pruned"))
        if type(x) is tuple and len(x) == 2 and all(isinstance(v, Elem) for v in x):
            return prune(t, x[0].e, x[1].e)
        if isinstance(x, Change):
            return x.apply(t)
        raise NotApplicable()

    def state(self):
        return to_z3(measure_states(self.log)["pruned"])

    def change(self, c, elem):
        if not elem.mine:
            self.ctx.prove("the image itself is not changed", False)
        self.I.list_method(self.log, "append", (c,), {})

    def recursion(self, f, args, kwargs):
        """induction: the call on a child finds (or prunes) what is hidden inside it"""
        es = [a for a in args if isinstance(a, Elem)]
        if len(es) != 1 or kwargs:
            return NotImplemented
        outs = [a for a in args if isinstance(a, VList)]
        if isinstance(f, IFunc):
            fr = f.frame
            while fr is not None:
                outs += [v for v in fr.vars.values() if isinstance(v, VList) and v not in outs]
                fr = fr.parent
        if len(outs) != 1 or not es[0].mine:
            return NotImplemented
        e = es[0].e
        self.I.list_method(outs[0], "extend", (seg_list({"pruned": lambda s: SUB(to_z3(s), e)}, shapes=[
            ("tuple", ("ref", "element", True), ("ref", "element", True))]),), {})
        return None


class Text:
    _pyvc_stub = True

    def decode(self, *a):
        return self


class Label:
    _pyvc_stub = True

    def __init__(self, e):
        self.e = e


class Show:
    """parsed annotation (F01)"""
    _pyvc_stub = True

    def __init__(self, tree, e):
        self.tree, self.e = tree, e

    def is_visible(self, step):
        return mk(self.tree.vis(self.e, to_z3(step)))

    def min_steps(self):
        return mk(self.tree.least(self.e))

    def max_step(self):
        return mk(self.tree.least(self.e))


class Change:
    _pyvc_stub = True

    def __init__(self, f, *args):
        self.f, self.args = f, args

    def apply(self, t):
        if self.f is SETTEXT:
            return z3.If(TEXT(t, self.args[0]) == self.args[1], t, SETTEXT(t, *self.args))
        if self.f is SETTAIL:
            return z3.If(TAIL(t, self.args[0]) == self.args[1], t, SETTAIL(t, *self.args))
        return self.f(t, *self.args)

    def _pyvc_shape(self):
        return ("unknown",)


class Elem:
    _pyvc_stub = True

    def __init__(self, tree, e, mine):
        self.__dict__.update(tree=tree, e=e, mine=mine)

    def _pyvc_is(self, o):
        return mk(self.e == o.e) if isinstance(o, Elem) else False

    def get(self, name, default=None):
        if name != LABEL:
            raise Unsupported("attribute %s of an element" % name)
        return Label(self.e)

    def _pyvc_iter(self):
        t = self.tree
        if self.e.eq(t.copy):
            return VSeq(t.base, lambda k: t.kind.make(t.child(k), True))
        if self is t.orig:
            return VSeq(t.base, lambda k: t.kind.make(z3.Function("original_child", Z, E)(k), False))
        raise Unsupported("children of an inner element outside the recursion")

    def iter(self, *a):
        raise Unsupported("all elements")

    @property
    def text(self):
        return SStr((TEXT(self.tree.state(), self.e),))

    @text.setter
    def text(self, v):
        self.tree.change(Change(SETTEXT, self.e, to_z3(v)), self)

    @property
    def tail(self):
        return SStr((TAIL(self.tree.state(), self.e),))

    @tail.setter
    def tail(self, v):
        self.tree.change(Change(SETTAIL, self.e, to_z3(v)), self)

    def getprevious(self):
        t = self.tree
        if t.ctx.branch(FIRST(t.state(), self.e)):
            return None
        return t.kind.make(PREV(t.state(), self.e), self.mine)

    def remove(self, child):
        self.tree.change(Change(REMOVE, self.e, child.e), self)
