"""Joins of symbolic sequences of texts."""
from .core import SStr, Sym


class SJoin(Sym):
    """sep.join(seq): a part of a text whose items are only looked at one by one"""
    __slots__ = ("sep", "seq")

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq

    def __repr__(self):
        return "SJoin(%r)" % (self.sep,)


def join_seq(I, s, x):
    return SStr((SJoin(s, x),))
