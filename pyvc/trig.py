"""sin and cos of linear combinations of angles, by the addition theorems.  The float math.pi is read as pi."""
import math
from fractions import Fraction

import z3

from pyvc import core

SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
PI = Fraction(repr(math.pi))


def frac(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def linear(e, c=Fraction(1), out=None):
    """e as {atom: coefficient}; None for the constant"""
    if out is None:
        out = {}

    def put(k, v):
        out[k] = out.get(k, 0) + v
    if z3.is_rational_value(e) or z3.is_int_value(e):
        put(None, c * (frac(e) if z3.is_rational_value(e) else e.as_long()))
    elif z3.is_add(e):
        for x in e.children():
            linear(x, c, out)
    elif z3.is_sub(e):
        a = e.children()
        linear(a[0], c, out)
        for x in a[1:]:
            linear(x, -c, out)
    elif e.decl().kind() == z3.Z3_OP_UMINUS:
        linear(e.arg(0), -c, out)
    elif z3.is_mul(e):
        k, rest = Fraction(1), []
        for x in e.children():
            if z3.is_rational_value(x):
                k *= frac(x)
            else:
                rest.append(x)
        if not rest:
            put(None, c * k)
        elif len(rest) == 1:
            linear(rest[0], c * k, out)
        else:
            put(z3.simplify(z3.Product(*rest)), c * k)
    elif z3.is_div(e) and z3.is_rational_value(e.arg(1)):
        linear(e.arg(0), c / frac(e.arg(1)), out)
    elif z3.is_to_real(e) and not z3.is_const(e.arg(0)):
        put(e, c)
    else:
        put(e, c)
    return out


def sincos(ctx, e):
    """(sin e, cos e) as terms over the sines and cosines of the angles e is made of"""
    units = ctx.__dict__.setdefault("trig_units", {})
    parts = linear(z3.simplify(e))
    s, c = z3.RealVal(0), z3.RealVal(1)
    const = parts.pop(None, Fraction(0))
    q = const / (PI / 2)
    n = round(q)
    if abs(q - n) < Fraction(1, 10**9):
        s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][n % 4]
        s, c = z3.RealVal(s), z3.RealVal(c)
    else:
        v = z3.RealVal(str(const))
        s, c = base(ctx, v)
    for a in sorted(parts, key=lambda x: x.sexpr()):
        k = parts[a]
        if k == 0:
            continue
        u = units.setdefault(a.sexpr(), abs(k))
        m = k / u
        if m.denominator != 1 or abs(m) > 4:
            u, m = abs(k), Fraction(1 if k > 0 else -1)
        sa, ca = base(ctx, z3.simplify(z3.RealVal(str(u)) * a))
        if m < 0:
            sa, m = -sa, -m
        for _ in range(int(m)):
            s, c = s * ca + c * sa, c * ca - s * sa
    return z3.simplify(s), z3.simplify(c)


def base(ctx, e):
    s, c = SIN(e), COS(e)
    ctx.assume(s * s + c * c == 1)
    return s, c


def m_sin(I, x):
    if not is_sym(x):
        return I.native(math.sin, (x,), {})
    return core.mk(sincos(I.ctx, real(x))[0])


def m_cos(I, x):
    if not is_sym(x):
        return I.native(math.cos, (x,), {})
    return core.mk(sincos(I.ctx, real(x))[1])


def m_tan(I, x):
    if not is_sym(x):
        return I.native(math.tan, (x,), {})
    s, c = sincos(I.ctx, real(x))
    return core.mk(s) / core.mk(c)


def is_sym(x):
    return isinstance(x, core.Sym)


def real(v):
    e = core.to_z3(v)
    return z3.ToReal(e) if z3.is_int(e) else e
