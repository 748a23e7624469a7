# -*- coding: utf-8 -*-
"""Integers: remainders, ranges and integers spelled out in strings."""
import z3

from .engine import PyExc, Unsupported, SNum, SBool
from .logic import And, Or


def int_term(e):
    """The integer term of a real term built from integers, or None."""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_to_real(e):
        return e.arg(0)
    if z3.is_add(e) or z3.is_mul(e):
        parts = [int_term(c) for c in e.children()]
        if any(p is None for p in parts):
            return None
        r = parts[0]
        for p in parts[1:]:
            r = r + p if z3.is_add(e) else r * p
        return r
    return None


def atoms(x, y):
    """Compare integers as integers."""
    if 'ToReal' in (x.decl().name(), y.decl().name()) or z3.is_add(x) or z3.is_add(y) or z3.is_to_real(x) or z3.is_to_real(y):
        a = int_term(z3.simplify(x))
        b = int_term(z3.simplify(y)) if a is not None else None
        if b is not None:
            return z3.simplify(a), z3.simplify(b)
    return x, y


def as_int(I, v):
    e = z3.simplify(I.num(v))
    r = int_term(e)
    return z3.simplify(z3.ToInt(e) if r is None else r)


def divmod_(I, a, b):
    """Python's floor division and remainder."""
    x, n = as_int(I, a), as_int(I, b)
    if I.branch(z3.simplify(n == 0)):
        raise PyExc(ZeroDivisionError, ('integer division or modulo by zero',))
    if I.branch(z3.simplify(n > 0)):
        return z3.simplify(z3.ToReal(x / n)), z3.simplify(z3.ToReal(x % n))
    return z3.simplify(z3.ToReal((-x) / (-n))), z3.simplify(z3.ToReal(-((-x) % (-n))))


class RangeView:
    def __init__(self, I, args):
        if len(args) == 1:
            args = (0,) + tuple(args)
        if len(args) == 2:
            args = tuple(args) + (1,)
        if len(args) != 3:
            raise PyExc(TypeError, ('range expected at most 3 arguments',))
        for a in args:
            if not I.is_num(a) or not I.is_int(a):
                raise PyExc(TypeError, ('object cannot be interpreted as an integer',))
        if I.branch(z3.simplify(I.num(args[2]) == 0)):
            raise PyExc(ValueError, ('range() arg 3 must not be zero',))
        self.a, self.b, self.c = args

    def pyvc_contains(self, I, item):
        item = I.force(item)
        if not I.is_num(item):
            return False
        x, a, b, c = (I.num(v) for v in (item, self.a, self.b, self.c))
        hit = z3.simplify(int_term(divmod_(I, SNum(x - a, True), self.c)[1]) == 0)
        lt = lambda p, q: (lambda m, n: m < n)(*atoms(p, q))
        le = lambda p, q: (lambda m, n: m <= n)(*atoms(p, q))
        inside = z3.If(lt(z3.RealVal(0), c), And(le(a, x), lt(x, b)), And(lt(b, x), le(x, a)))
        return And(z3.simplify(inside), hit) if I.is_int(item) else And(z3.IsInt(x), z3.simplify(inside), hit)

    def pyvc_subst(self, I, pairs):
        r = RangeView.__new__(RangeView)
        r.a, r.b, r.c = (I.subst(v, pairs) for v in (self.a, self.b, self.c))
        return r


class Spelled:
    """Integers written in decimal, joined by ``sep``."""
    def __init__(self, sep, numbers):
        self.sep, self.numbers = sep, tuple(numbers)

    def pyvc_subst(self, I, pairs):
        return Spelled(self.sep, [I.subst(v, pairs) for v in self.numbers])

    def pyvc_truth(self, I):
        return True

    def string(self, I):
        from .models import opaque_string
        return opaque_string(I, 'format:%s' % (self.sep or ''), list(self.numbers))

    def pyvc_binop(self, I, op, other, swapped):
        import ast
        from .models import concat_strings
        if not isinstance(op, ast.Add):
            raise Unsupported('operator on a spelled number')
        other = other.string(I) if isinstance(other, Spelled) else other
        return concat_strings(I, [other, self.string(I)] if swapped else [self.string(I), other])

    def pyvc_contains(self, I, item):
        if isinstance(item, str) and item == self.sep:
            return len(self.numbers) > 1
        if isinstance(item, str) and len(item) == 1 and not item.isdigit() and item != '-':
            return False
        raise Unsupported('part of a spelled number')

    def pyvc_getattr(self, I, name):
        from .interp import Partial
        if name in ('split', 'strip', 'count'):
            return Partial(_Call(self, name), (), {})
        raise Unsupported('%s of a spelled number' % name)

    def pyvc_int(self, I):
        if len(self.numbers) == 1:
            return self.numbers[0]
        raise PyExc(ValueError, ('invalid literal for int()',))


class _Call:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def pyvc_call(self, I, args, kw):
        s = self.obj
        if self.name == 'strip' and not args:
            return s
        if self.name == 'split' and len(args) == 1 and args[0] == s.sep:
            from .engine import Elem
            return I.new_list([Elem(Spelled(s.sep, [n])) for n in s.numbers])
        if self.name == 'count' and len(args) == 1 and args[0] == s.sep:
            return len(s.numbers) - 1
        raise Unsupported('%s of a spelled number' % self.name)
