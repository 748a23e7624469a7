# -*- coding: utf-8 -*-
"""Uninterpreted string functions and the facts about them used in queries."""
import z3


def fn(L, name, *sorts):
    return z3.Function('str.' + name, *sorts)


def const(L, t):
    if t.num_args() == 0:
        return L.str_of.get(t.decl().name())
    return None


EVAL = {
    'lower': lambda s: s.lower(),
    'upper': lambda s: s.upper(),
    'strip': lambda s: s.strip(),
    'cat': lambda a, b: a + b,
    'endswith': lambda a, b: a.endswith(b),
    'startswith': lambda a, b: a.startswith(b),
    'contains': lambda a, b: b in a,
    'replace': lambda a, b, c: a.replace(b, c),
    'lt': lambda a, b: a < b,
}


def fact(L, n, t):
    op = n[4:]
    args = t.children()
    ev = EVAL.get(op)
    if ev is None:
        return None
    cs = [const(L, a) for a in args]
    if all(c is not None for c in cs):
        v = ev(*cs)
        if isinstance(v, bool):
            return t == z3.BoolVal(v)
        return t == L.string(v)

    def split(a):
        if a.num_args() == 2 and a.decl().name() == 'str.cat':
            return a.children()
        return None

    if op == 'endswith' and cs[1] is not None:
        p = split(args[0])
        if p is not None:
            c = const(L, p[1])
            if c is not None and c.endswith(cs[1]):
                return t
            if c is not None and len(c) >= len(cs[1]):
                return z3.Not(t)
    if op == 'cat':
        # injectivity in the first argument for a fixed constant suffix
        inv = z3.Function('str.!prefix_of_cat', L.Str, L.Str, L.Str)
        fs = [inv(t, args[1]) == args[0]]
        if cs[1] is not None and cs[1] != '':
            fs.append(t != args[0])
            ew = fn(L, 'endswith', L.Str, L.Str, z3.BoolSort())
            fs.append(ew(t, args[1]))
        return z3.And(*fs)
    if op == 'endswith' and cs[1] == '':
        return t
    return None
