# -*- coding: utf-8 -*-
"""Models of python built-ins and of the library functions the code uses."""
import ast
import copy
import builtins
import logging
import math
import operator
import types
import z3

from .engine import (Unsupported, PyExc, Infeasible, ABSENT, SNum, SBool, SStr, SOpq,
                     Ref, Family, Elem, Cond, For, Late, UNSPEC, Update)
from .logic import And, Or, Not, Ite, is_true, is_false, to_bool, real
from . import strings as S, ints

REG = {}            # id(callable) -> model
_KEEP = []


def model(*fns):
    def deco(f):
        for fn in fns:
            REG[id(fn)] = f
            _KEEP.append(fn)
        return f
    return deco


def lookup(fn):
    try:
        m = REG.get(id(fn))
    except Exception:
        return None
    if m is not None:
        return m
    if isinstance(fn, types.MethodType) and isinstance(fn.__self__, logging.Logger):
        return log_call
    if fn in (logging.debug, logging.info, logging.warning, logging.error):
        return log_call
    return None


def log_call(I, *a, **k):
    return None


PURE = {str, int, float, abs, round, len, tuple, frozenset, math.log, math.sqrt,
        math.exp, math.fabs, min, max, sorted, isinstance, issubclass, repr,
        bool, sum, type, getattr, hasattr, callable, ord, chr, range}


def is_pure(fn):
    try:
        return fn in PURE or getattr(fn, '__module__', None) in ('math', '_operator', 'datetime')
    except TypeError:
        return False


def is_concrete_iterable(v):
    return isinstance(v, (types.MappingProxyType,)) or type(v).__module__ == 'builtins'


# ------------------------------------------------------------------ equality
def eq(I, a, b):
    """z3 Bool / python bool of a == b."""
    a, b = I.force(a), I.force(b)
    if a is UNSPEC or b is UNSPEC:
        if not I.unspec_ok:
            raise Unspecified('comparison of a value its contract leaves unspecified')
        return True
    if a is b or I.same(a, b):
        return True
    if I.is_num(a) and I.is_num(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return z3.simplify(I.boo(a) == I.boo(b))
        x, y = ints.atoms(I.num(a), I.num(b))
        return z3.simplify(x == y)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return z3.simplify(I.str(a) == I.str(b))
    if isinstance(a, SOpq) and isinstance(b, SOpq):
        return a.e == b.e
    if isinstance(a, SOpq) or isinstance(b, SOpq):
        o, c = (a, b) if isinstance(a, SOpq) else (b, a)
        if isinstance(c, (SNum, SBool, SStr, Ref)):
            raise Unsupported('comparison of an opaque value')
        return o.e == const_opq(I, c)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = True
        for x, y in zip(a, b):
            out = I.conj(out, eq(I, x, y))
            if out is False:
                return False
        return out
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.kind != b.kind:
            if {a.kind, b.kind} == {'dict', 'map'}:
                raise Unsupported('comparison of dictionaries')
            return False
        if a.fam is b.fam and not I.args_eq(a.args, b.args) is None and is_true(I.args_eq(a.args, b.args)):
            return True
        if a.kind == 'dict':
            if same_list(I, a, b):
                return z3.simplify(to_bool(I.args_eq(a.args, b.args)))
            return dict_eq(I, a, b)
        if a.kind == 'list':
            return tree_eq(I, I.content(a), I.content(b))
        if a.kind == 'set':
            ta, tb = I.content(a), I.content(b)
            sub1 = Not(I.tree_any(ta, lambda v: Not(I.tree_any(tb, lambda w: to_bool(eq(I, v, w))))))
            sub2 = Not(I.tree_any(tb, lambda v: Not(I.tree_any(ta, lambda w: to_bool(eq(I, v, w))))))
            return And(sub1, sub2)
        raise Unsupported('comparison of %s' % a.kind)
    if isinstance(a, Ref) or isinstance(b, Ref):
        r, c = (a, b) if isinstance(a, Ref) else (b, a)
        if isinstance(c, (set, frozenset)) and r.kind == 'set':
            t = I.content(r)
            inc = Not(I.tree_any(t, lambda v: Not(Or([to_bool(eq(I, v, x)) for x in c]))))
            cov = And([I.tree_any(t, lambda v, x=x: to_bool(eq(I, v, x))) for x in c])
            return And(inc, cov)
        if isinstance(c, (list,)) and r.kind == 'list':
            return tree_eq(I, I.content(r), tuple(Elem(x) for x in c))
        if isinstance(c, dict) and not c and r.kind == 'dict':
            return Not(to_bool(dict_nonempty(I, r)))
        if isinstance(c, (int, float, str, bool, type(None), SNum, SBool, SStr, tuple)):
            return False
        raise Unsupported('comparison %r == %r' % (a, b))
    if hasattr(a, 'pyvc_eq'):
        return a.pyvc_eq(I, b)
    if hasattr(b, 'pyvc_eq'):
        return b.pyvc_eq(I, a)
    sa = isinstance(a, (SNum, SBool, SStr))
    sb = isinstance(b, (SNum, SBool, SStr))
    if sa or sb:
        return False            # different types
    return bool(a == b)


def const_opq(I, c):
    k = repr(c)
    if k not in I.L.opq:
        I.L.opq[k] = z3.Const('opq:%d' % len(I.L.opq), I.L.Val)
    return I.L.opq[k]


def eq_spec(I, av, bv):
    """Equality where UNSPEC matches anything."""
    return eq(I, av, bv)


def same_list(I, a, b):
    """Elements of one list of objects with a (still unchanged) unique field:
    equal only if identical."""
    from . import schema as S
    fam = a.fam
    if a.fam is not b.fam or fam.origin != 'base' or not isinstance(fam.schema, S.Dict):
        return False
    if len(a.args) != 1 or len(b.args) != 1 or isinstance(a.args[0], int) or isinstance(b.args[0], int):
        return False
    if not any(isinstance(f.schema, S.Str) and f.schema.unique and not f.optional and (fam.id, k) not in I.heap
               for k, f in fam.schema.fields.items()):
        return False
    x, y = a.args[0], b.args[0]
    pn = 'par:%s' % x.sort().name()
    if pn not in I.L.parents:
        return True
    par = z3.Function(pn, x.sort(), I.L.sorts[I.L.parents[pn]])
    return I.entailed(par(x) == par(y))


class Unspecified(Unsupported):
    pass


def dict_eq(I, a, b, ignore=()):
    pending = None
    keys = list(dict.fromkeys(I.keys_of(a.fam) + I.keys_of(b.fam)))
    out = []
    for k in keys:
        if k in ('*closed*',) or k in ignore:
            continue
        aa = I.field_alts(a, k)
        bb = I.field_alts(b, k)
        try:
            c = alts_eq(I, aa, bb)
        except Unspecified as e:
            pending = e
            continue
        if c is False:
            return False
        out.append(to_bool(c))
    if pending is not None:
        if I.entailed(Not(And(out))):
            return False
        raise pending
    ra, rb = rest(I, a), rest(I, b)
    if not ra.eq(rb):
        out.append(ra == rb)
    return z3.simplify(And(out))


def excl(alts):
    neg = z3.BoolVal(True)
    out = []
    for c, v in alts:
        cc = z3.simplify(And(neg, c))
        if not is_false(cc):
            out.append((cc, v))
        if is_true(c):
            break
        neg = And(neg, Not(c))
    return out


def alts_eq(I, aa, bb):
    aa, bb = excl(aa), excl(bb)
    res = []
    for c1, v1 in aa:
        for c2, v2 in bb:
            if v1 is ABSENT or v2 is ABSENT:
                e = v1 is v2
                if v1 is UNSPEC or v2 is UNSPEC:
                    if not I.unspec_ok:
                        raise Unspecified('comparison of a value its contract leaves unspecified')
                    e = True
            else:
                try:
                    e = eq(I, v1, v2)
                except Unsupported:
                    # alternatives which cannot occur together need no comparison
                    if I.L.check(I.pc + eqctx(I) + [c1, c2])[0] != 'unsat':
                        raise
                    continue
            if e is True:
                res.append(And(c1, c2))
            elif e is not False:
                res.append(And(c1, c2, e))
    return Or(res)


def eqctx(I):
    """Conditions under which the values being compared exist (innermost comparison last)."""
    if not hasattr(I, '_eqctx'):
        I._eqctx = []
    return I._eqctx


def rest(I, r):
    """Identity of the keys outside of the schema."""
    e = None
    for c, v in reversed(excl(I._rd_alts(I.heap, r.fam, '*rest*', r.args))):
        t = v.e if isinstance(v, SOpq) else const_opq(I, '*no other keys*')
        e = t if e is None else Ite(c, t, e)
    return e


def norm_tree(tree):
    """Drop empty nodes, merge nested conditions."""
    out = []
    for n in tree:
        if isinstance(n, Elem):
            out.append(n)
        elif isinstance(n, Cond):
            if is_false(n.c):
                continue
            kids = norm_tree(n.kids)
            if not kids:
                continue
            if is_true(n.c):
                out.extend(kids)
            elif len(kids) == 1 and isinstance(kids[0], Cond):
                out.append(Cond(And(n.c, kids[0].c), kids[0].kids))
            else:
                out.append(Cond(n.c, kids))
        else:
            kids = norm_tree(n.kids)
            if not kids or is_false(n.guard):
                continue
            out.append(For(n.x, n.guard, kids, n.ordf))
    return tuple(out)


def prune(I, tree):
    """Without the parts that are known to be empty here."""
    out = []
    for n in tree:
        if isinstance(n, Cond):
            if I.entailed(Not(n.c)):
                continue
            if I.entailed(n.c):
                out.extend(prune(I, n.kids))
                continue
        elif isinstance(n, For) and I.entailed(Not(I.nonempty((n,)))):
            continue
        out.append(n)
    return norm_tree(tuple(out))


def tree_eq(I, ta, tb):
    ta, tb = norm_tree(ta), norm_tree(tb)
    if not ta and not tb:
        return True
    if not ta or not tb:
        return Not(I.nonempty(ta or tb))
    if I.is_flat(ta) and I.is_flat(tb) and not (len(ta) == len(tb) and all(isinstance(n, Elem) for n in ta + tb)):
        return seq_eq(I, list(ta), list(tb))
    for a, b in ((ta, tb), (tb, ta)):
        if len(a) == 1 and isinstance(a[0], Elem):
            # equal to a list of exactly one element
            one = eq(I, _len(I, I.new_list(b)), 1)
            return And(to_bool(one), Not(I.tree_any(b, lambda v: Not(to_bool(eq(I, v, a[0].v))))))
    shape = lambda t: [type(n) for n in t]
    if shape(ta) != shape(tb):
        ta, tb = prune(I, ta), prune(I, tb)
        if not ta or not tb:
            return True if not ta and not tb else Not(I.nonempty(ta or tb))
    if shape(ta) != shape(tb):
        for a, b in ((ta, tb), (tb, ta)):
            # alternatives for the whole list
            if all(isinstance(n, Cond) for n in a) and all(
                    I.entailed(Not(And(m.c, n.c))) for i, m in enumerate(a) for n in a[:i]):
                return Or([And(n.c, to_bool(tree_eq(I, n.kids, b))) for n in a] +
                          [And([Not(n.c) for n in a] + [Not(I.nonempty(b))])])
        return expanded_eq(I, ta, tb)
    if len(ta) > 1 and any(isinstance(a, Cond) and not a.c.eq(b.c) and not I.entailed(a.c == b.c) for a, b in zip(ta, tb)):
        # alternatives may be in another order
        return expanded_eq(I, ta, tb)
    out = []
    try:
        for a, b in zip(ta, tb):
            out.append(to_bool(node_eq(I, a, b)))
    except Unsupported:
        if not any(isinstance(n, Cond) for n in ta + tb):
            raise
        return expanded_eq(I, ta, tb)
    return And(out)


def expand(nodes, limit=64):
    """Alternatives [(condition, nodes without conditions)] of a tree."""
    out = [(z3.BoolVal(True), [])]
    for n in nodes:
        if isinstance(n, Cond):
            new = []
            for c, l in out:
                new.append((And(c, Not(n.c)), l))
                for c2, l2 in expand(n.kids, limit):
                    new.append((And(c, n.c, c2), l + l2))
            out = [(c, l) for c, l in new if not is_false(z3.simplify(c))]
        else:
            out = [(c, l + [n]) for c, l in out]
        if len(out) > limit:
            raise Unsupported('list comparison too large')
    return out


def expanded_eq(I, ta, tb):
    """Equality of two trees of different shape: compare what they are under each combination of conditions."""
    ctx = I.pc + eqctx(I)
    live = lambda *cs: I.L.check(ctx + list(cs))[0] != 'unsat'
    ea, eb = [[(c, l) for c, l in expand(t) if live(c)] for t in (ta, tb)]
    bad = []
    for c1, l1 in ea:
        for c2, l2 in eb:
            if [type(n) for n in l1] == [type(n) for n in l2] and all(x is y for x, y in zip(l1, l2)):
                continue
            if not live(c1, c2):
                continue
            if [type(n) for n in l1] != [type(n) for n in l2]:
                if all(isinstance(n, Elem) for n in l1 + l2):
                    bad.append(And(c1, c2))
                    continue
                raise Unsupported('comparison of lists of different shape')
            cc = And(c1, c2)
            eqctx(I).append(cc)
            try:
                e = And([to_bool(node_eq(I, x, y)) for x, y in zip(l1, l2)])
            finally:
                eqctx(I).pop()
            bad.append(And(cc, Not(e)))
    return Not(Or(bad))


def seq_eq(I, a, b):
    """Equality of two conditional element sequences of bounded length."""
    def expand(nodes):
        out = [(z3.BoolVal(True), [])]
        for n in nodes:
            if isinstance(n, Elem):
                out = [(c, l + [n.v]) for c, l in out]
            else:
                sub = expand(n.kids)
                new = []
                for c, l in out:
                    new.append((And(c, Not(n.c)), l))
                    for c2, l2 in sub:
                        new.append((And(c, n.c, c2), l + l2))
                out = new
        return out
    res = []
    ea, eb = expand(a), expand(b)
    if len(ea) * len(eb) > 400:
        raise Unsupported('list comparison too large')
    for c1, l1 in ea:
        for c2, l2 in eb:
            if len(l1) != len(l2):
                continue
            e = And([to_bool(eq(I, x, y)) for x, y in zip(l1, l2)])
            res.append(And(c1, c2, e))
    return Or(res)


def node_eq(I, a, b):
    if isinstance(a, Elem) and isinstance(b, Elem):
        return eq(I, a.v, b.v)
    if isinstance(a, For) and isinstance(b, For) and a.x.sort() == b.x.sort():
        x = I.L.binder('e', a.x.sort())
        ga = z3.substitute(to_bool(a.guard), (a.x, x))
        gb = z3.substitute(to_bool(b.guard), (b.x, x))
        ka = [I.subst(k, [(a.x, x)]) for k in a.kids]
        kb = [I.subst(k, [(b.x, x)]) for k in b.kids]
        if a.ordf is not b.ordf:
            raise Unsupported('comparison of lists in different order')
        # alternatives: at most one element per index
        va, vb = flat_alts(ka), flat_alts(kb)
        if va is not None and vb is not None:
            pa = And(ga, Or([c for c, v in va]))
            pb = And(gb, Or([c for c, v in vb]))
            bad = [pa != pb]
            for c1, v1 in va:
                for c2, v2 in vb:
                    cc = z3.simplify(And(ga, gb, c1, c2))
                    if is_false(cc):
                        continue
                    eqctx(I).append(cc)
                    try:
                        e = eq(I, v1, v2)
                    finally:
                        eqctx(I).pop()
                    if e is True:
                        continue
                    bad.append(And(cc, Not(to_bool(e))))
            return Not(I.L.exists(x, Or(bad))[0])
        inner = tree_eq(I, ka, kb)
        return Not(I.L.exists(x, Or(ga != gb, And(ga, Not(to_bool(inner)))))[0])
    if isinstance(a, Cond) and isinstance(b, Cond):
        inner = tree_eq(I, a.kids, b.kids)
        return And(a.c == b.c, Or(Not(a.c), to_bool(inner)))
    raise Unsupported('comparison of lists of different structure')


def flat_alts(kids):
    """[(cond, value)] if the kids emit at most one element (exclusive conditions)."""
    out = []
    for k in kids:
        if isinstance(k, Elem):
            if len(kids) > 1:
                return None
            out.append((z3.BoolVal(True), k.v))
        elif isinstance(k, Cond):
            sub = flat_alts(k.kids)
            if sub is None:
                return None
            out.extend((And(k.c, c), v) for c, v in sub)
        else:
            return None
    if len(out) > 1:
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(out[i][0], out[j][0])
                if s.check() != z3.unsat:
                    return None
    return out


# -------------------------------------------------------------------- compare
def contains(I, item, coll):
    coll = I.force(coll)
    if isinstance(coll, Ref):
        computed_key(I, coll, item)
        if coll.kind == 'dict':
            return key_in_dict(I, coll, item)
        if coll.kind in ('list', 'set'):
            gh = I.ghosts_of(coll)
            if gh:
                return I.ghost_member(coll, gh, item)
            return I.tree_any(I.content(coll), lambda v: to_bool(eq(I, v, item)))
        if coll.kind == 'map':
            gh = I.ghosts_of(coll)
            if gh:
                return I.ghost_member(coll, gh, item)
            return I.tree_any(I.content(coll), lambda kv: to_bool(eq(I, kv[0], item)))
        if coll.kind == 'gen':
            return I.tree_any(I.iter_tree(coll), lambda v: to_bool(eq(I, v, item)))
    if isinstance(coll, (tuple, list, set, frozenset, dict)):
        if I.all_concrete([item]) and I.all_concrete(list(coll)):
            try:
                return item in coll
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        return Or([to_bool(eq(I, x, item)) for x in coll])
    if isinstance(coll, (str, SStr)) and isinstance(item, (str, SStr)):
        if isinstance(coll, str) and isinstance(item, str):
            return item in coll
        if isinstance(coll, SStr) and z3.is_app_of(coll.e, z3.Z3_OP_ITE):
            a, b = [to_bool(contains(I, item, unstr(I.L, coll.e.arg(i)))) for i in (1, 2)]
            return z3.simplify(z3.If(coll.e.arg(0), a, b))
        f = S.fn(I.L, 'contains', I.L.Str, I.L.Str, z3.BoolSort())
        return f(I.str(coll), I.str(item))
    if hasattr(coll, 'pyvc_contains'):
        return coll.pyvc_contains(I, item)
    if coll is None:
        raise PyExc(TypeError, ('argument of type NoneType is not iterable',))
    if I.all_concrete([item]):
        try:
            return item in coll
        except TypeError as e:
            raise PyExc(TypeError, e.args)
    raise Unsupported('membership test in %r' % (coll,))


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identical(I, a, b)
        return r if isinstance(op, ast.Is) else neg(r)
    if isinstance(op, ast.In):
        return contains(I, a, b)
    if isinstance(op, ast.NotIn):
        return neg(contains(I, a, b))
    if hasattr(a, 'pyvc_compare'):
        return a.pyvc_compare(I, op, b, False)
    if hasattr(b, 'pyvc_compare'):
        return b.pyvc_compare(I, op, a, True)
    if isinstance(op, ast.Eq):
        return eq(I, a, b)
    if isinstance(op, ast.NotEq):
        return neg(eq(I, a, b))
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
    if I.all_concrete([a, b]):
        try:
            return bool(f(a, b))
        except TypeError as e:
            raise PyExc(TypeError, e.args)
    if I.is_num(a) and I.is_num(b):
        return z3.simplify(f(*ints.atoms(I.num(a), I.num(b))))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        lt = S.fn(I.L, 'lt', I.L.Str, I.L.Str, z3.BoolSort())
        x, y = I.str(a), I.str(b)
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.LtE):
            return Or(lt(x, y), x == y)
        return Or(lt(y, x), x == y)
    if a is None or b is None or isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        raise PyExc(TypeError, ('unorderable',))
    if isinstance(a, tuple) and isinstance(b, tuple):
        raise Unsupported('tuple ordering')
    raise Unsupported('comparison %r %s %r' % (a, type(op).__name__, b))


def neg(r):
    return (not r) if isinstance(r, bool) else Not(r)


def identical(I, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.fam is not b.fam:
            return False
        r = I.args_eq(a.args, b.args)
        return True if is_true(r) else (False if is_false(r) else r)
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return eq(I, a, b)
    if isinstance(a, (SNum, SStr, SOpq, SBool)) or isinstance(b, (SNum, SStr, SOpq, SBool)):
        if type(a) is not type(b):
            return False
        raise Unsupported('identity of scalars')
    return a is b


# ------------------------------------------------------------------ arithmetic
def binop(I, op, a, b):
    if hasattr(a, 'pyvc_binop'):
        return a.pyvc_binop(I, op, b, False)
    if hasattr(b, 'pyvc_binop'):
        return b.pyvc_binop(I, op, a, True)
    if isinstance(op, ast.Add):
        if isinstance(a, Ref) and a.kind == 'list':
            if not (isinstance(b, Ref) and b.kind == 'list') and not isinstance(b, list):
                raise PyExc(TypeError, ('can only concatenate list',))
            return I.new_list(I.content(a) + I.iter_tree(b))
        if isinstance(a, list) and (isinstance(b, Ref) and b.kind == 'list'):
            return I.new_list(I.iter_tree(a) + I.content(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return concat_strings(I, [a, b])
    if isinstance(op, ast.Mod) and isinstance(a, str):
        if I.all_concrete([b]):
            try:
                return a % b
            except Exception as e:
                raise PyExc(type(e), e.args)
        return opaque_string(I, 'mod', [a] + (list(b) if isinstance(b, tuple) else [b]))
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and (is_set(a) and is_set(b)):
        if I.all_concrete([a, b]) and not isinstance(a, Ref) and not isinstance(b, Ref):
            return {ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Sub: operator.sub}[type(op)](a, b)
        return set_op(I, type(op), a, b)
    if isinstance(op, (ast.BitOr, ast.BitAnd)) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        f = Or if isinstance(op, ast.BitOr) else And
        return SBool(f(I.boo(a), I.boo(b)))
    if I.all_concrete([a, b]) and not isinstance(a, Ref):
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
             ast.Div: operator.truediv, ast.Pow: operator.pow, ast.Mod: operator.mod,
             ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(type(op))
        if f is None:
            raise Unsupported('operator')
        try:
            return f(a, b)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if I.is_num(a) and I.is_num(b):
        x, y = I.num(a), I.num(b)
        isint = I.is_int(a) and I.is_int(b)
        if isinstance(op, ast.Add):
            return SNum(z3.simplify(x + y), isint)
        if isinstance(op, ast.Sub):
            return SNum(z3.simplify(x - y), isint)
        if isinstance(op, ast.Mult):
            return SNum(z3.simplify(x * y), isint)
        if isinstance(op, ast.Div):
            if I.branch(z3.simplify(y == 0)):
                raise PyExc(ZeroDivisionError, ('division by zero',))
            return SNum(z3.simplify(x / y), False)
        if isinstance(op, ast.Pow):
            if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
                r = z3.RealVal(1)
                for _ in range(b):
                    r = r * x
                return SNum(z3.simplify(r), isint)
            if isinstance(b, float) and b == 0.5:
                return sqrt_(I, a)
        if isinstance(op, (ast.Mod, ast.FloorDiv)) and isint:
            from .ints import divmod_
            return SNum(divmod_(I, a, b)[isinstance(op, ast.Mod)], True)
        raise Unsupported('operator %s' % type(op).__name__)
    if a is None or b is None:
        raise PyExc(TypeError, ('unsupported operand type(s)',))
    raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))


def is_set(v):
    return isinstance(v, (set, frozenset)) or (isinstance(v, Ref) and v.kind == 'set')


def set_op(I, op, a, b):
    ta = I.content(a) if isinstance(a, Ref) else tuple(Elem(x) for x in a)
    tb = I.content(b) if isinstance(b, Ref) else tuple(Elem(x) for x in b)
    if op is ast.BitOr:
        return I.new_list(ta + tb, kind='set', name='set')
    inb = lambda v: I.tree_any(tb, lambda w: to_bool(eq(I, v, w)))
    if op is ast.BitAnd:
        return I.new_list(I.tree_filter(ta, inb), kind='set', name='set')
    return I.new_list(I.tree_filter(ta, lambda v: Not(inb(v))), kind='set', name='set')


# --------------------------------------------------------------------- strings
def concat_strings(I, parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    cat = S.fn(I.L, 'cat', I.L.Str, I.L.Str, I.L.Str)
    acc = None
    for p in parts:
        if isinstance(p, str) and p == '':
            continue
        e = I.str(p)
        acc = e if acc is None else cat(acc, e)
    return SStr(acc if acc is not None else I.L.string(''))


def opaque_string(I, tag, args):
    """An uninterpreted function of its arguments."""
    zs, sig = [], []
    for a in args:
        a = I.force(a) if not isinstance(a, (tuple,)) else a
        if isinstance(a, (SNum, SBool, SStr, SOpq)):
            zs.append(a.e)
            sig.append(str(a.e.sort()))
        elif isinstance(a, (str, int, float, bool, type(None))):
            sig.append(repr(a))
        else:
            # an arbitrary string
            return SStr(I.L.fresh('text', I.L.Str)) if not I.ctx else \
                SStr(z3.Function('text!%d' % next(I.L.counter), *[c.sort() for c in I.ctx], I.L.Str)(*I.ctx))
    name = 'fmt:%s(%s)' % (tag, ','.join(sig))
    if zs:
        return SStr(z3.Function(name, *[z.sort() for z in zs], I.L.Str)(*zs))
    return SStr(z3.Const(name, I.L.Str))


def format_value(I, v, spec):
    v = I.force(v)
    if hasattr(v, 'pyvc_int'):
        return v.string(I)
    if isinstance(v, (str, SStr)) and not spec:
        return v
    if isinstance(v, (int, float, bool, type(None))) and not spec:
        return str(v)
    if spec and v is None:
        raise PyExc(TypeError, ('unsupported format string passed to NoneType.__format__',))
    if spec and isinstance(v, (str, SStr)) and spec[-1] in 'gfed':
        raise PyExc(ValueError, ('Unknown format code',))
    return opaque_string(I, 'format:' + (spec or ''), [v])


def str_format(I, s, args, kw):
    import string
    parts = []
    auto = 0
    if isinstance(s, SStr):
        return opaque_string(I, 'format', [s] + list(args))
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            if auto >= len(args):
                raise PyExc(IndexError, ('format',))
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise PyExc(KeyError, (field,))
        parts.append(format_value(I, v, spec))
    return concat_strings(I, parts)


def unstr(L, e):
    c = S.const(L, e)
    return c if c is not None else SStr(e)


def str_method(I, s, name, args, kw):
    L = I.L
    if isinstance(s, str) and I.all_concrete(args) and I.all_concrete(kw.values()) and name not in ('join', 'format'):
        try:
            r = getattr(s, name)(*args, **kw)
        except Exception as e:
            raise PyExc(type(e), e.args)
        if isinstance(r, list):
            return I.new_list([Elem(x) for x in r])
        return r
    if name == 'format':
        return str_format(I, s, args, kw)
    if isinstance(s, SStr) and z3.is_app_of(s.e, z3.Z3_OP_ITE) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace'):
        a, b = [str_method(I, unstr(L, s.e.arg(i)), name, args, kw) for i in (1, 2)]
        r = I.merge_values([(s.e.arg(0), a), (z3.BoolVal(True), b)])
        if r is not None:
            return r[0]
    if name in ('lower', 'upper', 'strip') and not args:
        return SStr(S.fn(L, name, L.Str, L.Str)(I.str(s)))
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], (str, SStr)):
        return SBool(S.fn(L, name, L.Str, L.Str, z3.BoolSort())(I.str(s), I.str(args[0])))
    if name == 'replace' and len(args) == 2:
        t, a, b = I.str(s), I.str(args[0]), I.str(args[1])
        return SStr(z3.If(S.fn(L, 'contains', L.Str, L.Str, z3.BoolSort())(t, a),
                          S.fn(L, 'replace', L.Str, L.Str, L.Str, L.Str)(t, a, b), t))
    if name == 'join':
        if isinstance(I.force(args[0]), SortedView):
            return opaque_string(I, 'join', [s, SOpq(I.force(args[0]).term)])
        tree = I.iter_tree(args[0])
        if I.is_flat(tree) and sum(1 for n in tree if not isinstance(n, Elem)) <= 2:
            items = I.flatten_tree(tree)
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(s)
                if not isinstance(I.force(x), (str, SStr)):
                    raise PyExc(TypeError, ('sequence item',))
                parts.append(I.force(x))
            return concat_strings(I, parts)
        return opaque_string(I, 'join', [s, tree])
    if name == 'encode':
        return SOpq(z3.Function('str.encode', L.Str, L.Val)(I.str(s)))
    if name in ('split', 'rsplit', 'splitlines'):
        raise Unsupported('split of a symbolic string')
    raise Unsupported('str.%s' % name)


# ---------------------------------------------------------------- dictionaries
def computed_key(I, d, key):
    """A new, empty dictionary that is asked for a computed key is a map."""
    if isinstance(d, Ref) and d.kind == 'dict' and d.fam.origin == 'new':
        key = I.force(key)
        if isinstance(key, (SStr, SNum, tuple, Ref)) and not I.all_concrete([key]) \
                and not [k for k in I.keys_of(d.fam) if k != '*closed*']:
            to_map(I, d)


def key_in_dict(I, d, key):
    key = I.force(key)
    read_as_dict(d)
    if isinstance(key, str):
        return I.has(d, key)
    if isinstance(key, SStr):
        out = []
        for k in I.keys_of(d.fam):
            if isinstance(k, str) and not k.startswith('*'):
                out.append(And(key.e == I.L.string(k), I.has(d, k)))
        return Or(out)
    if isinstance(key, (int, float, bool, type(None), tuple)) and I.all_concrete([key]):
        return I.has(d, key)
    raise Unsupported('dictionary key %r' % (key,))


def dict_nonempty(I, d):
    read_as_dict(d)
    if d.fam.origin in ('base', 'copy') and not is_closed(I, d):
        for k, f in (root_schema(d).fields.items() if root_schema(d) else ()):
            if not f.optional and is_true(I.has(d, k)):
                return True
    cs = [I.has(d, k) for k in I.keys_of(d.fam) if k != '*closed*']
    r = z3.simplify(Or(cs))
    return True if is_true(r) else (False if is_false(r) else r)


def root_schema(d):
    f = d.fam
    while f.origin == 'copy':
        f = f.src['fam']
    return f.schema if f.origin == 'base' else None


def is_closed(I, d):
    return d.fam.origin == 'new'


def getitem(I, obj, key):
    if isinstance(obj, Ref):
        computed_key(I, obj, key)
        k = obj.kind
        if k == 'dict':
            read_as_dict(obj)
        if k == 'dict':
            if isinstance(key, SStr):
                for kk in I.keys_of(obj.fam):
                    if isinstance(kk, str) and not kk.startswith('*'):
                        if I.branch(key.e == I.L.string(kk)):
                            return I.getitem(obj, kk)
                raise PyExc(KeyError, (key,))
            return I.getitem(obj, key)
        if k == 'map':
            ok, v = I.find(I.content(obj), lambda kv: to_bool(eq(I, kv[0], key)), last=True)
            if not ok:
                raise PyExc(KeyError, (key,))
            return v[1]
        if k == 'list':
            return list_index(I, I.content(obj), key)
        if k == 'obj':
            f = getattr(obj.fam.cls, '__getitem__', None)
            if isinstance(f, types.FunctionType):
                return I._call(f, [obj, key], {})
    if hasattr(obj, 'pyvc_getitem'):
        return obj.pyvc_getitem(I, key)
    if isinstance(obj, dict):
        if I.all_concrete([key]):
            try:
                return obj[key]
            except (KeyError, TypeError) as e:
                raise PyExc(type(e), e.args)
        for kk in obj:
            if I.branch(to_bool(eq(I, kk, key))):
                return obj[kk]
        raise PyExc(KeyError, (key,))
    if isinstance(obj, (tuple, list, str)):
        if isinstance(key, slice) or isinstance(key, int):
            try:
                r = obj[key]
            except IndexError as e:
                raise PyExc(IndexError, e.args)
            return r
        if isinstance(key, SNum):
            n = len(obj)
            if n and I.branch(And(key.e >= 0, key.e < n)):
                return I.resolve([(key.e == i, obj[i]) for i in range(n)])
            if n and I.branch(And(key.e >= -n, key.e < 0)):
                return I.resolve([(key.e == i - n, obj[i]) for i in range(n)])
            raise PyExc(IndexError, ())
    if obj is None or isinstance(obj, (int, float, SNum, SBool)):
        raise PyExc(TypeError, ('object is not subscriptable',))
    if I.all_concrete([key]) and isinstance(obj, types.MappingProxyType):
        return obj[key]
    raise Unsupported('%r[%r]' % (obj, key))


def list_index(I, tree, key):
    if isinstance(key, slice):
        return I.new_list(tree_slice(I, tree, key))
    if isinstance(key, int):
        if I.is_flat(tree):
            items = I.flatten_tree(tree)
            try:
                return items[key]
            except IndexError as e:
                raise PyExc(IndexError, e.args)
        if key == 0 or key == -1:
            ok, v = I.find(tree, lambda v: z3.BoolVal(True), last=(key == -1))
            if not ok:
                raise PyExc(IndexError, ('list index out of range',))
            return v
        if key > 0:
            rest_ = tree_slice(I, tree, slice(1, None, None))
            return list_index(I, rest_, key - 1)
    raise Unsupported('list index %r' % (key,))


def split_at(I, tree, bound):
    """Node index at which a list splits after ``bound`` elements, if that is one."""
    if not I.is_num(bound):
        return None
    e = I.num(bound)
    for i in range(len(tree), -1, -1):
        n = I.tree_sum(tree[:i], lambda v: z3.RealVal(1))
        if z3.simplify(n - e).eq(z3.RealVal(0)):
            return i
    for i in range(len(tree), -1, -1):
        n = I.tree_sum(tree[:i], lambda v: z3.RealVal(1))
        if I.entailed(n == e) or I.L.check(I.pc + [n != e], tag='split')[0] == 'unsat':
            return i
    return None


def tree_slice(I, tree, key):
    if I.is_flat(tree):
        return tuple(Elem(v) for v in I.flatten_tree(tree)[key])
    if key.start == 1 and key.stop is None and key.step is None:
        out = list(tree)
        while out:
            n = out[0]
            if isinstance(n, Elem):
                return tuple(out[1:])
            if isinstance(n, Cond):
                if I.branch(n.c):
                    out = list(n.kids) + out[1:]
                else:
                    out = out[1:]
                continue
            n = I.freshen(n)
            some = I.nonempty(n.kids)
            if flat_alts(n.kids) is None:
                raise Unsupported('slice of a nested list')
            ex, w, wl = I.L.exists(n.x, And(n.guard, some), n.ordf)
            if I.branch(ex):
                ordf = I.L.order(n.x.sort(), n.ordf)
                return (For(n.x, And(n.guard, ordf(w) < ordf(n.x)), n.kids, n.ordf),) + tuple(out[1:])
            out = out[1:]
        return ()
    if key.start in (None, 0) and key.stop is None and key.step is None:
        return tree
    if key.step is None:
        lo = 0 if key.start in (None, 0) else split_at(I, tree, key.start)
        hi = len(tree) if key.stop is None else split_at(I, tree, key.stop)
        if lo is not None and hi is not None:
            return tuple(tree[lo:hi])
    raise Unsupported('slice of an unbounded list')


def setitem(I, obj, key, v):
    if isinstance(obj, Ref):
        if obj.kind == 'dict':
            if isinstance(key, SStr):
                names = [k for k in I.keys_of(obj.fam) if isinstance(k, str) and not k.startswith('*')]
                if not names and obj.fam.origin == 'new':
                    to_map(I, obj)
                    I.append_nodes(obj, (Elem((key, v)),))
                    return
                for kk in names:
                    if I.branch(key.e == I.L.string(kk)):
                        I.write(obj, kk, v)
                        return
                raise Unsupported('assignment to a computed key')
            if isinstance(key, (SNum, tuple, Ref)) and not I.all_concrete([key]):
                if not [k for k in I.keys_of(obj.fam) if k != '*closed*'] and obj.fam.origin == 'new':
                    to_map(I, obj)
                    I.append_nodes(obj, (Elem((key, v)),))
                    return
                raise Unsupported('assignment to a computed key')
            I.write(obj, key, v)
            return
        if obj.kind == 'map':
            I.append_nodes(obj, (Elem((key, v)),))
            return
        if obj.kind == 'list' and isinstance(key, int):
            tree = I.content(obj)
            if I.is_flat(tree):
                items = I.flatten_tree(tree)
                try:
                    items[key] = v
                except IndexError as e:
                    raise PyExc(IndexError, e.args)
                I.set_content(obj, [Elem(x) for x in items])
                return
        if obj.kind == 'obj':
            f = getattr(obj.fam.cls, '__setitem__', None)
            if isinstance(f, types.FunctionType):
                I._call(f, [obj, key, v], {})
                return
    if hasattr(obj, 'pyvc_setitem'):
        return obj.pyvc_setitem(I, key, v)
    raise Unsupported('item assignment on %r' % (obj,))


def to_map(I, ref):
    """An empty dict literal that receives computed keys becomes a map.  What was read
    from it as a dictionary with known keys, maybe by an earlier path through the same
    loop, did not take part in the dependences between iterations."""
    if getattr(ref.fam, 'dict_reads', False):
        raise Unsupported('dictionary with computed keys read before its first computed key')
    ref.fam.kind = 'map'


def all_keys_known(I, d):
    if not rest(I, d).eq(const_opq(I, '*no other keys*')):
        raise Unsupported('iteration over a dictionary with unknown keys')


def read_as_dict(d):
    if d.fam.origin == 'new':
        d.fam.dict_reads = True


def delitem(I, obj, key):
    if isinstance(obj, Ref) and obj.kind == 'dict':
        if not isinstance(key, str):
            raise Unsupported('del with a computed key')
        if not I.branch(I.has(obj, key)):
            raise PyExc(KeyError, (key,))
        I.write(obj, key, ABSENT)
        return
    if isinstance(obj, Ref) and obj.kind == 'map':
        tree = I.content(obj)
        present = I.tree_any(tree, lambda kv: to_bool(eq(I, kv[0], key)))
        if not I.branch(present):
            raise PyExc(KeyError, (key,))
        I.set_content(obj, I.tree_filter(tree, lambda kv: Not(to_bool(eq(I, kv[0], key)))))
        return
    raise Unsupported('del item')


def concrete_items(I, d):
    d = I.force(d)
    if isinstance(d, dict):
        return list(d.items())
    if isinstance(d, Ref) and d.kind == 'dict':
        read_as_dict(d)
        all_keys_known(I, d)
        out = []
        for k in I.keys_of(d.fam):
            if k == '*closed*':
                continue
            if I.branch(I.has(d, k)):
                out.append((k, I.value_of(d, k)))
        return out
    if isinstance(d, Ref) and d.kind == 'map':
        return [(k, v) for k, v in I.flatten_tree(I.content(d))]
    raise Unsupported('items of %r' % (d,))


def dict_keys_tree(I, d):
    read_as_dict(d)
    all_keys_known(I, d)
    out = []
    for k in I.keys_of(d.fam):
        if k == '*closed*':
            continue
        c = I.has(d, k)
        if is_true(c):
            out.append(Elem(k))
        elif not is_false(c):
            out.append(Cond(c, (Elem(k),)))
    return tuple(out)


def map_keys_tree(I, m):
    return tuple(distinct(I, I.tree_map(I.content(m), lambda kv: kv[0])))


def map_items_tree(I, m):
    """(key, last value) per distinct key, in order of first insertion."""
    tree = I.content(m)
    if I.is_flat(tree):
        items = I.flatten_tree(tree)
        out = []
        for k, v in items:
            for i, (k2, v2) in enumerate(out):
                if I.branch(to_bool(eq(I, k, k2))):
                    out[i] = (k2, v)
                    break
            else:
                out.append((k, v))
        return tuple(Elem(kv) for kv in out)
    def last_value(nodes, k):
        """Value of the last pair with key k, which is known to exist."""
        alts = []
        for n in reversed(list(nodes)):
            if isinstance(n, Elem):
                c, v = to_bool(eq(I, n.v[0], k)), n.v[1]
            elif isinstance(n, Cond):
                c = And(n.c, I.tree_any(n.kids, lambda kv: to_bool(eq(I, kv[0], k))))
                if is_false(z3.simplify(to_bool(c))):
                    continue
                v = last_value(n.kids, k)
            else:
                f = I.freshen(n)
                ex, w, wl = I.L.exists(f.x, And(f.guard, I.tree_any(f.kids, lambda kv: to_bool(eq(I, kv[0], k)))), f.ordf)
                if wl is None:
                    continue
                c, v = ex, last_value([I.subst(q, [(f.x, wl)]) for q in f.kids], k)
            if is_false(z3.simplify(to_bool(c))):
                continue
            alts.append((to_bool(c), v))
        if not alts:
            return None
        if len(alts) == 1:
            return alts[0][1]
        r = I.merge_values(alts)
        if r is None:
            raise Unsupported('items of a map with alternatives')
        return r[0]

    return distinct(I, tree, key=lambda kv: kv[0], emit=lambda kv: (kv[0], last_value(tree, kv[0])))


def map_from_pairs(I, tree):
    if I.is_flat(tree):
        def allconst(nodes):
            for n in nodes:
                if isinstance(n, Elem):
                    if not isinstance(n.v[0], str):
                        return False
                elif not allconst(n.kids):
                    return False
            return True
        if allconst(tree):
            r = I.new_ref('dict', 'dict')
            I.note_key(r.fam, '*closed*')
            for kv in I.flatten_tree(tree):
                I.write(r, kv[0], kv[1])
            return r
    return I.new_list(tree, kind='map', name='map')


def dict_update(I, d, other):
    other = I.force(other)
    if isinstance(other, Ref) and other.kind == 'dict' and d.kind == 'dict':
        for k in I.keys_of(other.fam):
            if k == '*closed*':
                continue
            alts = excl(I.field_alts(other, k))
            old = I.field_alts(d, k)
            new = []
            for c, v in alts:
                if v is ABSENT:
                    for c2, v2 in excl(old):
                        new.append((z3.simplify(And(c, c2)), v2))
                else:
                    new.append((c, v))
            new = [(c, v) for c, v in new if not is_false(c)]
            vals = [v for c, v in new]
            if all(v is ABSENT for v in vals):
                continue
            key = (d.fam.id, k)
            h = dict(I.heap)
            h[key] = h.get(key, ()) + (Update('set', (), d.args, tuple(new)),)
            I.heap = h
            I.note_key(d.fam, k)
        ro = rest(I, other)
        if not ro.eq(const_opq(I, '*no other keys*')):
            raise Unsupported('update from a dictionary with unknown keys')
        return
    if isinstance(other, dict) and d.kind == 'dict':
        for k, v in other.items():
            I.write(d, k, v)
        return
    if isinstance(other, Ref) and other.kind == 'map':
        tree = I.content(other)
        if d.kind == 'map':
            I.append_nodes(d, tree)
            return
        for k, v in I.flatten_tree(tree):
            setitem(I, d, k, v)
        return
    raise Unsupported('dict.update(%r)' % (other,))


def plain_values(tree):
    out = []
    for n in tree:
        if isinstance(n, Elem):
            out.append(n.v)
        elif isinstance(n, Cond):
            out.extend(plain_values(n.kids))
        else:
            return None
    return out


def distinct(I, tree, key=lambda v: v, emit=lambda v: v):
    """First occurrences only."""
    if I.is_flat(tree):
        plain = plain_values(tree)
        if plain is not None and all(I.all_concrete([v]) for v in plain):
            try:
                if len(set(plain)) == len(plain):
                    return tuple(tree)
            except TypeError:
                pass
        out = []
        for v in I.flatten_tree(tree):
            if I.all_concrete([v]) and any(I.all_concrete([o]) and type(o) is type(v) and o == v for o in out):
                continue
            dup = Or([to_bool(eq(I, v, o)) for o in out]) if out else False
            if dup is False or not I.branch(dup):
                out.append(v)
        return tuple(Elem(v) for v in out)

    def go(nodes, before):
        out, prev = [], []
        for n in nodes:
            def seen(v, before=before, prev=tuple(prev)):
                return Or([to_bool(b(v)) for b in before]
                          + [I.tree_any(prev, lambda w: to_bool(eq(I, key(v), key(w))))])
            if isinstance(n, Elem):
                c = z3.simplify(to_bool(Not(seen(n.v))))
                if not is_false(c):
                    e = Elem(emit(n.v))
                    out.append(e if is_true(c) else Cond(c, (e,)))
            elif isinstance(n, Cond):
                out.append(Cond(n.c, go(n.kids, before + [seen])))
            else:
                f = I.freshen(n)
                m = I.freshen(n)
                ordf = I.L.order(f.x.sort(), f.ordf)

                def earlier(v, f=f, m=m, ordf=ordf):
                    e = And(m.guard, ordf(m.x) < ordf(f.x), I.tree_any(m.kids, lambda w: to_bool(eq(I, key(v), key(w)))))
                    return I.L.exists(m.x, e, f.ordf)[0]
                out.append(For(f.x, f.guard, go(f.kids, before + [seen, earlier]), f.ordf))
            prev.append(n)
        return tuple(out)
    return go(tree, [])


# ------------------------------------------------------------------- methods
def method(I, obj, name, args, kw):
    obj = I.force(obj)
    args = [I.force(a) if isinstance(a, Late) else a for a in args]
    if isinstance(obj, Ref):
        if name in ('get', 'pop', 'setdefault') and args:
            computed_key(I, obj, args[0])
        k = obj.kind
        if k == 'dict':
            if name not in ('update', 'clear'):
                read_as_dict(obj)
            return dict_method(I, obj, name, args, kw)
        if k == 'map':
            return map_method(I, obj, name, args, kw)
        if k == 'list':
            return list_method(I, obj, name, args, kw)
        if k == 'set':
            return set_method(I, obj, name, args, kw)
    if isinstance(obj, (str, SStr)):
        return str_method(I, obj, name, args, kw)
    if isinstance(obj, (set, frozenset)):
        if I.all_concrete(args) and not any(isinstance(a, Ref) for a in args) and name in (
                'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'copy'):
            return getattr(obj, name)(*args)
        r = I.new_list([Elem(x) for x in obj], kind='set', name='set')
        return set_method(I, r, name, args, kw)
    if isinstance(obj, dict):
        if name == 'get':
            key = args[0]
            dflt = args[1] if len(args) > 1 else kw.get('default')
            if I.all_concrete([key]):
                return obj.get(key, dflt)
            for kk in obj:
                if I.branch(to_bool(eq(I, kk, key))):
                    return obj[kk]
            return dflt
        if name == 'items':
            return [tuple(kv) for kv in obj.items()]
        if name == 'keys':
            return list(obj.keys())
        if name == 'values':
            return list(obj.values())
        if name == 'copy':
            r = I.new_ref('dict', 'dict')
            I.note_key(r.fam, '*closed*')
            for kk, vv in obj.items():
                I.write(r, kk, vv)
            return r
    if isinstance(obj, (list, tuple)):
        if I.all_concrete(args) and name in ('index', 'count'):
            try:
                return getattr(obj, name)(*args)
            except ValueError as e:
                raise PyExc(ValueError, e.args)
        if name == 'count' or name == 'index':
            pass
    raise Unsupported('method %s of %r' % (name, obj))


def dict_method(I, d, name, args, kw):
    if name == 'get':
        key = args[0]
        dflt = args[1] if len(args) > 1 else None
        key = I.force(key)
        if isinstance(key, SStr):
            for kk in I.keys_of(d.fam):
                if isinstance(kk, str) and not kk.startswith('*'):
                    if I.branch(And(key.e == I.L.string(kk), I.has(d, kk))):
                        return I.value_of(d, kk)
            return dflt
        if not I.all_concrete([key]):
            raise Unsupported('dict.get key')
        alts = excl(I.field_alts(d, key))
        alts = [(c, dflt if v is ABSENT else v) for c, v in alts]
        return I.resolve(alts)
    if name == 'items':
        return I.new_list(tuple(cond_map(I, dict_keys_tree(I, d), lambda k: (k, I.value_of(d, k)))))
    if name == 'keys':
        return I.new_list(dict_keys_tree(I, d))
    if name == 'values':
        return I.new_list(tuple(cond_map(I, dict_keys_tree(I, d), lambda k: I.value_of(d, k))))
    if name == 'update':
        for a in args:
            dict_update(I, d, a)
        for k, v in kw.items():
            I.write(d, k, v)
        return None
    if name == 'pop':
        key = args[0]
        if I.branch(I.has(d, key)):
            v = I.value_of(d, key)
            I.write(d, key, ABSENT)
            return v
        if len(args) > 1:
            return args[1]
        raise PyExc(KeyError, (key,))
    if name == 'setdefault':
        key = args[0]
        if I.branch(I.has(d, key)):
            return I.value_of(d, key)
        I.write(d, key, args[1] if len(args) > 1 else None)
        return args[1] if len(args) > 1 else None
    if name == 'copy':
        return shallow_copy(I, d)
    raise Unsupported('dict.%s' % name)


def cond_map(I, tree, f):
    """Map with forks on presence (tree without For)."""
    out = []
    for n in tree:
        if isinstance(n, Elem):
            out.append(Elem(f(n.v)))
        else:
            if I.branch(n.c):
                out.extend(cond_map(I, n.kids, f))
    return out


def shallow_copy(I, d):
    r = I.new_ref('dict', 'dict')
    I.note_key(r.fam, '*closed*')
    for k in I.keys_of(d.fam) + ['*rest*']:
        if k == '*closed*':
            continue
        if k == '*rest*':
            alts = [(z3.BoolVal(True), SOpq(rest(I, d)))]
        else:
            alts = excl(I.field_alts(d, k))
        h = dict(I.heap)
        h[(r.fam.id, k)] = (Update('set', (), r.args, tuple(alts)),)
        I.heap = h
        I.note_key(r.fam, k)
    return r


def map_method(I, m, name, args, kw):
    if name == 'get':
        ok, v = I.find(I.content(m), lambda kv: to_bool(eq(I, kv[0], args[0])), last=True)
        return v[1] if ok else (args[1] if len(args) > 1 else None)
    if name == 'items':
        return I.new_list(map_items_tree(I, m))
    if name == 'values':
        return I.new_list(I.tree_map(map_items_tree(I, m), lambda kv: kv[1]))
    if name == 'keys':
        return I.new_list(map_keys_tree(I, m))
    if name == 'update':
        dict_update(I, m, args[0])
        return None
    raise Unsupported('map.%s' % name)


def list_method(I, l, name, args, kw):
    if name == 'append':
        I.append_nodes(l, (Elem(args[0]),))
        return None
    if name == 'extend':
        I.append_nodes(l, I.iter_tree(args[0]))
        return None
    if name == 'remove':
        tree = I.content(l)
        item = args[0]
        if I.is_flat(tree):
            items = I.flatten_tree(tree)
            for i, v in enumerate(items):
                if I.branch(to_bool(eq(I, v, item))):
                    I.set_content(l, [Elem(x) for x in items[:i] + items[i + 1:]])
                    return None
            raise PyExc(ValueError, ('list.remove(x): x not in list',))
        raise Unsupported('list.remove on an unbounded list')
    if name == 'sort':
        key = kw.get('key')
        rev = kw.get('reverse', False)
        tree = sort_tree(I, I.content(l), key, rev)
        I.set_content(l, tree)
        return None
    if name == 'copy':
        return I.new_list(I.content(l))
    if name == 'insert' and isinstance(args[0], int):
        tree = I.content(l)
        if args[0] == 0:
            I.set_content(l, (Elem(args[1]),) + tuple(tree))
            return None
        if I.is_flat(tree):
            items = I.flatten_tree(tree)
            items.insert(args[0], args[1])
            I.set_content(l, [Elem(x) for x in items])
            return None
    if name == 'pop':
        tree = I.content(l)
        if I.is_flat(tree):
            items = I.flatten_tree(tree)
            try:
                v = items.pop(*args)
            except IndexError as e:
                raise PyExc(IndexError, e.args)
            I.set_content(l, [Elem(x) for x in items])
            return v
    if name == 'count':
        return SNum(I.tree_sum(I.tree_filter(I.content(l), lambda v: to_bool(eq(I, v, args[0]))),
                               lambda v: z3.RealVal(1)), True)
    if name == 'reverse':
        tree = I.content(l)
        if I.is_flat(tree):
            I.set_content(l, [Elem(x) for x in reversed(I.flatten_tree(tree))])
            return None
    if name == 'index':
        tree = I.content(l)
        if I.is_flat(tree):
            for i, v in enumerate(I.flatten_tree(tree)):
                if I.branch(to_bool(eq(I, v, args[0]))):
                    return i
            raise PyExc(ValueError, ('not in list',))
    raise Unsupported('list.%s' % name)


def set_method(I, s, name, args, kw):
    if name == 'add':
        I.append_nodes(s, (Elem(args[0]),))
        return None
    if name == 'update':
        for a in args:
            I.append_nodes(s, I.content(a) if isinstance(a, Ref) and a.kind == 'set' else I.iter_tree(a))
        return None
    if name in ('union', 'intersection', 'difference'):
        op = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub}[name]
        r = s
        for a in args:
            b = a if is_set(a) else I.new_list(I.iter_tree(a), kind='set')
            r = set_op(I, op, r, b)
        return r
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        # membership does not depend on how often an element occurs
        b = args[0]
        b = I.content(b) if isinstance(b, Ref) and b.kind == 'set' else I.iter_tree(b)
        a = I.content(s)
        if name == 'issuperset':
            a, b = b, a
        if name == 'isdisjoint':
            return SBool(Not(I.tree_any(a, lambda v: I.tree_any(b, lambda w: to_bool(eq(I, v, w))))))
        return SBool(Not(I.tree_any(a, lambda v: Not(I.tree_any(b, lambda w: to_bool(eq(I, v, w)))))))
    if name == 'copy':
        return I.new_list(I.content(s), kind='set')
    raise Unsupported('set.%s' % name)


def sort_tree(I, tree, key, rev):
    keyf = (lambda v: v) if key is None else (lambda v: I.force(I.call(key, [v])))
    if I.is_flat(tree):
        items = I.flatten_tree(tree)
        out = []          # insertion sort, stable
        for v in items:
            kv = keyf(v)
            pos = len(out)
            while pos > 0:
                lt = compare(I, ast.Lt(), kv, out[pos - 1][0]) if not rev else compare(I, ast.Gt(), kv, out[pos - 1][0])
                if I.branch(lt):
                    pos -= 1
                else:
                    break
            out.insert(pos, (kv, v))
        return tuple(Elem(v) for _, v in out)
    if len(tree) == 1 and isinstance(tree[0], For):
        n = I.freshen(tree[0])
        va = flat_alts(n.kids)
        if va is not None and len(va) == 1:
            c, v = va[0]
            kp = I.explore(lambda: keyf(I_assume(I, And(n.guard, c), v)))
            alts = [(And(p.cond), p.val) for p in kp if p.kind == 'ok']
            if any(p.kind != 'ok' for p in kp) or not alts:
                raise Unsupported('sort key may fail')
            m = I.merge_values(alts)
            first = m is not None and isinstance(m[0], tuple) and m[0] and I.is_num(I.force(m[0][0]))
            if first:
                m = (I.force(m[0][0]),)     # ties: in any order
            if m is not None and I.is_num(m[0]):
                ke = I.num(m[0])
                cx = z3.Const('cx:' + n.x.sort().name(), n.x.sort())
                cke = z3.simplify(z3.substitute(ke, (n.x, cx)))
                ps = I.L.free_consts(cke)
                nm = 'srank:%d:%s:%d%s' % (cke.get_id(), n.x.sort().name(), int(bool(rev)), 't' if first else '')
                I.L._keep.append(cke)
                if ps:
                    raise Unsupported('sort key depends on an outer element')
                f = z3.Function(nm, n.x.sort(), z3.IntSort())
                I.L.order_axioms[nm] = (lambda t: z3.substitute(cke, (cx, t)), bool(rev), None if first else I.L.order(n.x.sort(), n.ordf))
                return (For(n.x, n.guard, n.kids, f),)
    raise Unsupported('sorting an unbounded list')


def I_assume(I, c, v):
    I.assume(c)
    return v


def context_manager(I, cm):
    if hasattr(cm, 'pyvc_cm'):
        return cm.pyvc_cm(I)
    raise Unsupported('context manager %r' % (cm,))


def attr(I, obj, name):
    return None


def setattr_model(I, obj, name, v):
    return False


def decorate(I, dec, fv):
    raise Unsupported('decorator in function')


# ------------------------------------------------------------------- builtins
@model(len)
def _len(I, v):
    v = I.force(v)
    if isinstance(v, Ref):
        if v.kind in ('list', 'gen'):
            tree = I.content(v)
        elif v.kind == 'set':
            tree = distinct(I, I.content(v))
        elif v.kind == 'map':
            tree = map_keys_tree(I, v)
        elif v.kind == 'dict':
            tree = dict_keys_tree(I, v)
        elif v.kind == 'obj':
            f = getattr(v.fam.cls, '__len__', None)
            return I._call(f, [v], {})
        if all(isinstance(n, Elem) for n in tree):
            return len(tree)
        return SNum(z3.simplify(I.tree_sum(tree, lambda v: z3.RealVal(1))), True)
    if hasattr(v, 'pyvc_len'):
        return v.pyvc_len(I)
    if isinstance(v, (SStr,)):
        return SNum(z3.Function('str.len', I.L.Str, z3.RealSort())(v.e), True)
    if isinstance(v, SNum) or v is None:
        raise PyExc(TypeError, ('object has no len()',))
    return len(v)


@model(any)
def _any(I, it):
    tree = I.iter_tree(it)
    r = z3.simplify(I.tree_any(tree, lambda v: to_bool(I.truth(v))))
    return True if is_true(r) else (False if is_false(r) else SBool(r))


@model(all)
def _all(I, it):
    tree = I.iter_tree(it)
    r = z3.simplify(Not(I.tree_any(tree, lambda v: Not(to_bool(I.truth(v))))))
    return True if is_true(r) else (False if is_false(r) else SBool(r))


@model(sum)
def _sum(I, it, start=0):
    tree = I.iter_tree(it)
    if all(isinstance(n, Elem) and I.all_concrete([n.v]) for n in tree) and I.all_concrete([start]):
        return sum([n.v for n in tree], start)

    def val(v):
        v = I.force(v)
        if v is None or isinstance(v, (str, SStr)):
            raise PyExc(TypeError, ('unsupported operand',))
        return I.num(v)
    if isinstance(start, (Ref, list)):
        raise Unsupported('sum of lists')
    ints = all_int(I, tree)
    return SNum(z3.simplify(I.num(start) + I.tree_sum(tree, val)), ints)


def all_int(I, tree):
    for n in tree:
        if isinstance(n, Elem):
            if not I.is_int(n.v):
                return False
        elif not all_int(I, n.kids):
            return False
    return True


@model(list)
def _list(I, it=()):
    if type(it).__name__ == 'RangeView':
        return it
    return I.new_list(I.iter_tree(it))


@model(tuple)
def _tuple(I, it=()):
    it = I.force(it)
    if isinstance(it, tuple):
        return it
    if isinstance(it, SortedView):
        return SortedView(I, it.tree, 'tuple')
    tree = I.iter_tree(it)
    if I.is_flat(tree):
        return tuple(I.flatten_tree(tree))
    return SymTuple(tree)


class SymTuple:
    """Immutable sequence of unbounded length (supports equality and hashing)."""
    def __init__(self, tree):
        self.tree = tuple(tree)

    def pyvc_subst(self, I, pairs):
        return SymTuple([I.subst(n, pairs) for n in self.tree])

    def pyvc_mentions(self, I, c):
        return any(I.mentions(n, c) for n in self.tree)

    def pyvc_tree(self, I):
        return self.tree

    def pyvc_eq(self, I, other):
        if isinstance(other, SymTuple):
            return tree_eq(I, self.tree, other.tree)
        if isinstance(other, tuple):
            return tree_eq(I, self.tree, tuple(Elem(v) for v in other))
        return False

    def pyvc_getitem(self, I, key):
        return list_index(I, self.tree, key)

    def pyvc_len(self, I):
        return SNum(z3.simplify(I.tree_sum(self.tree, lambda v: z3.RealVal(1))), True)

    def pyvc_truth(self, I):
        return I.nonempty(self.tree)


@model(set, frozenset)
def _set(I, it=()):
    it = I.force(it)
    if isinstance(it, tuple) and not it:
        return I.new_list(kind='set', name='set')
    tree = I.iter_tree(it)
    return I.new_list(tree, kind='set', name='set')


@model(dict)
def _dict(I, it=None, **kw):
    r = None
    if it is None:
        r = I.new_ref('dict', 'dict')
        I.note_key(r.fam, '*closed*')
    else:
        it = I.force(it)
        if isinstance(it, Ref) and it.kind == 'map':
            r = I.new_list(I.content(it), kind='map', name='map')
        elif isinstance(it, Ref) and it.kind == 'dict':
            r = shallow_copy(I, it)
        elif isinstance(it, GroupBy):
            r = it
        elif isinstance(it, dict):
            r = I.new_ref('dict', 'dict')
            I.note_key(r.fam, '*closed*')
            dict_update(I, r, it)
        else:
            tree = I.iter_tree(it)
            r = map_from_pairs(I, I.tree_map(tree, lambda v: tuple(I.unpack(v, 2))))
    for k, v in kw.items():
        setitem(I, r, k, v)
    return r


@model(bool)
def _bool(I, v=False):
    t = I.truth(v)
    return t if isinstance(t, bool) else SBool(z3.simplify(t))


@model(abs, math.fabs)
def _abs(I, v):
    v = I.force(v)
    if isinstance(v, SNum):
        return SNum(z3.simplify(z3.If(v.e >= 0, v.e, -v.e)), v.isint)
    if v is None or isinstance(v, (str, SStr)):
        raise PyExc(TypeError, ('bad operand type for abs()',))
    return abs(v)


def _extreme(I, args, kw, ismax):
    if len(args) == 1:
        tree = I.iter_tree(args[0])
        if not I.is_flat(tree):
            # a fresh bound attained by some element
            key = kw.get('key')
            if key is not None:
                raise Unsupported('max with key over an unbounded list')
            if not I.branch(I.nonempty(tree)):
                if 'default' in kw:
                    return kw['default']
                raise PyExc(ValueError, ('empty sequence',))
            if len(tree) == 1 and isinstance(tree[0], For):
                st = sort_tree(I, tree, None, ismax)
                ok, v = I.find(st, lambda v: z3.BoolVal(True))
                return v
            # the best of the parts which are not empty
            best = None
            for n in tree:
                if isinstance(n, Elem):
                    v = n.v
                elif I.branch(I.nonempty((n,))):
                    v = _extreme(I, (I.new_list((n,) if isinstance(n, For) else n.kids),), kw, ismax)
                else:
                    continue
                best = v if best is None else _extreme(I, (best, v), kw, ismax)
            return best
        items = I.flatten_tree(tree)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise PyExc(ValueError, ('empty sequence',))
    else:
        items = list(args)
    key = kw.get('key')
    keyed = [(I.force(I.call(key, [v])) if key is not None else I.force(v), v) for v in items]
    best = keyed[0]
    for k, v in keyed[1:]:
        if I.is_num(k) and I.is_num(best[0]) and key is None:
            if I.all_concrete([k, best[0]]):
                if (k > best[0]) if ismax else (k < best[0]):
                    best = (k, v)
                continue
            a, b = I.num(best[0]), I.num(k)
            e = z3.If(b > a, b, a) if ismax else z3.If(b < a, b, a)
            e = SNum(z3.simplify(e), I.is_int(k) and I.is_int(best[0]))
            best = (e, e)
        else:
            c = compare(I, ast.Gt() if ismax else ast.Lt(), k, best[0])
            if I.branch(c):
                best = (k, v)
    return best[1]


@model(max)
def _max(I, *args, **kw):
    return _extreme(I, args, kw, True)


@model(min)
def _min(I, *args, **kw):
    return _extreme(I, args, kw, False)


@model(sorted)
def _sorted(I, it, key=None, reverse=False):
    it = I.force(it)
    if isinstance(it, SortedView) and key is None and not reverse:
        return SortedView(I, it.tree)
    tree = I.iter_tree(it)
    if key is None and (not I.is_flat(tree) or sum(1 for n in tree if not isinstance(n, Elem)) > 2):
        # sorted strings: only used as a canonical form of a multiset
        vals = first_value(tree)
        if isinstance(vals, (str, SStr)):
            if isinstance(it, Ref) and it.kind == 'set':
                tree = distinct(I, tree) if not I.is_flat(tree) else tree
            return SortedView(I, tree)
    return I.new_list(sort_tree(I, tree, key, bool(reverse)))


def first_value(tree):
    for n in tree:
        if isinstance(n, Elem):
            return n.v
        r = first_value(n.kids)
        if r is not None:
            return r
    return None


class SortedView:
    """sorted(list of strings), list or tuple: represented by an uninterpreted
    function of everything its elements depend on (equality of two of them is
    then an arbitrary relation that respects equal arguments)."""
    def __init__(self, I, tree, kind='list'):
        self.tree = tuple(tree)
        self.kind = kind
        self.term = canonical_term(I, self.tree)

    def pyvc_subst(self, I, pairs):
        return SortedView(I, [I.subst(n, pairs) for n in self.tree], self.kind)

    def pyvc_mentions(self, I, c):
        return any(I.mentions(n, c) for n in self.tree)

    def pyvc_truth(self, I):
        return I.nonempty(self.tree)

    def pyvc_len(self, I):
        return SNum(z3.simplify(I.tree_sum(self.tree, lambda v: z3.RealVal(1))), True)

    def pyvc_contains(self, I, item):
        return I.tree_any(self.tree, lambda v: to_bool(eq(I, v, item)))

    def pyvc_eq(self, I, other):
        if isinstance(other, SortedView) and other.kind == self.kind:
            return self.term == other.term
        raise Unsupported('comparison of a sorted view')


def same_sorted(L, shape, sorts, canon):
    """Name of the function for this canonical tree: trees which have equal
    elements and propositionally equivalent guards share one."""
    known = L.__dict__.setdefault('_sorted', {}).setdefault((shape, sorts), [])
    for parts, name in known:
        if all(a.eq(b) for a, b in zip(parts, canon)):
            return name
    for parts, name in known:
        differ = [(a, b) for a, b in zip(parts, canon) if not a.eq(b)]
        if all(z3.is_bool(a) and z3.is_bool(b) for a, b in differ):
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(z3.Or(*[a != b for a, b in differ]))
            if s.check() == z3.unsat:
                known.append((canon, name))
                return name
    name = 'sorted:%s:%s' % (shape, ','.join(str(e.get_id()) for e in canon))
    known.append((canon, name))
    return name


def canonical_term(I, tree):
    """Val-sorted uninterpreted function (named by the shape of the tree) of the outer binders."""
    L = I.L
    parts, shape, bound = [], [], []

    def go(nodes):
        for n in nodes:
            if isinstance(n, Elem):
                shape.append('e')
                parts.append(I.str(n.v))
            elif isinstance(n, Cond):
                shape.append('c(')
                parts.append(to_bool(n.c))
                go(n.kids)
                shape.append(')')
            else:
                c = z3.Const('cb%d:%s' % (len(bound), n.x.sort().name()), n.x.sort())
                bound.append(c)
                shape.append('f(%s,' % (n.ordf.name() if n.ordf is not None else ''))
                pairs = [(n.x, c)]
                parts.append(z3.substitute(to_bool(n.guard), *pairs))
                go([I.subst(k, pairs) for k in n.kids])
                shape.append(')')
    go(tree)
    ps = []
    for e in parts:
        for c in L.free_consts(e):
            if not any(c.eq(p) for p in ps):
                ps.append(c)
    sub = []
    for i, p in enumerate(ps):
        n = 'cp%d:%s' % (i, p.sort().name())
        L.binders.add(n)
        sub.append((p, z3.Const(n, p.sort())))
    canon = [z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e) for e in parts]
    L._keep.extend(canon)
    name = same_sorted(L, ''.join(shape), tuple(p.sort().name() for p in ps), canon)
    return z3.Function(name, *[p.sort() for p in ps], L.Val)(*ps) if ps else z3.Const(name, L.Val)


@model(enumerate)
def _enumerate(I, it, start=0):
    tree = I.iter_tree(it)
    if I.is_flat(tree):
        return I.new_list([Elem((i, v)) for i, v in enumerate(I.flatten_tree(tree), start)])
    if len(tree) == 1 and isinstance(tree[0], For) and flat_alts(tree[0].kids) is not None:
        n = I.freshen(tree[0])
        m = I.freshen(n)
        ordf = I.L.order(n.x.sort(), n.ordf)
        # the position is the number of earlier elements
        cnt = I.tree_sum((For(m.x, And(m.guard, ordf(m.x) < ordf(n.x)), m.kids),), lambda v: z3.RealVal(1))
        return I.new_list((For(n.x, n.guard, I.tree_map(n.kids, lambda v: (SNum(cnt + start, True), v)), n.ordf),))
    raise Unsupported('enumerate of a composite list')


@model(range)
def _range(I, *args):
    if I.all_concrete(args):
        return range(*args)
    from .ints import RangeView
    return RangeView(I, [I.force(a) for a in args])


@model(reversed)
def _reversed(I, it):
    it = I.force(it)
    tree = I.iter_tree(it)
    if I.is_flat(tree):
        return I.new_list([Elem(v) for v in reversed(I.flatten_tree(tree))])
    raise Unsupported('reversed of an unbounded list')


@model(filter)
def _filter(I, f, it):
    f, it = I.force(f), I.force(it)

    def thunk():
        tree = I.iter_tree(it)
        out = I.new_list(name='filter')

        def body(v):
            r = I.call(f, [v]) if f is not None else v
            if I.branch(I.truth(r)):
                I.append_nodes(out, (Elem(v),))
        I.walk(tree, body)
        return out
    return I.make_gen(thunk)


@model(map)
def _map(I, f, *its):
    if len(its) != 1:
        raise Unsupported('map over several lists')

    def thunk():
        tree = I.iter_tree(its[0])
        out = I.new_list(name='map')
        I.walk(tree, lambda v: I.append_nodes(out, (Elem(I.call(f, [v])),)))
        return out
    return I.make_gen(thunk)


@model(next)
def _next(I, it, *default):
    it = I.force(it)
    if isinstance(it, Ref) and it.kind == 'gen':
        tree = I.iter_tree(it)
        ok, v = I.find(tree, lambda v: z3.BoolVal(True))
        if ok:
            return v
        if default:
            return default[0]
        raise PyExc(StopIteration, ())
    raise Unsupported('next')


@model(iter)
def _iter(I, it):
    return I.make_gen(lambda: I.iter_tree(it))


def zip_nodes(I, ta, tb):
    ta, tb = norm_tree(ta), norm_tree(tb)
    if I.is_flat(ta) and I.is_flat(tb):
        la, lb = I.flatten_tree(ta), I.flatten_tree(tb)
        return tuple(Elem((a, b)) for a, b in zip(la, lb))
    if len(ta) != len(tb):
        raise Unsupported('zip of lists of different shape')
    out = []
    for a, b in zip(ta, tb):
        if isinstance(a, Elem) and isinstance(b, Elem):
            out.append(Elem((a.v, b.v)))
        elif isinstance(a, For) and isinstance(b, For) and a.x.sort() == b.x.sort() and a.ordf is b.ordf:
            x = I.L.binder('z', a.x.sort())
            ga = z3.substitute(to_bool(a.guard), (a.x, x))
            gb = z3.substitute(to_bool(b.guard), (b.x, x))
            va = flat_alts([I.subst(k, [(a.x, x)]) for k in a.kids])
            vb = flat_alts([I.subst(k, [(b.x, x)]) for k in b.kids])
            if va is None or vb is None:
                raise Unsupported('zip of nested lists')
            pa = And(ga, Or([c for c, v in va]))
            pb = And(gb, Or([c for c, v in vb]))
            if not I.entailed(Not(I.L.exists(x, pa != pb)[0])) and I.L.check(I.pc + [pa != pb])[0] != 'unsat' and \
                    I.L.check(I.pc + [pa != pb], tag='lengths')[0] != 'unsat':
                raise Unsupported('zip of lists whose lengths may differ')
            kids = []
            for c1, v1 in va:
                for c2, v2 in vb:
                    c = z3.simplify(And(c1, c2))
                    if is_false(c):
                        continue
                    kids.append(Cond(c, (Elem((v1, v2)),)) if not is_true(c) else Elem((v1, v2)))
            out.append(For(x, And(ga, gb), kids, a.ordf))
        elif isinstance(a, Cond) and isinstance(b, Cond) and I.entailed(a.c == b.c):
            out.append(Cond(a.c, zip_nodes(I, a.kids, b.kids)))
        else:
            raise Unsupported('zip of lists of different structure')
    return tuple(out)


@model(zip)
def _zip(I, *its):
    if len(its) != 2:
        raise Unsupported('zip arity')
    its = [I.force(i) for i in its]
    return I.make_gen(lambda: zip_nodes(I, I.iter_tree(its[0]), I.iter_tree(its[1])))


@model(isinstance)
def _isinstance(I, v, t):
    v = I.force(v)
    ts = t if isinstance(t, tuple) else (t,)
    from collections.abc import Mapping, Iterable, Sequence
    import numbers
    for c in ts:
        if isinstance(v, SNum):
            if c in (numbers.Number, numbers.Real):
                return True
            if c is float and not v.isint:
                return True
            if c is int and v.isint:
                return True
        elif isinstance(v, SBool):
            if c in (bool, int):
                return True
        elif isinstance(v, SStr):
            if c is str:
                return True
        elif isinstance(v, Ref):
            k = {'dict': dict, 'map': dict, 'list': list, 'set': set}.get(v.kind)
            if v.kind == 'obj' and isinstance(c, type) and issubclass(v.fam.cls, c):
                return True
            if k is not None and isinstance(c, type) and issubclass(k, c):
                return True
        elif isinstance(v, SOpq):
            raise Unsupported('isinstance of an opaque value')
        elif type(v).__name__ in ('FuncVal', 'Partial', 'BoundFn', 'Method'):
            if c in (types.FunctionType,):
                return True
        elif isinstance(c, type) and isinstance(v, c):
            return True
    return False


@model(str)
def _str(I, v=''):
    v = I.force(v)
    if hasattr(v, 'pyvc_int'):
        return v
    if isinstance(v, SNum) and v.isint:
        from .ints import Spelled
        return Spelled(None, [v])
    return format_value(I, v, None)


@model(float)
def _float(I, v=0.0):
    v = I.force(v)
    if isinstance(v, (SNum, SBool)):
        return SNum(I.num(v), False)
    if isinstance(v, (SStr, SOpq, Ref)):
        raise Unsupported('float()')
    try:
        return float(v)
    except (TypeError, ValueError) as e:
        raise PyExc(type(e), e.args)


@model(int)
def _int(I, v=0):
    v = I.force(v)
    if isinstance(v, SNum) and v.isint:
        return v
    if hasattr(v, 'pyvc_int'):
        return v.pyvc_int(I)
    if isinstance(v, SBool):
        return SNum(I.num(v), True)
    if I.all_concrete([v]):
        try:
            return int(v)
        except (TypeError, ValueError) as e:
            raise PyExc(type(e), e.args)
    raise Unsupported('int()')


@model(print)
def _print(I, *a, **k):
    return None


@model(callable)
def _callable(I, v):
    v = I.force(v)
    if type(v).__name__ in ('FuncVal', 'Method', 'Partial', 'BoundFn'):
        return True
    if isinstance(v, Ref):
        return v.kind == 'obj' and hasattr(v.fam.cls, '__call__')
    return callable(v)


@model(getattr)
def _getattr(I, obj, name, *default):
    try:
        return I.getattr(obj, name)
    except PyExc as e:
        if default and issubclass(e.cls, AttributeError):
            return default[0]
        raise


@model(setattr)
def _setattr(I, obj, name, value):
    if not isinstance(name, str):
        raise Unsupported('setattr with an unknown name')
    I.setattr(obj, name, value)


@model(hasattr)
def _hasattr(I, obj, name):
    try:
        I.getattr(obj, name)
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(type)
def _type(I, v):
    v = I.force(v)
    if isinstance(v, Ref) and v.kind == 'obj':
        return v.fam.cls
    if I.all_concrete([v]):
        return type(v)
    raise Unsupported('type()')


@model(round)
def _round(I, v, n=None):
    if I.all_concrete([v]):
        return round(v, n) if n is not None else round(v)
    v = I.force(v)
    if isinstance(v, SNum) and (n is None or isinstance(n, int)):
        if v.isint and (n or 0) >= 0:
            return v
        m = z3.RealVal(10) ** (n or 0) if n else z3.RealVal(1)
        m = z3.simplify(m)
        y = v.e * m + z3.RealVal('1/2')
        k = z3.ToInt(y)
        k = z3.If(And(z3.ToReal(k) == y, k % 2 == 1), k - 1, k)
        return SNum(z3.simplify(z3.ToReal(k) / m), n is None)
    raise Unsupported('round of a symbolic number')


@model(copy.deepcopy)
def _deepcopy(I, v, memo=None):
    v = I.force(v)
    if isinstance(v, (Ref, tuple)):
        return I.deepcopy(v)
    return v


@model(copy.copy)
def _copy(I, v):
    v = I.force(v)
    if isinstance(v, Ref):
        if v.kind in ('list', 'set', 'map'):
            return I.new_list(I.content(v), kind=v.kind)
        if v.kind == 'dict':
            return shallow_copy(I, v)
        raise Unsupported('copy.copy')
    return v


def ufun(I, name, x):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    return f(x)


@model(math.log)
def _log(I, v, base=None):
    v = I.force(v)
    if I.all_concrete([v]):
        try:
            return math.log(v)
        except (ValueError, TypeError) as e:
            raise PyExc(type(e), e.args)
    if base is not None:
        raise Unsupported('log base')
    x = I.num(v)
    if I.branch(z3.simplify(x <= 0)):
        raise PyExc(ValueError, ('math domain error',))
    L = I.L
    if 'log' not in L.field_axioms:
        # facts about log used by the proofs (stated as assumptions in DESIGN.md):
        # log 1 = 0, strict monotonicity against 1 and e, log x <= x - 1
        L.field_axioms['log'] = [
            lambda t: And((t == 1) == (ufun(I, 'log', t) == 0),
                          z3.Implies(t > 0, And((t > 1) == (ufun(I, 'log', t) > 0),
                                                ufun(I, 'log', t) <= t - 1,
                                                (t > real(math.e)) == (ufun(I, 'log', t) > 1))))]
    return SNum(ufun(I, 'log', x))


def sqrt_(I, v):
    v = I.force(v)
    if I.all_concrete([v]):
        try:
            return math.sqrt(v)
        except (ValueError, TypeError) as e:
            raise PyExc(type(e), e.args)
    x = I.num(v)
    if I.branch(z3.simplify(x < 0)):
        raise PyExc(ValueError, ('math domain error',))
    L = I.L
    if 'sqrt' not in L.field_axioms:
        L.field_axioms['sqrt'] = [lambda t: z3.Implies(t >= 0, And(ufun(I, 'sqrt', t) >= 0,
                                                                 ufun(I, 'sqrt', t) * ufun(I, 'sqrt', t) == t))]
    return SNum(ufun(I, 'sqrt', x))


REG[id(math.sqrt)] = sqrt_


# ----------------------------------------------------------------- libraries
def register_libs():
    import numpy as np
    import pandas as pd
    import ocelot
    from pprint import pformat
    import hashlib
    tz = ocelot.toolz

    @model(np.allclose)
    def _allclose(I, a, b, rtol=1e-05, atol=1e-08):
        a, b = I.num(I.force(a)), I.num(I.force(b))
        ab = z3.If(b >= 0, b, -b)
        d = z3.If(a >= b, a - b, b - a)
        return SBool(d <= real(atol) + real(rtol) * ab)
    REG[id(np.isclose)] = _allclose

    @model(pformat)
    def _pformat(I, v, *a, **k):
        return opaque_string(I, 'pformat', [v] if not isinstance(v, Ref) else [('ref',)])

    import uuid

    @model(uuid.uuid4)
    def _uuid4(I):
        """Some string (its own uniqueness is not modelled)."""
        n = 'uuid!%d' % next(I.L.serial)
        if not I.ctx:
            return SStr(z3.Const(n, I.L.Str))
        return SStr(z3.Function(n, *[c.sort() for c in I.ctx], I.L.Str)(*I.ctx))

    @model(tz.groupby)
    def _groupby(I, key, seq):
        return GroupBy.make(I, key, seq)

    @model(tz.itertoolz.concat if hasattr(tz, 'itertoolz') else tz.concat)
    def _concat(I, seqs):
        out = I.new_list(name='concat')
        I.walk(I.iter_tree(seqs), lambda v: I.append_nodes(out, I.iter_tree(v)))
        return out

    @model(pd.DataFrame)
    def _df(I, data):
        return DF.make(I, data)

    import functools
    from .interp import Partial

    @model(functools.partial)
    def _partial(I, fn, *args, **kw):
        return Partial(fn, args, kw)

    @model(operator.itemgetter)
    def _itemgetter(I, *keys):
        raise Unsupported('itemgetter')


class GroupBy:
    """toolz.groupby(key, seq): {key: [elements in order]}"""
    def __init__(self, tree, flat=None):
        self.tree = tree       # tree of (key, element)
        self.flat = flat       # list of (key, [elements]) when bounded

    @classmethod
    def make(cls, I, key, seq):
        key = I.force(key)
        keyf = (lambda v: I.subscript(v, key)) if isinstance(key, (str, int)) else (lambda v: I.call(key, [v]))
        pairs = I.new_list(name='groupby')

        def body(v):
            I.append_nodes(pairs, (Elem((I.force(keyf(v)), v)),))
        I.walk(I.iter_tree(seq), body)
        tree = I.content(pairs)
        if I.is_flat(tree):
            flat = []
            for k, v in I.flatten_tree(tree):
                for g in flat:
                    if I.branch(to_bool(eq(I, g[0], k))):
                        g[1].append(v)
                        break
                else:
                    flat.append((k, [v]))
            flat = [(k, I.new_list([Elem(x) for x in vs])) for k, vs in flat]
            return cls(None, flat)
        tree = norm_tree(tree)
        if len(tree) != 1 or not isinstance(tree[0], For) or flat_alts(tree[0].kids) is None:
            raise Unsupported('groupby over a composite list')
        return cls(tree)

    def pyvc_subst(self, I, pairs):
        if self.flat is not None:
            return GroupBy(None, [(I.subst(k, pairs), I.subst(v, pairs)) for k, v in self.flat])
        return GroupBy([I.subst(n, pairs) for n in self.tree])

    def group_list(self, I, key, ctxvar=None):
        t = I.tree_map(I.tree_filter(self.tree, lambda kv: to_bool(eq(I, kv[0], key))), lambda kv: kv[1])
        return t

    def items_tree(self, I):
        if self.flat is not None:
            return tuple(Elem(kv) for kv in self.flat)
        n = I.freshen(self.tree[0])
        m = I.freshen(n)
        ordf = I.L.order(n.x.sort(), n.ordf)
        fam = Family('group', 'list', ctx=list(I.ctx) + [n.x])
        kids = []
        alts = []
        for c, (k, v) in flat_alts(n.kids):
            earlier = And(m.guard, ordf(m.x) < ordf(n.x), I.tree_any(m.kids, lambda kv: to_bool(eq(I, kv[0], k))))
            first = Not(I.L.exists(m.x, earlier, n.ordf)[0])
            g = I.freshen(n)
            inner = (For(g.x, g.guard, I.tree_map(I.tree_filter(g.kids, lambda kv: to_bool(eq(I, kv[0], k))),
                                                  lambda kv: kv[1]), g.ordf),)
            alts.append((c, inner))
            kids.append(Cond(And(c, first), (Elem((k, Ref(fam, tuple(I.ctx) + (n.x,)))),)))
        h = dict(I.heap)
        h[(fam.id, '$c')] = (Update('set', (n.x,), tuple(I.ctx) + (n.x,), tuple(alts)),)
        I.heap = h
        I.note_key(fam, '$c')
        return (For(n.x, n.guard, kids, n.ordf),)

    def pyvc_tree(self, I):
        return I.tree_map(self.items_tree(I), lambda kv: kv[0])

    def pyvc_getattr(self, I, name):
        from .interp import Partial
        if name == 'items':
            return Partial(_GB(self, 'items'), (), {})
        if name in ('values', 'keys', 'get'):
            return Partial(_GB(self, name), (), {})
        raise Unsupported('groupby.%s' % name)

    def pyvc_getitem(self, I, key):
        ok, v = self.find(I, key)
        if not ok:
            raise PyExc(KeyError, (key,))
        return v

    def find(self, I, key):
        if self.flat is not None:
            for k, v in self.flat:
                if I.branch(to_bool(eq(I, k, key))):
                    return True, v
            return False, None
        t = self.group_list(I, key)
        if I.branch(I.nonempty(t)):
            return True, I.new_list(t)
        return False, None

    def pyvc_contains(self, I, key):
        if self.flat is not None:
            return Or([to_bool(eq(I, k, key)) for k, v in self.flat])
        return I.nonempty(self.group_list(I, key))

    def pyvc_len(self, I):
        if self.flat is not None:
            return len(self.flat)
        return SNum(I.tree_sum(self.items_tree(I), lambda v: z3.RealVal(1)), True)

    def pyvc_truth(self, I):
        if self.flat is not None:
            return bool(self.flat)
        return I.nonempty(self.tree)


class _GB:
    def __init__(self, gb, name):
        self.gb, self.name = gb, name
        REG[id(self)] = self.run
        _KEEP.append(self)

    def run(self, I, *args):
        gb = self.gb
        if self.name == 'items':
            return I.new_list(gb.items_tree(I))
        if self.name == 'values':
            return I.new_list(I.tree_map(gb.items_tree(I), lambda kv: kv[1]))
        if self.name == 'keys':
            return I.new_list(I.tree_map(gb.items_tree(I), lambda kv: kv[0]))
        ok, v = gb.find(I, args[0])
        return v if ok else (args[1] if len(args) > 1 else None)


# ------------------------------------------------------------------ dataframes
class Vec:
    """A pandas Series: one scalar per row.  Division by zero is not an error in
    pandas (nan/inf); contracts must exclude it."""
    def __init__(self, tree):
        self.tree = tuple(tree)

    def pyvc_subst(self, I, pairs):
        return Vec([I.subst(n, pairs) for n in self.tree])

    def zipmap(self, I, other, f):
        if isinstance(other, Vec):
            return Vec(I.tree_map(zip_nodes(I, self.tree, other.tree), lambda p: f(p[0], p[1])))
        return Vec(I.tree_map(self.tree, lambda v: f(v, other)))

    def pyvc_binop(self, I, op, other, swapped):
        def f(a, b):
            if swapped:
                a, b = b, a
            if isinstance(op, ast.Div):
                x, y = I.num(a), I.num(b)
                return SNum(x / y)
            return binop(I, op, a, b)
        return self.zipmap(I, other, f)

    def pyvc_compare(self, I, op, other, swapped):
        def f(a, b):
            if swapped:
                a, b = b, a
            c = compare(I, op, a, b)
            return c if isinstance(c, bool) else SBool(c)
        return self.zipmap(I, other, f)

    def pyvc_invert(self, I):
        return Vec(I.tree_map(self.tree, lambda v: SBool(Not(I.boo(v)))))

    def pyvc_getitem(self, I, mask):
        if isinstance(mask, Vec):
            t = zip_nodes(I, self.tree, mask.tree)
            return Masked(self, I.tree_map(I.tree_filter(t, lambda p: I.boo(p[1])), lambda p: p[0]), mask)
        raise Unsupported('Series[%r]' % (mask,))

    def pyvc_setitem(self, I, mask, v):
        if isinstance(mask, Vec) and isinstance(v, Masked):
            if v.mask is not mask:
                raise Unsupported('masked assignment with a different mask')
            t = zip_nodes(I, zip_nodes(I, self.tree, mask.tree), v.parent.tree)
            self.tree = I.tree_map(t, lambda p: SNum(z3.If(I.boo(p[0][1]), I.num(p[1]), I.num(p[0][0]))))
            return
        if isinstance(mask, Vec) and I.is_num(v):
            t = zip_nodes(I, self.tree, mask.tree)
            self.tree = I.tree_map(t, lambda p: SNum(z3.If(I.boo(p[1]), I.num(v), I.num(p[0]))))
            return
        raise Unsupported('Series assignment')

    def pyvc_getattr(self, I, name):
        from .interp import Partial
        if name in ('sum', 'tolist', 'any', 'all', 'copy'):
            return Partial(_VecM(self, name), (), {})
        raise Unsupported('Series.%s' % name)

    def pyvc_tree(self, I):
        return self.tree


class Masked(Vec):
    def __init__(self, parent, tree, mask):
        self.parent, self.tree, self.mask = parent, tuple(tree), mask

    def pyvc_subst(self, I, pairs):
        raise Unsupported('masked series in a loop')


class _VecM:
    def __init__(self, vec, name):
        self.vec, self.name = vec, name
        REG[id(self)] = self.run
        _KEEP.append(self)

    def run(self, I, *a, **k):
        t = self.vec.tree
        if self.name == 'sum':
            return SNum(z3.simplify(I.tree_sum(t, lambda v: I.num(v))))
        if self.name == 'tolist':
            return I.new_list(t)
        if self.name == 'copy':
            return Vec(t)
        if self.name == 'any':
            return SBool(I.tree_any(t, lambda v: to_bool(I.truth(v))))
        return SBool(Not(I.tree_any(t, lambda v: Not(to_bool(I.truth(v))))))


class DF:
    def __init__(self, cols):
        self.cols = cols

    @classmethod
    def make(cls, I, data):
        tree = I.iter_tree(data)
        v0 = first_value(tree)
        if v0 is None:
            return cls({})
        keys = [k for k in I.keys_of(v0.fam) if k != '*closed*']
        return cls({k: Vec(I.tree_map(tree, lambda r, k=k: I.value_of(r, k))) for k in keys})

    def pyvc_subst(self, I, pairs):
        return DF({k: v.pyvc_subst(I, pairs) for k, v in self.cols.items()})

    def pyvc_getitem(self, I, key):
        if key not in self.cols:
            raise PyExc(KeyError, (key,))
        return self.cols[key]

    def pyvc_setitem(self, I, key, v):
        if not isinstance(v, Vec):
            raise Unsupported('scalar column')
        self.cols = {**self.cols, key: v}

    def pyvc_len(self, I):
        return SNum(I.tree_sum(list(self.cols.values())[0].tree, lambda v: z3.RealVal(1)), True)
