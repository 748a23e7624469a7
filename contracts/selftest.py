# -*- coding: utf-8 -*-
"""Small functions with contracts that are known to be true, or to be false.

``check.py --selftest`` verifies them: a false one that is proved, or a true one
that is refuted, shows a defect of the verifier itself.  No property rests on them."""
from copy import deepcopy

from pyvc.harness import Contract
from pyvc.schema import *

ITEM = Dict({'name': Str(pool=['a', 'b', 'c']), 'type': Str(pool=['x', 'y']), 'amount': Num(pool=[-1., 0., 1., 2.])})
DATA = List(Dict({'items': List(ITEM)}))
CASES = []


def case(true, inputs):
    def deco(fn):
        CASES.append((true, Contract(fn, 'self', fn.__name__, inputs, budget=30)))
        return fn
    return deco


def missing_names(data):
    xs, ys = set(), set()
    for d in data:
        for i in d['items']:
            if i['type'] == 'x':
                xs.add(i['name'])
            else:
                ys.add(i['name'])
    return ys - xs


@case(True, {'data': DATA})
def difference_of_sets_grown_in_one_loop(V, data):
    r = V.call(missing_names, data).value
    V.ensures('difference', bool(r) == any(
        i['type'] != 'x' and not any(j['type'] == 'x' and j['name'] == i['name'] for e in data for j in e['items'])
        for d in data for i in d['items']))


@case(False, {'data': DATA})
def difference_is_not_emptiness(V, data):
    r = V.call(missing_names, data).value
    V.ensures('difference', bool(r) == (any(i['type'] != 'x' for d in data for i in d['items'])
                                        and not any(i['type'] == 'x' for d in data for i in d['items'])))


def double(items):
    for i in items:
        i['amount'] *= 2
    return sum(i['amount'] for i in items)


@case(True, {'items': List(ITEM)})
def sum_of_doubled(V, items):
    old = deepcopy(items)
    V.ensures('sum', V.eq(V.call(double, items).value, 2 * sum(i['amount'] for i in old)))


@case(False, {'items': List(ITEM)})
def sum_is_not_kept(V, items):
    old = deepcopy(items)
    V.ensures('sum', V.eq(V.call(double, items).value, sum(i['amount'] for i in old)))


def first_x(items):
    for i in items:
        if i['type'] == 'x':
            return i
    return None


@case(True, {'items': List(ITEM)})
def first_is_one_of_them(V, items):
    r = V.call(first_x, items).value
    if r is None:
        V.ensures('none', all(i['type'] != 'x' for i in items))
    else:
        V.ensures('kind', r['type'] == 'x')


@case(False, {'items': List(ITEM)})
def first_is_not_the_only_one(V, items):
    r = V.call(first_x, items).value
    if r is not None:
        V.ensures('only', len([i for i in items if i['type'] == 'x']) == 1)


def drop(items):
    return [i for i in items if i['amount']]


@case(True, {'items': List(ITEM)})
def zeros_are_dropped(V, items):
    old = sum(i['amount'] for i in items)
    r = V.call(drop, items).value
    V.ensures('dropped', all(i['amount'] != 0 for i in r))
    V.ensures('sum', V.eq(sum(i['amount'] for i in r), old))


@case(False, {'items': List(ITEM)})
def nothing_is_not_dropped(V, items):
    n = len(items)
    V.ensures('all kept', len(V.call(drop, items).value) == n)


def ratio(a, b):
    return a / b if b else 0


@case(False, {'a': Num(), 'b': Num()})
def ratio_is_not_inverse(V, a, b):
    V.ensures('inverse', V.eq(V.call(ratio, a, b).value * b, a))


@case(True, {'a': Num(), 'b': Num()})
def ratio_is_inverse(V, a, b):
    V.requires(b != 0)
    V.ensures('inverse', V.eq(V.call(ratio, a, b).value * b, a))


def split(data):
    """Two collections grown by the same loop."""
    xs, ys = [], []
    for d in data:
        for i in d['items']:
            if i['type'] == 'x':
                xs.append(i['name'])
            else:
                ys.append(i['name'])
    return xs, ys


def others(data):
    xs, ys = split(data)
    return [y for y in ys if y not in xs]


def covered(data):
    xs, ys = split(data)
    return all(y in xs for y in ys)


def subset(data):
    xs, ys = split(data)
    return set(ys).issubset(set(xs))


def common(data):
    xs, ys = split(data)
    return set(ys) & set(xs)


def dicts(data):
    xs, ys = {}, {}
    for d in data:
        for i in d['items']:
            if i['type'] == 'x':
                xs[i['name']] = i['amount']
            else:
                ys[i['name']] = i['amount']
    return [k for k in ys if k not in xs]


def searched(data):
    xs, ys = split(data)
    n = 0
    for y in ys:
        for x in xs:
            if x == y:
                n += 1
    return n


def alone(data):
    return any(i['type'] != 'x' and not any(j['type'] == 'x' and j['name'] == i['name'] for e in data for j in e['items'])
               for d in data for i in d['items'])


def no_x(data):
    return (any(i['type'] != 'x' for d in data for i in d['items'])
            and not any(i['type'] == 'x' for d in data for i in d['items']))


def both(data):
    return any(i['type'] != 'x' and any(j['type'] == 'x' and j['name'] == i['name'] for e in data for j in e['items'])
               for d in data for i in d['items'])


def x_and_other(data):
    return (any(i['type'] != 'x' for d in data for i in d['items'])
            and any(i['type'] == 'x' for d in data for i in d['items']))


def pair(name, fn, right, wrong):
    def true(V, data):
        V.ensures('right', bool(V.call(fn, data).value) == right(data))

    def false(V, data):
        V.ensures('wrong', bool(V.call(fn, data).value) == wrong(data))
    true.__name__, false.__name__ = name, 'not ' + name
    case(True, {'data': DATA})(true)
    case(False, {'data': DATA})(false)


pair('others', others, alone, no_x)
pair('covered', covered, lambda data: not alone(data), lambda data: not no_x(data))
pair('subset', subset, lambda data: not alone(data), lambda data: not no_x(data))
pair('common', common, both, x_and_other)
pair('dictionaries', dicts, alone, no_x)



def run():
    from pyvc import harness as H
    bad = 0
    for true, c in CASES:
        r = H.verify(c)
        ok = r.status == ('proved' if true else 'refuted')
        wrong = r.status == ('refuted' if true else 'proved')
        bad += wrong
        print('%-45s %s%s' % (c.name, r.status, '' if ok else '   UNEXPECTED' if wrong else '   (undecided: %s)' % (r.why or '')[:150]))
    return bad
