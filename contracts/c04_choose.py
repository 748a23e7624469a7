# -*- coding: utf-8 -*-
"""C04: allocated datasets: one product each, the rest scaled, source untouched."""
from copy import deepcopy

from pyvc.engine import UNSPEC
from pyvc.harness import contract, summary, refines
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE
from .c03_normalize import NORM

from ocelot.errors import ZeroProduction
from ocelot.transformations.utils import (
    allocatable_production, nonproduction_exchanges, nonreference_product, choose_reference_product_exchange)
from ocelot.transformations.cutoff.utils import apply_allocation_factors

U = 'ocelot.transformations.utils:'
CHOOSE = U + 'choose_reference_product_exchange'
APPLY = 'ocelot.transformations.cutoff.utils:apply_allocation_factors'


def without(d, *keys):
    """Copy of d without some keys."""
    e = deepcopy(d)
    for k in keys:
        if k in e:
            del e[k]
    return e


@contract('C04', 'allocatable_production / nonproduction_exchanges', {'ds': PDATASET}, shape=give_classes,
          functions=[U + 'allocatable_production', U + 'nonproduction_exchanges'])
def partition(V, ds):
    V.requires(classified(ds))
    old = deepcopy(ds)
    a = V.call(allocatable_production, ds)
    b = V.call(nonproduction_exchanges, ds)
    V.ensures('never fails', a.exc is None and b.exc is None)
    V.ensures('pure', V.same(old, ds))
    V.ensures('products, in order', V.same(a.value, [e for e in old['exchanges'] if allocatable(e)]))
    V.ensures('everything else, in order', V.same(b.value, [e for e in old['exchanges'] if not allocatable(e)]))


@contract('C04', 'nonreference_product', {'exc': PEXC}, functions=[U + 'nonreference_product'])
def dropped(V, exc):
    old = deepcopy(exc)
    out = V.call(nonreference_product, exc)
    V.ensures('never fails', out.exc is None)
    V.ensures('the exchange is returned', out.value is exc)
    V.ensures('amount zero', exc['amount'] == 0)
    V.ensures('marked as dropped', exc['type'] == 'dropped product')
    V.ensures('cannot come back', 'formula' not in exc and 'production volume' not in exc and 'uncertainty' not in exc)
    V.ensures('rest unchanged', V.same_but(old, exc, 'amount', 'type', 'formula', 'production volume', 'uncertainty'))


DROP = ('amount', 'type', 'formula', 'production volume', 'uncertainty')


def unit_factor(a):
    """What the dataset is multiplied with so that the product amount becomes one."""
    k = 1 / abs(a)
    return 1 if abs(k - 1) <= 1e-14 else k


@contract('C04', 'choose_reference_product_exchange: dataset', {'ds': PDATASET, 'factor': Num()}, uses=[SCALE],
          shape=give_classes, budget=250, functions=[CHOOSE, NORM], max_paths=20000)
def choose(V, ds, factor):
    V.requires(classified(ds))
    old = deepcopy(ds)
    for chosen in ds['exchanges']:
        if not allocatable(chosen):
            continue
        out = V.call(choose_reference_product_exchange, ds, chosen, factor)
        V.ensures('the source dataset is untouched', V.same(old, ds))
        a = chosen['amount']
        if a == 0:
            V.ensures('a product without production is refused', out.exc is ZeroProduction)
            continue
        V.ensures('accepted otherwise', out.exc is None)
        if out.exc is not None:
            continue
        new = out.value
        V.ensures('attributes are kept', V.same_but(new, old, 'exchanges'))
        others = [e for e in old['exchanges'] if allocatable(e) and e['id'] != chosen['id']]
        rest = [e for e in old['exchanges'] if not allocatable(e)]
        V.ensures('every exchange is accounted for', len(new['exchanges']) == 1 + len(others) + len(rest))
        V.ensures('only one reference product',
                  len([e for e in new['exchanges'] if e['type'] == 'reference product']) == 1)
        for o in old['exchanges']:
            V.ensures('no exchange is lost', any(e['id'] == o['id'] for e in new['exchanges']))
        for e in new['exchanges']:
            if e['type'] == 'reference product':
                V.ensures('its amount is one with the old sign', V.eq(e['amount'], a * unit_factor(a)))
                V.ensures('it has neither classification nor uncertainty',
                          'byproduct classification' not in e and 'uncertainty' not in e)
                V.ensures('it is otherwise the chosen exchange',
                          V.same_but(e, chosen, 'amount', 'type', 'byproduct classification', 'uncertainty'))


@contract('C04', 'choose_reference_product_exchange: other products', {'ds': PDATASET, 'factor': Num()}, uses=[SCALE],
          shape=give_classes, budget=250, functions=[CHOOSE], max_paths=20000)
def choose_others(V, ds, factor):
    V.requires(classified(ds))
    old = deepcopy(ds)
    for chosen in ds['exchanges']:
        if not allocatable(chosen):
            continue
        out = V.call(choose_reference_product_exchange, ds, chosen, factor)
        if out.exc is not None:
            continue
        for e in out.value['exchanges']:
            for o in old['exchanges']:
                if o['id'] == e['id'] and o['id'] != chosen['id'] and allocatable(o):
                    V.ensures('other products have amount zero', e['amount'] == 0)
                    V.ensures('other products are marked dropped', e['type'] == 'dropped product')
                    V.ensures('other products keep no volume, formula or uncertainty',
                              'production volume' not in e and 'formula' not in e and 'uncertainty' not in e)
                    V.ensures('other products keep the rest', V.same_but(o, e, *DROP))


@contract('C04', 'choose_reference_product_exchange: inputs and outputs', {'ds': PDATASET, 'factor': Num()}, uses=[SCALE],
          shape=give_classes, budget=250, functions=[CHOOSE], max_paths=20000)
def choose_rest(V, ds, factor):
    V.requires(classified(ds))
    old = deepcopy(ds)
    for chosen in ds['exchanges']:
        if not allocatable(chosen):
            continue
        out = V.call(choose_reference_product_exchange, ds, chosen, factor)
        if out.exc is not None:
            continue
        a = chosen['amount']
        for e in out.value['exchanges']:
            for o in old['exchanges']:
                if o['id'] == e['id'] and not allocatable(o):
                    V.ensures('other exchanges get the allocated share per unit of product',
                              V.eq(e['amount'], o['amount'] * factor * unit_factor(a)))
                    V.ensures('other exchanges otherwise unchanged', V.same_but(o, e, 'amount', 'uncertainty'))
