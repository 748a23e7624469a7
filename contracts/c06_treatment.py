# -*- coding: utf-8 -*-
"""C06: waste treatment and recycling allocation."""
from copy import deepcopy

from pyvc.harness import contract, summary
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE
from .c04_choose import CHOOSE
from .c05_economic import ECON, VAL, acceptable, give_prices, products, well_defined

from ocelot.errors import InvalidExchange, ZeroProduction, InvalidMultioutputDataset
from ocelot.transformations.utils import choose_reference_product_exchange
from ocelot.transformations.uncertainty import scale_exchange
from ocelot.transformations.cutoff.wastes import economic_allocation
from ocelot.transformations.cutoff.wastes import waste_treatment_allocation, recycling_allocation, recycling_2_allocation

W = 'ocelot.transformations.cutoff.wastes:'
EC = 'ocelot.transformations.cutoff.wastes:economic_allocation'


@summary(EC)
def economic_result(dataset, use_true_value=True):
    """What callers may rely on (C05): arguments are left alone and the outcome
    (result or refusal) is a function of their values, which represent it here."""
    return [{'economic allocation of': deepcopy(dataset)}]


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def give_treatment(rng, ins, g, key='ds'):
    give_prices(rng, ins, g, key)
    ex = ins[key]['exchanges']
    for e in ex:
        if e['type'] == 'reference product':
            e['type'] = 'byproduct'
            e['byproduct classification'] = 'allocatable product'
    if rng.random() < .95 and ex:
        e = rng.choice(ex)
        e['type'] = 'reference product'
        e['amount'] = -abs(e['amount'])
        e['byproduct classification'] = rng.choice(['waste', 'recyclable', 'waste', 'allocatable product'])
    return ins


@contract('C06', 'waste_treatment_allocation: refusals', {'ds': PDATASET}, uses=[CHOOSE], shape=give_treatment,
          functions=[VAL + 'valid_waste_treatment_activity'])
def waste_refused(V, ds):
    V.requires(classified(ds))
    n = len(rps(ds))
    old = deepcopy(ds)
    ok = n == 1 and rps(ds)[0]['amount'] < 0 and rps(ds)[0].get('byproduct classification') == 'waste'
    V.requires(not ok)
    out = V.call(waste_treatment_allocation, ds)
    V.ensures('anything but the consumption of one waste is refused', out.exc is (
        ValueError if n == 0 else InvalidMultioutputDataset if n > 1 else InvalidExchange))
    V.ensures('and left alone', V.same(old, ds))


@contract('C06', 'waste_treatment_allocation', {'ds': PDATASET}, uses=[CHOOSE], shape=give_treatment, budget=120,
          functions=[W + 'waste_treatment_allocation'])
def waste(V, ds):
    V.requires(classified(ds))
    V.requires(len(rps(ds)) == 1)
    rp = rps(ds)[0]
    V.requires(rp['amount'] < 0 and rp.get('byproduct classification') == 'waste')
    V.requires(all(e['amount'] != 0 for e in ds['exchanges'] if allocatable(e)))
    old = deepcopy(ds)
    out = V.call(waste_treatment_allocation, ds)
    V.ensures('accepted', out.exc is None)
    V.ensures('source unchanged', V.same(old, ds))
    if out.exc is not None:
        return
    V.ensures('the treatment carries all burdens', V.same(out.value[0], choose_reference_product_exchange(old, rps(old)[0])))
    free = []
    for e in old['exchanges']:
        if e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product':
            alone = deepcopy(old)
            alone['exchanges'] = [deepcopy(e)]
            free.append(choose_reference_product_exchange(alone, e))
    V.ensures('each useful product is provided free of burdens', V.same(out.value[1:], free))


@contract('C06', 'recycling_allocation: refusals', {'ds': PDATASET}, uses=[SCALE, EC], shape=give_treatment,
          functions=[VAL + 'valid_recycling_activity'])
def recycling_refused(V, ds):
    V.requires(classified(ds))
    n = len(rps(ds))
    old = deepcopy(ds)
    ok = n == 1 and rps(ds)[0]['amount'] < 0 and any(
        e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for e in ds['exchanges'])
    V.requires(not ok)
    out = V.call(recycling_allocation, ds)
    V.ensures('anything but recycling into products is refused', out.exc is (
        ValueError if n == 0 else InvalidMultioutputDataset if n > 1 else InvalidExchange))
    V.ensures('and left alone', V.same(old, ds))


@contract('C06', 'recycling_allocation', {'ds': PDATASET}, uses=[SCALE, EC], shape=give_treatment, budget=120,
          functions=[W + 'recycling_allocation'])
def recycling(V, ds):
    V.requires(classified(ds))
    V.requires(len(rps(ds)) == 1)
    V.requires(rps(ds)[0]['amount'] < 0)
    V.requires(any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for e in ds['exchanges']))
    V.requires(all(e['amount'] != 0 for e in ds['exchanges'] if allocatable(e)))
    flipped = deepcopy(ds)
    for e in flipped['exchanges']:
        if e['type'] == 'reference product':
            e['type'] = 'from technosphere'
            scale_exchange(e, -1)
    if not V.symbolic:
        V.requires(acceptable(flipped) and well_defined(flipped))
    out = V.call(recycling_allocation, ds)
    V.ensures('accepted', out.exc is None)
    V.ensures('the recycled material becomes an input, the products are allocated economically',
              V.same(out.value, economic_allocation(flipped)))


@contract('C06', 'recycling_2_allocation', {'ds': PDATASET}, uses=[SCALE, EC], shape=give_treatment, budget=120,
          functions=[W + 'recycling_2_allocation'])
def recycling_2(V, ds):
    V.requires(classified(ds))
    V.requires(len(rps(ds)) == 1)
    V.requires(all(e['amount'] != 0 for e in ds['exchanges'] if allocatable(e)))
    flipped = deepcopy(ds)
    for e in flipped['exchanges']:
        if e['type'] == 'reference product':
            e['type'] = 'from technosphere'
            scale_exchange(e, -1)
        elif e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable':
            e['type'] = 'reference product'
    if not V.symbolic:
        V.requires(acceptable(flipped) and well_defined(flipped))
    out = V.call(recycling_2_allocation, ds)
    V.ensures('accepted', out.exc is None)
    V.ensures('the recycled material becomes an input, recyclables are products allocated economically',
              V.same(out.value, economic_allocation(flipped)))
