# -*- coding: utf-8 -*-
"""C22: signs and constrained byproducts of markets in the cutoff model."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE

from ocelot.transformations.uncertainty import scale_exchange
from ocelot.transformations.cutoff.allocation import ALLOCATION_METHODS
from ocelot.transformations.cutoff.markets import (
    adjust_market_signs_for_allocatable_products, constrained_market_allocation)

M = 'ocelot.transformations.cutoff.markets:'
TYPES = ['market activity', 'market group', 'transforming activity']
SEXC = EXC.with_({'id': Str(unique=True), 'conditional exchange': Maybe(Bool())})
MDS = DATASET.with_({'type': Str(choices=TYPES), 'exchanges': List(SEXC)})


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def give_markets(rng, ins, g):
    for ds in ins['data']:
        ds['type'] = rng.choice(TYPES + ['market activity'] * 3)
        ex = ds['exchanges']
        for e in ex:
            if e['type'] == 'reference product':
                e['type'] = 'from technosphere'
        if not ex:
            continue
        rp = rng.choice(ex)
        rp['type'] = 'reference product'
        rp['byproduct classification'] = rng.choice(CLASSES)
        rp['amount'] = -abs(rp['amount']) if rng.random() < .8 else rp['amount']
        if rng.random() < .5:
            for e in ex:
                e['amount'] = -abs(e['amount'])
        if rng.random() < .5:
            for e in ex:
                if rng.random() < .5:
                    e['name'] = rp['name']
    return ins


def not_waste(ds):
    return ds['type'] == 'market activity' and rps(ds)[0]['byproduct classification'] != 'waste'


@contract('C22', 'adjust_market_signs_for_allocatable_products', {'data': List(MDS)}, shape=give_markets, uses=[SCALE],
          functions=[M + 'adjust_market_signs_for_allocatable_products'], budget=120)
def signs(V, data):
    V.requires(all(ds['type'] != 'market activity' or len(rps(ds)) == 1 for ds in data))
    V.requires(all(ds['type'] != 'market activity' or 'byproduct classification' in rps(ds)[0] for ds in data))
    old = deepcopy(data)
    out = V.call(adjust_market_signs_for_allocatable_products, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('attributes of the dataset unchanged', V.same_but(o, n, 'exchanges'))
        want = deepcopy(o)
        if not_waste(o):
            if all(e['amount'] <= 0 for e in o['exchanges']):
                for e in want['exchanges']:
                    scale_exchange(e, -1)
            elif rps(o)[0]['amount'] < 0:
                for e in want['exchanges']:
                    if e['name'] == rps(o)[0]['name']:
                        scale_exchange(e, -1)
        V.ensures('exactly the exchanges with a wrong sign are flipped', V.same(want['exchanges'], n['exchanges']))
        if not_waste(o):
            V.ensures('the product is not negative', all(e['amount'] >= 0 for e in rps(n)))


def constrained(e):
    return e['type'] == 'byproduct' and 'conditional exchange' in e and e['conditional exchange']


@contract('C22', 'constrained_market_allocation', {'ds': MDS}, functions=[M + 'constrained_market_allocation'])
def conditional(V, ds):
    old = deepcopy(ds)
    out = V.call(constrained_market_allocation, ds)
    V.ensures('never fails', out.exc is None)
    V.ensures('attributes of the dataset unchanged', V.same_but(old, ds, 'exchanges'))
    V.ensures('no exchange appears or disappears', len(ds['exchanges']) == len(old['exchanges']))
    for o, n in zip(old['exchanges'], ds['exchanges']):
        if constrained(o):
            V.ensures('a conditional byproduct is dropped', n['type'] == 'dropped product' and n['amount'] == 0)
            V.ensures('with its formula, volume and uncertainty',
                      'formula' not in n and 'production volume' not in n and 'uncertainty' not in n)
            V.ensures('and nothing else of it changes',
                      V.same_but(o, n, 'type', 'amount', 'formula', 'production volume', 'uncertainty'))
        else:
            V.ensures('every other exchange is unchanged', V.same(o, n))


@contract('C22', 'allocation of a constrained market', {'ds': MDS}, functions=[M + 'constrained_market_allocation'])
def allocated(V, ds):
    want = deepcopy(ds)
    constrained_market_allocation(want)
    out = V.call(dict(ALLOCATION_METHODS)['constrained market'], ds)
    V.ensures('never fails', out.exc is None)
    if out.exc is None:
        V.ensures('the market itself takes its place', isinstance(out.value, list) and len(out.value) == 1)
        V.ensures('without its conditional byproducts', V.same(out.value[0], want))
