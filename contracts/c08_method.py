# -*- coding: utf-8 -*-
"""C08: every dataset gets the allocation procedure of the decision tree."""
from copy import deepcopy

from pyvc.harness import contract, summary, refines
from pyvc.schema import *
from .data import *

from ocelot.transformations.cutoff.allocation import (
    choose_allocation_method, label_allocation_method, create_allocation_filter, ALLOCATION_METHODS, no_allocation)
from ocelot.transformations.cutoff import allocation as A
from ocelot.errors import InvalidMultioutputDataset, InvalidExchange

P = 'ocelot.transformations.cutoff.allocation:'
CAM = P + 'choose_allocation_method'
ADS = DATASET.with_({
    'type': Str(choices=['transforming activity', 'market activity', 'market group']),
    'name': Str(pool=['a', 'rare earth oxides production from bastnäsite concentrate']),
    'exchanges': List(EXC.with_({'conditional exchange': Maybe(Bool())}))})


def decision(ds):
    """The documented decision tree."""
    made = [e for e in ds['exchanges'] if e['type'] == 'reference product' and e['amount'] != 0]
    useful = any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' and e['amount'] != 0
                 for e in ds['exchanges'])
    n = len(made)
    if n == 1 and not useful:
        return 'single product'
    if ds['type'] == 'market group':
        return 'market group'
    if ds['type'] == 'market activity':
        if any(e.get('conditional exchange') for e in ds['exchanges']):
            return 'constrained market'
        return 'unconstrained market'
    if n > 1:
        if not any(e['type'] == 'reference product' and e.get('byproduct classification') == 'allocatable product' for e in ds['exchanges']):
            return 'combined production without products'
        if useful:
            return 'combined production with byproducts'
        if ds['name'] == 'rare earth oxides production from bastnäsite concentrate':
            return 'economic'
        return 'combined production'
    if any(e['amount'] < 0 for e in made):
        if all(e.get('byproduct classification') == 'waste' for e in made):
            return 'waste treatment'
        return 'recycling'
    return 'economic'


@contract('C08', 'choose_allocation_method', {'ds': ADS}, shape=give_classes, functions=[CAM], kind='refinement')
def choose(V, ds):
    V.requires(classified(ds))
    old = deepcopy(ds)
    out = V.call(choose_allocation_method, ds)
    V.ensures('always decides', out.exc is None)
    V.ensures('pure', V.same(old, ds))
    V.ensures('as the decision tree says', out.value == decision(old))


@summary(CAM)
def decided(ds):
    return decision(ds)


@contract('C08', 'label_allocation_method', {'data': List(ADS)}, shape=give_all_classes, uses=[CAM], functions=[P + 'label_allocation_method'], budget=120)
def label(V, data):
    V.requires(all(classified(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(label_allocation_method, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('labelled', n['allocation method'] == decision(o))
        V.ensures('nothing else changes', V.same_but(o, n, 'allocation method'))


FUNCS = {
    'market group': 'no_allocation', 'unconstrained market': 'no_allocation', 'economic': 'economic_allocation',
    'constrained market': 'constrained_market_allocation', 'recycling': 'recycling_allocation',
    'waste treatment': 'waste_treatment_allocation',
    'combined production without products': 'combined_production_without_products',
    'combined production': 'combined_production', 'combined production with byproducts': 'combined_production_with_byproducts',
}


@contract('C08', 'every label has its procedure', {'label': Str(choices=sorted(FUNCS) + ['single product']), 'other': Str(choices=sorted(FUNCS) + ['single product'])},
          functions=[P + 'create_allocation_filter'])
def procedures(V, label, other):
    table = dict(ALLOCATION_METHODS)
    V.ensures('a procedure for every label', label in table)
    if label in table:
        V.ensures('it is the documented one', table[label].__name__ == (FUNCS[label] if label != 'single product' else 'no_allocation'))
    out = V.call(create_allocation_filter(label), {'allocation method': other})
    V.ensures('the filter selects exactly its label', out.value == (label == other))


@contract('C08', 'no_allocation', {'ds': ADS}, shape=give_classes, functions=[P + 'no_allocation', 'ocelot.transformations.cutoff.validation:valid_no_allocation_dataset',
                                                          'ocelot.transformations.validation:check_single_output_activity'])
def none(V, ds):
    V.requires(classified(ds))
    old = deepcopy(ds)
    out = V.call(no_allocation, ds)
    V.ensures('dataset unchanged', V.same(old, ds))
    made = len([e for e in ds['exchanges'] if e['type'] == 'reference product'])
    if made != 1 or any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for e in ds['exchanges']):
        V.ensures('a multi-output dataset is refused', out.exc is InvalidMultioutputDataset)
    else:
        V.ensures('a single product dataset is accepted as it is', out.exc is None)
        if out.exc is None:
            V.ensures('returned as it is', len(out.value) == 1 and out.value[0] is ds)
