# -*- coding: utf-8 -*-
"""C03: normalisation to a reference production of one unit."""
from copy import deepcopy

from pyvc.harness import contract, summary, refines
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE

from ocelot.errors import InvalidMultioutputDataset, ZeroProduction
from ocelot.transformations.utils import (
    get_single_reference_product, normalize_reference_production_amount,
    label_reference_product, get_biggest_pv_to_exchange_ratio)

U = 'ocelot.transformations.utils:'
GSRP = U + 'get_single_reference_product'
NORM = U + 'normalize_reference_production_amount'


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


@contract('C03', 'get_single_reference_product', {'ds': DATASET}, functions=[GSRP], kind='refinement')
def single_rp(V, ds):
    old = deepcopy(ds)
    out = V.call(get_single_reference_product, ds)
    n = len([e for e in ds['exchanges'] if e['type'] == 'reference product'])
    V.ensures('pure', V.same(old, ds))
    if n > 1:
        V.ensures('several reference products are refused', out.exc is InvalidMultioutputDataset)
    elif n == 0:
        V.ensures('a missing reference product is refused', out.exc is ValueError)
    else:
        V.ensures('the only reference product is returned', out.exc is None)
        if out.exc is None:
            V.ensures('returned exchange is in the dataset', any(e is out.value for e in ds['exchanges']))
            V.ensures('returned exchange is a reference product', out.value['type'] == 'reference product')


@contract('C03', 'normalize_reference_production_amount', {'ds': DATASET, 'log': Bool()}, uses=[SCALE], functions=[NORM])
def normalize(V, ds, log):
    old = deepcopy(ds)
    out = V.call(normalize_reference_production_amount, ds, log)
    found = rps(old)
    if len(found) != 1:
        V.ensures('refused unless there is exactly one reference product',
                  out.exc is (InvalidMultioutputDataset if len(found) > 1 else ValueError))
        V.ensures('unchanged when refused', V.same(old, ds))
        return
    a = found[0]['amount']
    if a == 0:
        V.ensures('zero production is refused', out.exc is ZeroProduction)
        V.ensures('unchanged when refused', V.same(old, ds))
        return
    V.ensures('every other dataset is normalised', out.exc is None)
    if out.exc is not None:
        return
    V.ensures('the dataset itself is returned', len(out.value) == 1 and out.value[0] is ds)
    V.ensures('dataset attributes unchanged', V.same_but(old, ds, 'exchanges'))
    f = 1 / abs(a)
    V.ensures('no exchange appears or disappears', len(ds['exchanges']) == len(old['exchanges']))
    if abs(f - 1) <= 1e-14:
        V.ensures('already normalised data is left alone', V.same(old, ds))
        return
    for o, n in zip(old['exchanges'], ds['exchanges']):
        V.ensures('every amount divided by the absolute reference amount', V.eq(n['amount'], o['amount'] * f))
        V.ensures('nothing else of an exchange changes', V.same_but(o, n, 'amount', 'uncertainty'))
    for e in ds['exchanges']:
        if e['type'] == 'reference product':
            V.ensures('reference product amount is one with its old sign', V.eq(e['amount'], 1 if a > 0 else -1))


@contract('C03', 'label_reference_product', {'data': List(DATASET)}, uses=[], functions=[U + 'label_reference_product'])
def label(V, data):
    old = deepcopy(data)
    out = V.call(label_reference_product, data)
    if out.exc is not None:
        V.ensures('refused only for a dataset without a single reference product',
                  any(len(rps(ds)) != 1 for ds in old))
        return
    V.ensures('same datasets', len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('accepted only with a single reference product', len(rps(o)) == 1)
        V.ensures('label is the name of the reference product', n['reference product'] == rps(o)[0]['name'])
        V.ensures('nothing else changes', V.same_but(o, n, 'reference product'))


@contract('C03', 'get_biggest_pv_to_exchange_ratio',
          {'ds': DATASET.with_({'exchanges': List(EXC.with_({'production volume': PV}))})},
          functions=[U + 'get_biggest_pv_to_exchange_ratio'], kind='refinement')
def biggest(V, ds):
    old = deepcopy(ds)
    out = V.call(get_biggest_pv_to_exchange_ratio, ds)
    V.ensures('pure', V.same(old, ds))
    some = any(e['type'] == 'reference product' and e['amount'] != 0 for e in old['exchanges'])
    if not some:
        V.ensures('no production is refused', out.exc is ZeroProduction)
        return
    V.ensures('defined otherwise', out.exc is None)
    if out.exc is not None:
        return
    for e in old['exchanges']:
        if e['type'] == 'reference product' and e['amount'] != 0:
            V.ensures('no reference product has a larger ratio',
                      V.le(abs(e['production volume']['amount'] / e['amount']), abs(out.value)))
    V.ensures('the ratio is that of a reference product',
              any(e['type'] == 'reference product' and e['amount'] != 0
                  and V.eq(e['production volume']['amount'] / e['amount'], out.value) for e in old['exchanges']))
