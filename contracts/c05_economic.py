# -*- coding: utf-8 -*-
"""C05: economic and true value allocation; C06: waste treatment and recycling."""
from copy import deepcopy

from pyvc.harness import contract, summary
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE
from .c04_choose import CHOOSE, APPLY

from ocelot.errors import InvalidExchange, ZeroProduction, InvalidMultioutputDataset
from ocelot.transformations.utils import choose_reference_product_exchange
from ocelot.transformations.cutoff.economic import economic_allocation

ECON = 'ocelot.transformations.cutoff.economic:economic_allocation'
VAL = 'ocelot.transformations.cutoff.validation:'


@summary(CHOOSE)
def choose_result(dataset, exchange, allocation_factor=1):
    """What callers may rely on (C04): refuses a product with amount zero, leaves
    its arguments alone, and its result is a function of their values (the verifier
    represents it by them; what that function is, is the subject of C04)."""
    if exchange['amount'] == 0:
        raise ZeroProduction
    return {'allocated from': deepcopy(dataset), 'to product': deepcopy(exchange), 'with factor': allocation_factor}


def price(e):
    for p in e.get('properties', []):
        if p['name'] == 'price':
            return p['amount']
    return None


def has_tv(e):
    return any(p['name'] == 'true value relation' for p in e.get('properties', []))


def true_value(e):
    for p in e.get('properties', []):
        if p['name'] == 'true value relation':
            return p['amount']
    return 0


def acceptable(ds):
    """Every product has a price that is not negative, and a non-negative amount."""
    return all(price(e) is not None and price(e) >= 0 and e['amount'] >= 0 for e in ds['exchanges'] if allocatable(e))


def revenue(e):
    return price(e) * e['amount']


def well_defined(ds):
    tvs = [e for e in products(ds) if has_tv(e)]
    return (sum(revenue(e) for e in products(ds)) > 0
            and (not tvs or sum(true_value(e) * e['amount'] for e in products(ds)) != 0))


def products(ds):
    return [e for e in ds['exchanges'] if allocatable(e)]


def give_prices(rng, ins, g, key='ds'):
    give_classes(rng, ins, g, key)
    for e in ins[key]['exchanges']:
        if rng.random() < .95:
            e['properties'] = [{'name': 'price', 'amount': abs(g.num(Num())), 'unit': 'EUR'}] + (
                [{'name': 'true value relation', 'amount': abs(g.num(Num())), 'unit': 'x'}] if rng.random() < .4 else [])
            e['amount'] = abs(e['amount'])
            rng.shuffle(e['properties'])
    return ins


@contract('C05', 'economic_allocation: refusals', {'ds': PDATASET, 'tv': Bool()}, uses=[CHOOSE], shape=give_prices,
          functions=[VAL + 'valid_economic_activity'])
def refusals(V, ds, tv):
    V.requires(classified(ds))
    V.requires(not acceptable(ds))
    old = deepcopy(ds)
    out = V.call(economic_allocation, ds, tv)
    V.ensures('a product without price, or with negative price or amount, is refused', out.exc is InvalidExchange)
    V.ensures('and nothing is changed', V.same(old, ds))


@contract('C05', 'economic_allocation: revenue', {'ds': PDATASET}, uses=[CHOOSE], shape=give_prices,
          functions=[ECON, APPLY, 'ocelot.transformations.utils:allocatable_production_as_dataframe'])
def econ(V, ds):
    V.requires(classified(ds) and acceptable(ds))
    total = sum(revenue(e) for e in products(ds))
    V.requires(total > 0)
    V.requires(all(e['amount'] != 0 for e in products(ds)))
    old = deepcopy(ds)
    out = V.call(economic_allocation, ds, False)
    V.ensures('accepted', out.exc is None)
    V.ensures('source unchanged', V.same(old, ds))
    if out.exc is None:
        V.ensures('one dataset per product, with its share of the revenue',
                  V.same(out.value, [choose_reference_product_exchange(old, e, revenue(e) / total) for e in products(old)]))
    V.ensures('the shares sum to one', V.eq(sum(revenue(e) / total for e in products(old)), 1))


@contract('C05', 'economic_allocation: true value', {'ds': PDATASET}, uses=[CHOOSE], shape=give_prices,
          functions=[ECON, APPLY])
def econ_tv(V, ds):
    V.requires(classified(ds) and acceptable(ds))
    total = sum(revenue(e) for e in products(ds))
    V.requires(total > 0)
    V.requires(all(e['amount'] != 0 for e in products(ds)))
    tvs = [e for e in products(ds) if has_tv(e)]
    tvrev = sum(revenue(e) for e in tvs)
    tvsum = sum(true_value(e) * e['amount'] for e in products(ds))
    V.requires(not tvs or tvsum != 0)
    old = deepcopy(ds)
    out = V.call(economic_allocation, ds)
    V.ensures('accepted', out.exc is None)
    V.ensures('source unchanged', V.same(old, ds))
    if out.exc is None:
        V.ensures('true value products share their joint revenue by true value, others get their share of the revenue',
                  V.same(out.value, [choose_reference_product_exchange(
                      old, e, (true_value(e) * e['amount'] / tvsum * (tvrev / total)) if has_tv(e) else revenue(e) / total)
                      for e in products(old)]))
