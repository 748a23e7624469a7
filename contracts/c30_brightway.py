# -*- coding: utf-8 -*-
"""C30: export to Brightway2 keeps every number and link."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *

from ocelot.errors import InvalidMultioutputDataset
from ocelot.io.brightway2 import Brightway2Converter

B = 'ocelot.io.brightway2:Brightway2Converter.'
FIELDS = ('code', 'economic scenario', 'end date', 'filepath', 'location', 'name', 'start date', 'technology level', 'dataset author', 'data entry')
TYPES = ['reference product', 'dropped product', 'byproduct', 'from technosphere', 'from environment', 'to environment']
BEXC = Dict({'name': Str(pool=['refinery gas', 'x', 'refinery gas, burned', 'a refinery gas']), 'type': Str(choices=TYPES), 'amount': Num(), 'unit': Str(), 'code': Maybe(Str(pool=['', 'c1', 'c2'])),
             'compartment': Maybe(Str()), 'subcompartment': Maybe(Str()), 'uncertainty': UNC()})
BDS = Dict({'type': Str(), 'id': Str(), 'exchanges': List(BEXC), 'dataset author': Opaque(), 'data entry': Opaque(),
            **{f: Str() for f in FIELDS if f not in ('dataset author', 'data entry')}})


def nature(e):
    return e['type'] == 'from environment' or e['type'] == 'to environment'


def kept(e):
    """Exchanges without amount are not exported, nor is unlinked refinery gas."""
    return e['amount'] != 0 and not (e['name'] == 'refinery gas' and not e.get('code'))


def linked(ds):
    return all(e['type'] != 'dropped product' or e['amount'] == 0 for e in ds['exchanges']) and all((e['type'] != 'from environment' and e['type'] != 'to environment') or ('compartment' in e and 'subcompartment' in e)
               for e in ds['exchanges']) and all(
        'code' in e for e in ds['exchanges'] if kept(e) and not nature(e))


def complete(rng, ins, g):
    for ds in ins['data']:
        first = True
        for e in ds['exchanges']:
            if e['type'] == 'reference product':
                e['type'] = 'reference product' if first else 'from technosphere'
                first = False
            if e['name'] != 'refinery gas':
                e.setdefault('code', 'c%d' % rng.randint(1, 4))
            if e['type'] == 'dropped product':
                e['amount'] = 0.
            e.setdefault('compartment', 'air')
            e.setdefault('subcompartment', 'x')
        if first:
            ds['exchanges'].insert(0, {'name': 'p', 'type': 'reference product', 'amount': rng.choice([1., -1.]), 'unit': 'kg', 'code': 'c0',
                                       'compartment': 'a', 'subcompartment': 'b'})
    return ins


def exported(e, name):
    if nature(e):
        return {'type': 'biosphere', 'amount': e['amount'], 'name': e['name'], 'unit': e['unit'], 'categories': (e['compartment'], e['subcompartment'])}
    if e['type'] == 'reference product':
        return {'type': 'production', 'amount': e['amount'], 'input': (name, e['code'])}
    return {'type': 'technosphere', 'amount': -e['amount'] if e['type'] == 'byproduct' else e['amount'], 'input': (name, e['code'])}


@contract('C30', 'convert_to_brightway2', {'data': List(BDS), 'name': Str()}, shape=complete,
          functions=[B + 'convert_to_brightway2', B + 'translate_activity', B + 'translate_biosphere_exchange', B + 'translate_technosphere_exchange',
                     B + 'translate_production_exchange', B + 'translate_byproduct_exchange', 'ocelot.io.brightway2:refinery_gas_is_the_bane_of_my_existence'])
def convert(V, data, name):
    V.requires(all(linked(ds) for ds in data))
    V.requires(all(len([e for e in ds['exchanges'] if e['type'] == 'reference product']) == 1 for ds in data))
    old = deepcopy(data)
    out = V.call(Brightway2Converter.convert_to_brightway2, data, name)
    V.ensures('never fails on a linked database', out.exc is None)
    V.ensures('the database itself is not changed', V.same(old, data))
    V.ensures('one activity for each dataset', len(out.value) == len(data))
    for ds, a in zip(data, out.value):
        V.ensures('identity of the activity', all([a[f] == ds[f] for f in FIELDS]) and a['database'] == name)
        rp = [e for e in ds['exchanges'] if e['type'] == 'reference product'][0]
        V.ensures('product of the activity', a['reference product'] == rp['name'] and a['unit'] == rp['unit'] and
                  a['production amount'] == rp['amount'])
        V.ensures('exactly the exchanges with an amount, except unlinked refinery gas, with their amount (byproducts: as negative inputs) and link',
                  V.same(a['exchanges'], [exported(e, name) for e in ds['exchanges'] if kept(e)]))


@contract('C30', 'translate_activity: products', {'ds': BDS, 'name': Str()}, functions=[B + 'translate_activity'])
def one_product(V, ds, name):
    V.requires(linked(ds))
    out = V.call(Brightway2Converter.translate_activity, ds, name)
    n = len([e for e in ds['exchanges'] if e['type'] == 'reference product'])
    if n == 1:
        V.ensures('one product is fine', out.exc is None)
    elif n == 0:
        V.ensures('no product is refused', out.exc is ValueError)
    else:
        V.ensures('several products are refused', out.exc is InvalidMultioutputDataset)
