# -*- coding: utf-8 -*-
"""C23, C24: consequential linking: constrained markets, technology levels, alternative producers."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.errors import MissingAlternativeProducer, InvalidMultioutputDataset
from ocelot.transformations.consequential.byproducts import ensure_byproducts_have_alternative_production
from ocelot.transformations.consequential.constrained_markets import (
    flip_exchange, delete_activity_links_to_constrained_markets, handle_constrained_markets)
from ocelot.transformations.consequential.market_linking import prune_suppliers_by_technology_level, TECHNOLOGY_LEVEL_HIERARCHY
from ocelot.transformations.consequential.technology_levels import (
    switch_undefined_to_current, log_conflicting_technology_levels, cleanup_technology_levels)

Q = 'ocelot.transformations.consequential.'
LEVELS = ['new', 'modern', 'current', 'old', 'outdated']

FEXC = EXC.with_({'formula': Maybe(Str(pool=['a', 'a * 2']))})


@contract('C23', 'flip_exchange', {'exc': FEXC}, functions=[Q + 'constrained_markets:flip_exchange'])
def flip(V, exc):
    old = deepcopy(exc)
    out = V.call(flip_exchange, exc)
    V.ensures('the exchange is returned', out.exc is None and out.value is exc)
    V.ensures('the amount changes its sign', V.eq(exc['amount'], -old['amount']))
    V.ensures('everything else is kept', V.same_but(old, exc, 'amount', 'formula'))
    V.ensures('a formula is flipped too', ('formula' in exc) == ('formula' in old))
    if 'formula' in old:
        V.ensures('by negation', exc['formula'] == '-1 * ({})'.format(old['formula']))


IDS = ['i', 'j', 'k']
CEXC = EXC.with_({'activity link': Maybe(Str(pool=IDS)), 'conditional exchange': Maybe(Bool())})
CDS = DATASET.with_({'id': Str(pool=IDS, unique=True), 'exchanges': List(CEXC)})


@contract('C23', 'delete_activity_links_to_constrained_markets', {'data': List(CDS)},
          functions=[Q + 'constrained_markets:delete_activity_links_to_constrained_markets'])
def dangling(V, data):
    V.requires(all(e.get('activity link') for ds in data for e in ds['exchanges'] if e.get('conditional exchange')))
    old = deepcopy(data)
    out = V.call(delete_activity_links_to_constrained_markets, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if not a.get('conditional exchange') and a.get('activity link') and any(
                    e.get('conditional exchange') and e['activity link'] == a['activity link']
                    for ds in old for e in ds['exchanges']):
                V.ensures('links to constrained activities are dropped', 'activity link' not in b and V.same_but(a, b, 'activity link'))
            else:
                V.ensures('all other exchanges are kept as they are', V.same(a, b))


def give_constrained(rng, ins, g, key='data'):
    """Markets with one constrained exchange, targets with one product and one matching input."""
    data = ins[key]
    for ds in data:
        for e in ds['exchanges']:
            e.pop('conditional exchange', None)
            if e['type'] == 'reference product':
                e['type'] = 'from technosphere'
        for i, e in enumerate(ds['exchanges']):
            e['name'] = 'n%d' % i
    for n, ds in enumerate(data):
        rp = dict(g.value(EXC), type='reference product', name='product %d' % n)
        ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), rp)
    pairs = list(range(len(data)))
    rng.shuffle(pairs)
    for m, t in zip(pairs[::2], pairs[1::2]):
        name = 'shared %d' % m
        c = dict(g.value(EXC), type='byproduct', name=name)
        c.update({'conditional exchange': True, 'activity link': data[t]['id']})
        data[m]['exchanges'].append(c)
        data[t]['exchanges'].append(dict(g.value(EXC), type='from technosphere', name=name))
    return ins


@contract('C23', 'handle_constrained_markets', {'data': List(CDS.with_({'exchanges': List(CEXC.with_({'formula': Maybe(Str())}))}))},
          shape=give_constrained, mode='concrete', tries=400, functions=[Q + 'constrained_markets:handle_constrained_markets'],
          note='changes exchanges of other datasets than the one it iterates over')
def constrained(V, data):
    links = [(ds, e) for ds in data for e in ds['exchanges'] if e.get('conditional exchange')]
    V.requires(all(e['type'] == 'byproduct' and e.get('activity link') for ds, e in links))
    V.requires(len({ds['id'] for ds in data}) == len(data))
    V.requires(all(len([e for e in ds['exchanges'] if e['type'] == 'reference product']) == 1 for ds in data))
    V.requires(len({e['activity link'] for ds, e in links}) == len(links))
    V.requires(not {ds['id'] for ds, e in links} & {e['activity link'] for ds, e in links})
    for ds, e in links:
        t = [t for t in data if t['id'] == e['activity link']]
        V.requires(len(t) == 1)
        V.requires([x['type'] for x in t[0]['exchanges'] if x['name'] == e['name']] == ['from technosphere'])
    old = deepcopy(data)
    out = V.call(handle_constrained_markets, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    targets = {e['activity link']: e for o in old for e in o['exchanges'] if e.get('conditional exchange')}
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        link = targets.get(o['id'])
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a.get('conditional exchange'):
                V.ensures('the constrained exchange becomes an input', b['type'] == 'from technosphere' and b['amount'] == -a['amount'])
            elif link and a['type'] == 'reference product':
                V.ensures('the old product of the target becomes an input', b['type'] == 'from technosphere' and b['amount'] == -a['amount'])
            elif link and a['name'] == link['name']:
                V.ensures('the matching input becomes the product', b['type'] == 'reference product' and b['amount'] == -a['amount'] and
                          b['byproduct classification'] == 'allocatable product')
            else:
                V.ensures('all other exchanges are kept', V.same(a, b))
                continue
            V.ensures('moved exchanges keep the rest', V.same_but(a, b, 'type', 'amount', 'formula', 'byproduct classification'))
            V.ensures('and flip their formula', ('formula' in b) == ('formula' in a) and
                      b.get('formula') == ('-1 * ({})'.format(a['formula']) if 'formula' in a else None))


SUP = Dict({'name': Str(), 'technology level': Str(pool=LEVELS + ['undefined']), 'amount': Num()})
TDS = DATASET.with_({'type': Str(choices=['transforming activity', 'market activity', 'market group']),
                     'technology level': Str(pool=['undefined', 'current', 'new']), 'reference product': Str(pool=['a', 'b']),
                     'suppliers': Maybe(List(SUP))})


@contract('C24', 'prune_suppliers_by_technology_level', {'data': List(TDS)}, functions=[Q + 'market_linking:prune_suppliers_by_technology_level'])
def prune(V, data):
    V.requires(all(ds['type'] == 'transforming activity' or not ds.get('suppliers') or any(s['technology level'] in LEVELS for s in ds['suppliers'])
                   for ds in data))
    old = deepcopy(data)
    out = V.call(prune_suppliers_by_technology_level, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'suppliers'))
        if o['type'] == 'transforming activity' or not o.get('suppliers'):
            V.ensures('activities and markets without suppliers are not changed', V.same(o, n))
        else:
            V.ensures('at least one supplier stays', len(n['suppliers']) >= 1)
            for k, level in enumerate(LEVELS):
                if any(s['technology level'] == level for s in o['suppliers']) and not any(
                        s['technology level'] in LEVELS[:k] for s in o['suppliers']):
                    V.ensures('the suppliers with the best technology stay', V.same(
                        [s for s in o['suppliers'] if s['technology level'] == level], n['suppliers']))


@contract('C24', 'switch_undefined_to_current', {'data': List(TDS)}, functions=[Q + 'technology_levels:switch_undefined_to_current'])
def switch(V, data):
    old = deepcopy(data)
    out = V.call(switch_undefined_to_current, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] == 'transforming activity' and o['technology level'] == 'undefined':
            V.ensures('undefined becomes current', n['technology level'] == 'current' and V.same_but(o, n, 'technology level'))
        else:
            V.ensures('everything else is kept', V.same(o, n))


@contract('C24', 'log_conflicting_technology_levels', {'data': List(TDS)}, functions=[Q + 'technology_levels:log_conflicting_technology_levels'])
def conflicts(V, data):
    old = deepcopy(data)
    out = V.call(log_conflicting_technology_levels, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('nothing is changed', V.same(old, data))


@contract('C24', 'cleanup_technology_levels', {'n': Num(pool=[0])}, mode='concrete', tries=1, functions=[Q + 'technology_levels:cleanup_technology_levels'])
def both(V, n):
    V.ensures('conflicts are logged before they are resolved',
              list(cleanup_technology_levels) == [log_conflicting_technology_levels, switch_undefined_to_current])


@contract('C24', 'ensure_byproducts_have_alternative_production', {'data': List(DATASET)},
          functions=[Q + 'byproducts:ensure_byproducts_have_alternative_production'])
def alternative(V, data):
    old = deepcopy(data)
    out = V.call(ensure_byproducts_have_alternative_production, data)
    V.ensures('nothing is changed', V.same(old, data))
    missing = any(e['type'] == 'byproduct' and not any(p['type'] == 'reference product' and p['name'] == e['name']
                                                       for d in data for p in d['exchanges']) for ds in data for e in ds['exchanges'])
    if missing:
        V.ensures('a byproduct nobody else makes is refused', out.exc is MissingAlternativeProducer)
    else:
        V.ensures('the rest is accepted', out.exc is None and out.value is data)
