# -*- coding: utf-8 -*-
"""C09: hard (activity) links."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.errors import UnresolvableActivityLink, ZeroProduction
from ocelot.transformations.utils import get_biggest_pv_to_exchange_ratio
from ocelot.transformations.activity_links import (
    add_hard_linked_production_volumes, check_activity_link_validity, fix_35_activity_links,
    update_activity_link_parent_child, update_transforming_activity_production_volumes)

A = 'ocelot.transformations.activity_links:'
RATIO = 'ocelot.transformations.utils:get_biggest_pv_to_exchange_ratio'

IDS = ['i', 'j', 'k']
LPV = Dict({'amount': Num(), 'subtracted activity link volume': Maybe(Num()), 'original amount': Maybe(Num())})
LEXC = EXC.with_({'activity link': Maybe(Opt(Str(pool=IDS + [''])) ), 'production volume': Maybe(LPV)})
LDS = DATASET.with_({'id': Str(pool=IDS, unique=True), 'type': Str(pool=['transforming activity', 'market activity']),
                     'parent': Opt(Str(pool=IDS)), 'exchanges': List(LEXC)})

ratio = abstract('biggest ratio', lambda i: None)


@summary(RATIO)
def biggest_ratio(dataset):
    """A function of the dataset (C03), which the callers do not change."""
    return ratio(dataset['id'])


def give_links(rng, ins, g, key='data'):
    """Unique ids, links to existing datasets and products most of the time."""
    give_all_classes(rng, ins, g, key)
    ids = [ds['id'] for ds in ins[key]]
    for ds in ins[key]:
        for e in ds['exchanges']:
            if rng.random() < .8:
                if e.get('activity link'):
                    t = rng.choice(ins[key])
                    e['activity link'] = t['id']
                    ps = [x for x in t['exchanges'] if allocatable(x)]
                    if ps:
                        e['name'] = rng.choice(ps)['name']
            if rng.random() < .9:
                e.setdefault('production volume', {'amount': g.num(Num())})
        ds['parent'] = rng.choice(ids + [None, 'elsewhere', ''])
    if rng.random() < .7:       # product names unique within a dataset
        for ds in ins[key]:
            seen = set()
            for e in ds['exchanges']:
                if allocatable(e):
                    if e['name'] in seen:
                        e['type'] = 'from technosphere'
                    seen.add(e['name'])
    return ins


def links(ds):
    return [e for e in ds['exchanges'] if e.get('activity link')]


def by_id(data):
    return {ds['id']: ds for ds in data}


def goals(ds, e):
    return [x for x in allocatables(ds) if x['name'] == e['name']]


def allocatables(ds):
    return [e for e in ds['exchanges'] if allocatable(e)]


@contract('C09', 'check_activity_link_validity', {'data': List(LDS)}, shape=give_links,
          budget=200,
          functions=[A + 'check_activity_link_validity'])
def validity(V, data):
    V.requires(all(classified(ds) for ds in data))
    ids = by_id(data)
    bad = any(e['activity link'] not in ids or len(goals(ids[e['activity link']], e)) != 1 for ds in data for e in links(ds))
    old = deepcopy(data)
    out = V.call(check_activity_link_validity, data)
    V.ensures('changes nothing', V.same(old, data))
    if bad:
        V.ensures('a link without exactly one target product is refused', out.exc is UnresolvableActivityLink)
    else:
        V.ensures('resolvable links are accepted', out.exc is None and out.value is data)


@contract('C09', 'update_transforming_activity_production_volumes', {'data': List(LDS)}, shape=give_links,
          functions=[A + 'update_transforming_activity_production_volumes'])
def update_ta(V, data):
    V.requires(all(classified(ds) for ds in data))
    V.requires(all('production volume' in e for ds in data for e in ds['exchanges'] if allocatable(e)))
    old = deepcopy(data)
    out = V.call(update_transforming_activity_production_volumes, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if o['type'] == 'transforming activity' and allocatable(a) and 'subtracted activity link volume' in a['production volume']:
                p, q = a['production volume'], b['production volume']
                V.ensures('available volume is what the links leave, never negative',
                          V.eq(q['amount'], max(p['amount'] - p['subtracted activity link volume'], 0)))
                V.ensures('original volume kept', V.eq(q['original amount'], p['amount']))
                V.ensures('nothing else of the volume', V.same_but(p, q, 'amount', 'original amount'))
                V.ensures('nothing else of the exchange', V.same_but(a, b, 'production volume'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


@contract('C09', 'update_activity_link_parent_child', {'data': List(LDS)}, shape=give_links,
          functions=[A + 'update_activity_link_parent_child'])
def parent_child(V, data):
    V.requires(all(classified(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(update_activity_link_parent_child, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if o['parent'] and not allocatable(a) and a.get('activity link') == o['parent']:
                V.ensures('links to the parent dataset lead to the child', b['activity link'] == o['id'])
                V.ensures('only the link changes', V.same_but(a, b, 'activity link'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


GHOST = '25edb027-d7c0-4756-a051-cab82e4f6248'


@contract('C09', 'fix_35_activity_links', {'data': List(LDS.with_({'exchanges': List(LEXC.with_({'activity link': Maybe(Str(pool=[GHOST, 'i', '']))}))}))},
          functions=[A + 'fix_35_activity_links'])
def fix35(V, data):
    old = deepcopy(data)
    out = V.call(fix_35_activity_links, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a.get('activity link') == GHOST:
                V.ensures('the known broken link is removed', 'activity link' not in b)
                V.ensures('nothing else of the exchange', V.same_but(a, b, 'activity link'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


def claims(data, ids, x):
    """What the links which resolve to the product x consume."""
    return sum(e['amount'] * get_biggest_pv_to_exchange_ratio(ds) for ds in data for e in links(ds)
               if e['activity link'] != ds['id'] and goals(ids[e['activity link']], e)[0] is x)


@contract('C09', 'add_hard_linked_production_volumes', {'data': List(LDS)}, shape=give_links, uses=[RATIO], budget=300,
          functions=[A + 'add_hard_linked_production_volumes'])
def hard(V, data):
    V.requires(all(classified(ds) for ds in data))
    V.requires(all('production volume' in e for ds in data for e in ds['exchanges'] if allocatable(e)))
    V.requires(all(any(e['type'] == 'reference product' and e['amount'] != 0 for e in ds['exchanges']) for ds in data))
    ids = by_id(data)
    V.requires(all(e['activity link'] in ids and len(goals(ids[e['activity link']], e)) == 1 for ds in data for e in links(ds)))
    old = deepcopy(data)
    ids = by_id(old)
    out = V.call(add_hard_linked_production_volumes, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if not allocatable(a):
                V.ensures('exchanges which are not products unchanged', V.same(a, b))
                continue
            V.ensures('nothing else of a product changes', V.same_but(a, b, 'production volume'))
            p, q = a['production volume'], b['production volume']
            V.ensures('nothing else of a volume changes', V.same_but(p, q, 'subtracted activity link volume'))
            V.ensures('the claimed volume is the total of what the links consume',
                      V.eq(q.get('subtracted activity link volume', 0),
                           p.get('subtracted activity link volume', 0) + claims(old, ids, a)))
