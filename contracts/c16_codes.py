# -*- coding: utf-8 -*-
"""C16: identifying codes and links by code."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.errors import IdenticalDatasets, InvalidMultioutputDataset
from ocelot.transformations.identifying import add_unique_codes
from ocelot.transformations.utils import activity_hash, copy_original_exchange_id
from ocelot.transformations.locations.linking import (
    actualize_activity_links, add_reference_product_codes, link_consumers_to_recycled_content_activities,
    log_and_delete_unlinked_exchanges)
from ocelot.transformations.locations import RC_STRING

L = 'ocelot.transformations.locations.linking:'
U = 'ocelot.transformations.utils:'
HASH = U + 'activity_hash'
FIELDS = ('name', 'reference product', 'unit', 'location', 'start date', 'end date')

HDS = DATASET.with_({'name': Str(pool=['a', 'b', 'A']), 'reference product': Str(pool=['p', 'q']), 'unit': Str(pool=['kg', 'kg', 'KG', 'm3']),
                     'location': Str(pool=['GLO', 'Glo', 'RoW']), 'start date': Str(pool=['200a', '200A', '2001']), 'end date': Str(pool=['201b', '201B', '2011'])})

digest = abstract('digest', lambda *a: activity_hash(dict(zip(FIELDS, a))), sort='str', arity=6)


@summary(HASH)
def hash_of(dataset):
    """A function of the six fields."""
    return digest(dataset.get('name', ''), dataset.get('reference product', ''), dataset.get('unit', ''), dataset.get('location', ''),
                  dataset.get('start date', ''), dataset.get('end date', ''))


def near(rng, ins, g):
    """Datasets that differ in little."""
    if rng.random() < .6:
        f = rng.choice(FIELDS)
        ins['b'].update({k: ins['a'][k] for k in FIELDS if k != f and k in ins['a']})
    return ins


@contract('C16', 'activity_hash', {'a': HDS, 'b': HDS}, mode='concrete', shape=near, functions=[HASH],
          note='strings and MD5 are outside of the logic')
def hashes(V, a, b):
    old = deepcopy(a)
    x, y = V.call(activity_hash, a), V.call(activity_hash, b)
    V.ensures('never fails', x.exc is None and y.exc is None)
    V.ensures('pure', V.same(old, a))
    same = all(a.get(f, '').lower() == b.get(f, '').lower() for f in FIELDS)
    V.ensures('the code depends on the six fields and only on them', (x.value == y.value) == same)


@contract('C16', 'add_unique_codes', {'data': List(HDS)}, uses=[HASH], functions=['ocelot.transformations.identifying:add_unique_codes'])
def unique(V, data):
    old = deepcopy(data)
    out = V.call(add_unique_codes, data)
    clash = any(a is not b and hash_of(a) == hash_of(b) for a in old for b in old)
    if clash:
        V.ensures('datasets that cannot be told apart are refused', out.exc is IdenticalDatasets)
    else:
        V.ensures('all others are accepted', out.exc is None and out.value is data)
        V.ensures('number of datasets', len(old) == len(data))
        for o, n in zip(old, data):
            V.ensures('each dataset gets its own code', n['code'] == hash_of(o))
            V.ensures('and keeps everything else', V.same_but(o, n, 'code'))
        V.ensures('codes are unique', not any(a is not b and a['code'] == b['code'] for a in data for b in data))


@contract('C16', 'copy_original_exchange_id', {'data': List(DATASET.with_({'exchanges': List(EXC.with_({'id': Str()}))}))},
          functions=[U + 'copy_original_exchange_id'])
def originals(V, data):
    old = deepcopy(data)
    out = V.call(copy_original_exchange_id, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            V.ensures('the original id is kept', b['original id'] == a['id'] and V.same_but(a, b, 'original id'))


LEXC = EXC.with_({'activity link': Maybe(Opt(Str(pool=['i', 'j', '']))), 'code': Maybe(Str(pool=['c1', ''])), 'name': Str(pool=['a', 'b'])})
LDS = DATASET.with_({'id': Str(pool=['i', 'j']), 'code': Str(), 'reference product': Str(pool=['a', 'b']), 'exchanges': List(LEXC),
                     'type': Str(pool=['transforming activity', 'market activity'])})


@contract('C16', 'actualize_activity_links', {'data': List(LDS)}, functions=[L + 'actualize_activity_links'])
def actual(V, data):
    V.requires(all(any(t['id'] == e['activity link'] for t in data) for ds in data for e in ds['exchanges'] if e.get('activity link')))
    old = deepcopy(data)
    out = V.call(actualize_activity_links, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if not a.get('activity link'):
                V.ensures('other exchanges are not changed', V.same(a, b))
            else:
                V.ensures('links keep everything else', V.same_but(a, b, 'code'))
                target = [t for t in old if t['id'] == a['activity link'] and t['reference product'] == a['name']]
                if len(target) == 1:
                    V.ensures('a link leads to the one dataset that makes the product', b['code'] == target[0]['code'])
                else:
                    V.ensures('ambiguous links are left alone', V.same(a, b))


@contract('C16', 'add_reference_product_codes', {'data': List(LDS)}, functions=[L + 'add_reference_product_codes'])
def rp_codes(V, data):
    V.requires(all(len([e for e in ds['exchanges'] if e['type'] == 'reference product']) == 1 for ds in data))
    old = deepcopy(data)
    out = V.call(add_reference_product_codes, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a['type'] == 'reference product':
                V.ensures('the product has the code of its dataset', b['code'] == o['code'] and V.same_but(a, b, 'code'))
            else:
                V.ensures('other exchanges are not changed', V.same(a, b))


def unlinked(e):
    return e['type'] == 'from technosphere' and not e.get('code')


RDS = LDS.with_({'reference product': Str(pool=['a', 'a' + RC_STRING, 'b' + RC_STRING]),
                 'exchanges': List(LEXC.with_({'name': Str(pool=['a', 'a' + RC_STRING, 'b' + RC_STRING])}))})


@contract('C16', 'link_consumers_to_recycled_content_activities', {'data': List(RDS)},
          functions=[L + 'link_consumers_to_recycled_content_activities'])
def recycled(V, data):
    old = deepcopy(data)
    out = V.call(link_consumers_to_recycled_content_activities, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            makers = [t for t in old if RC_STRING in t['reference product'] and t['type'] == 'transforming activity' and
                      t['reference product'] == a['name']]
            if unlinked(a) and len(makers) == 1:
                V.ensures('the input is linked to the only producer of recycled content', b['code'] == makers[0]['code'])
                V.ensures('and keeps everything else', V.same_but(a, b, 'code'))
            else:
                V.ensures('other exchanges are not changed', V.same(a, b))


@contract('C16', 'log_and_delete_unlinked_exchanges', {'data': List(LDS)}, functions=[L + 'log_and_delete_unlinked_exchanges'])
def drop_unlinked(V, data):
    old = deepcopy(data)
    out = V.call(log_and_delete_unlinked_exchanges, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('exactly the unlinked inputs are deleted', V.same([e for e in o['exchanges'] if not unlinked(e)], n['exchanges']))
