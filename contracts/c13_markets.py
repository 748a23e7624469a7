# -*- coding: utf-8 -*-
"""C13: markets: shares of the suppliers and production volumes."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE

from ocelot.transformations.locations.markets import (
    allocate_suppliers, allocate_all_market_suppliers, annotate_exchange, delete_suppliers_list, update_market_production_volumes)
from ocelot.errors import InvalidMultioutputDataset

M = 'ocelot.transformations.locations.markets:'

SPV = Dict({'amount': NonNeg(), 'original amount': Maybe(NonNeg()), 'subtracted activity link volume': Maybe(NonNeg())})
SUPPLY = Dict({'name': Str(), 'unit': Str(), 'amount': Num(), 'type': Str(), 'code': Str(), 'location': Str(), 'production volume': SPV})
MEXC = EXC.with_({'id': Str(unique=True), 'production volume': Maybe(SPV), 'code': Maybe(Str())})
MDS = DATASET.with_({'type': Str(pool=['transforming activity', 'market activity', 'market group']), 'id': Str(unique=True),
                     'reference product': Str(), 'exchanges': List(MEXC), 'suppliers': List(SUPPLY)})


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def total(ds):
    return sum(s['production volume']['amount'] for s in ds['suppliers'])


@contract('C13', 'allocate_suppliers', {'ds': MDS}, functions=[M + 'allocate_suppliers'])
def shares(V, ds):
    V.requires(len(rps(ds)) == 1)
    old = deepcopy(ds)
    out = V.call(allocate_suppliers, ds)
    rp = rps(old)[0]
    tot = total(old)
    n = len(old['exchanges'])
    V.ensures('never fails', out.exc is None)
    V.ensures('the dataset keeps its attributes', V.same_but(old, ds, 'exchanges', 'suppliers'))
    V.ensures('no exchange is lost or changed', len(ds['exchanges']) >= n and V.same(old['exchanges'], ds['exchanges'][:n]))
    if tot == 0 and len(old['suppliers']) != 1:
        V.ensures('nothing to share', V.same(old, ds) and out.value is None)
    else:
        V.ensures('the dataset is returned', out.value is ds)
        V.ensures('suppliers are kept', len(old['suppliers']) == len(ds['suppliers']))
        for s, t in zip(old['suppliers'], ds['suppliers']):
            V.ensures('suppliers keep all but the volume', V.same_but(s, t, 'production volume') and
                      V.same_but(s['production volume'], t['production volume'], 'amount'))
            if tot != 0:
                V.ensures('known volumes are kept', V.same(s, t))
        new = ds['exchanges'][n:]
        who = [s for s in old['suppliers'] if s['production volume']['amount'] != 0 or tot == 0]
        V.ensures('one input for each supplier with a volume', len(new) == len(who))
        for e, s in zip(new, who):
            V.ensures('an input has the share of its supplier', V.eq(
                e['amount'], rp['amount'] if tot == 0 else s['production volume']['amount'] / tot * rp['amount']))
            V.ensures('and its name, unit and code', e['name'] == s['name'] and e['unit'] == s['unit'] and e['code'] == s['code'])
            V.ensures('it is an unlabelled technosphere input without uncertainty',
                      e['type'] == 'from technosphere' and e['tag'] == 'intermediateExchange' and
                      'production volume' not in e and 'uncertainty' not in e)
        V.ensures('the inputs add up to the product', V.eq(sum(e['amount'] for e in new), rp['amount']))


@contract('C13', 'delete_suppliers_list', {'data': List(MDS.with_({'suppliers': Maybe(List(SUPPLY))}))}, functions=[M + 'delete_suppliers_list'])
def forget(V, data):
    old = deepcopy(data)
    out = V.call(delete_suppliers_list, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('the list of suppliers is gone and nothing else', 'suppliers' not in n and V.same_but(o, n, 'suppliers'))


@contract('C13', 'annotate_exchange', {'exc': SUPPLY, 'ds': DATASET.with_({'code': Maybe(Str()), 'technology level': Maybe(Str())})},
          functions=[M + 'annotate_exchange'])
def annotate(V, exc, ds):
    olde, oldd = deepcopy(exc), deepcopy(ds)
    out = V.call(annotate_exchange, exc, ds)
    V.ensures('never fails', out.exc is None)
    V.ensures('the arguments are not changed', V.same(olde, exc) and V.same(oldd, ds))
    e = out.value
    V.ensures('a copy is returned', e is not exc)
    V.ensures('with all attributes of the exchange', V.same_but(olde, e, 'location', 'code', 'technology level', 'activity'))
    V.ensures('and those of the dataset', e['activity'] == ds['name'] and e['location'] == ds['location'] and
              e['code'] == ds.get('code', olde['code']) and
              ('technology level' in e) == ('technology level' in olde or 'technology level' in ds))
    if 'technology level' in ds:
        V.ensures('and its level', e['technology level'] == ds['technology level'])
    e['production volume']['amount'] = 17
    V.ensures('the volume is copied, not shared', V.same(olde, exc))


def pv(s):
    return s['production volume']


@contract('C13', 'update_market_production_volumes', {'data': List(MDS)}, functions=[M + 'update_market_production_volumes'])
def volumes(V, data):
    V.requires(all('production volume' in e for ds in data for e in rps(ds)))
    V.requires(all(len(rps(ds)) == 1 for ds in data))
    old = deepcopy(data)
    out = V.call(update_market_production_volumes, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] != 'market activity':
            V.ensures('other activities are not changed', V.same(o, n))
        else:
            V.ensures('markets keep their attributes', V.same_but(o, n, 'exchanges'))
            V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
            for a, b in zip(o['exchanges'], n['exchanges']):
                if a['type'] != 'reference product':
                    V.ensures('inputs are not changed', V.same(a, b))
                else:
                    p, q = a['production volume'], b['production volume']
                    V.ensures('only the volume of the product changes', V.same_but(a, b, 'production volume') and
                              V.same_but(p, q, 'amount', 'original total'))
                    left = total(o) - p.get('subtracted activity link volume', 0)
                    V.ensures('it is what the suppliers have left, minus the links to the market',
                              V.eq(q['amount'], left if left > 0 else 0))
                    V.ensures('the total without links is recorded', V.eq(q['original total'], sum(
                        s['production volume'].get('original amount', s['production volume']['amount']) for s in o['suppliers'])))


def unlinked(e):
    return e['type'] == 'from technosphere' and not e.get('code')


def give_exchange(rng, ins, g):
    ids = [e['id'] for e in ins['ds']['exchanges'] if unlinked(e)]
    if ids:
        ins['key'] = rng.choice(ids)
    return ins


@contract('C13', 'allocate_suppliers: splitting an input', {'ds': MDS, 'key': Str()}, uses=[SCALE], shape=give_exchange,
          functions=[M + 'allocate_suppliers'])
def split(V, ds, key):
    V.requires(any(e['id'] == key and unlinked(e) for e in ds['exchanges']))
    V.requires(all(s['code'] != '' for s in ds['suppliers']))
    exc = next(e for e in ds['exchanges'] if e['id'] == key)
    old = deepcopy(ds)
    olde = deepcopy(exc)
    out = V.call(allocate_suppliers, ds, False, exc)
    tot = total(old)
    V.ensures('never fails', out.exc is None)
    V.ensures('the dataset keeps its attributes', V.same_but(old, ds, 'exchanges', 'suppliers'))
    if tot == 0 and len(old['suppliers']) != 1:
        V.ensures('nothing to share', V.same(old, ds))
    else:
        rest = [e for e in old['exchanges'] if e['id'] != key]
        n = len(rest)
        V.ensures('the other exchanges are kept', len(ds['exchanges']) >= n and V.same(rest, ds['exchanges'][:n]))
        new = ds['exchanges'][n:]
        who = [s for s in old['suppliers'] if s['production volume']['amount'] != 0 or tot == 0]
        V.ensures('one input for each supplier with a volume', len(new) == len(who))
        for e, s in zip(new, who):
            V.ensures('an input has the share of its supplier', V.eq(
                e['amount'], olde['amount'] if tot == 0 else s['production volume']['amount'] / tot * olde['amount']))
            V.ensures('is linked to it', e['code'] == s['code'] and e['type'] == 'from technosphere')
            V.ensures('and keeps everything else', V.same_but(olde, e, 'amount', 'uncertainty', 'code', 'tag'))
        V.ensures('the inputs add up to the old input', V.eq(sum(e['amount'] for e in new), olde['amount']))


@contract('C13', 'allocate_all_market_suppliers', {'data': List(MDS)}, functions=[M + 'allocate_all_market_suppliers', M + 'allocate_suppliers'])
def all_shares(V, data):
    V.requires(all(len(rps(ds)) == 1 for ds in data))
    old = deepcopy(data)
    out = V.call(allocate_all_market_suppliers, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] != 'market activity':
            V.ensures('other activities are not changed', V.same(o, n))
        else:
            tot = total(o)
            V.ensures('markets keep their attributes', V.same_but(o, n, 'exchanges', 'suppliers'))
            V.ensures('exchanges are kept', len(n['exchanges']) >= len(o['exchanges']))
            V.ensures('the inputs add up to the product', V.eq(
                sum(e['amount'] for e in n['exchanges']) - sum(e['amount'] for e in o['exchanges']),
                0 if tot == 0 and len(o['suppliers']) != 1 else sum(e['amount'] for e in rps(o))))
