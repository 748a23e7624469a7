# -*- coding: utf-8 -*-
"""C14: who supplies a consumer.  C25: who supplies a market group, and its volume."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *
from .c01_scaling import SCALE
from .c12_suppliers import PLACES, faces, union, rest_of_world, disjoint
from .c13_markets import MDS, give_exchange, split, unlinked

from ocelot.errors import MarketGroupError, MissingSupplier
from ocelot.transformations.locations.linking import link_consumers_to_markets
from ocelot.transformations.locations.market_groups import link_market_group_suppliers
from ocelot.transformations.locations.markets import allocate_all_market_suppliers, update_market_production_volumes

T_ = 'ocelot.transformations.locations.'

contract('C14', 'allocate_suppliers: splitting an input', {'ds': MDS, 'key': Str()}, uses=[SCALE], shape=give_exchange,
         functions=[T_ + 'markets:allocate_suppliers'])(split)

SPV = Dict({'amount': NonNeg(), 'original amount': Maybe(NonNeg()), 'subtracted activity link volume': Maybe(NonNeg())})
CEXC = Dict({'id': Str(unique=True), 'name': Str(), 'type': Str(), 'amount': Num(), 'unit': Str(), 'uncertainty': UNC(), 'code': Maybe(Str()), 'production volume': SPV})
CDS = Dict({'name': Str(), 'location': Str(pool=PLACES), 'type': Str(), 'reference product': Str(), 'code': Str(), 'exchanges': List(CEXC)})


def product(ds):
    return next(e for e in ds['exchanges'] if e['type'] == 'reference product')


def volume(rng):
    pv = {'amount': float(rng.choice([0, 0, 1, 2, 5]))}
    if rng.random() < .3:
        pv['original amount'] = pv['amount'] + 2
    if rng.random() < .3:
        pv['subtracted activity link volume'] = float(rng.choice([0, 1, 3]))
    return pv


def give_supply(rng, ins, g):
    """Markets and groups of two products, consumers of both and of others."""
    data, n = [], [0]

    def exchange(name, kind, **kw):
        n[0] += 1
        return dict({'id': 'e%d' % n[0], 'name': name, 'type': kind, 'amount': float(rng.choice([1, 2, -3, 0.5])), 'unit': 'kg'}, **kw)

    def dataset(name, kind, rp, place):
        data.append({'name': name, 'type': kind, 'reference product': rp, 'location': place, 'code': '%s|%s|%s|%s' % (name, kind, rp, place),
                     'exchanges': [exchange(rp, 'reference product', **{'production volume': volume(rng)})]})
        for _ in range(rng.randint(0, 3)):
            e = exchange(rng.choice(['a', 'b', 'b', 'refinery gas' if rng.random() < .3 else 'a', 'c' if rng.random() < .05 else 'b']), 'from technosphere')
            if rng.random() < .2:
                e['code'] = rng.choice(['', 'linked'])
            if rng.random() < .3:
                e['uncertainty'] = {'type': 'undefined', 'minimum': -5., 'maximum': 5.}
            data[-1]['exchanges'].append(e)
        if rng.random() < .2:
            data[-1]['exchanges'].append(exchange('a', 'from environment'))
    groups = [p for p in PLACES if p != 'RoW']
    for rp in ['a', 'b', 'refinery gas'] if rng.random() < .1 else ['a', 'b']:
        places = disjoint(rng, rng.randint(1, 4))
        if rng.random() < .4:
            places = ['RoW'] + [p for p in places if p not in ('GLO', 'RoW')]
        for place in places:
            dataset('market for ' + rp, 'market activity', rp, place)
        for place in rng.sample(groups, rng.choice([0, 0, 1, 2, 3, 4])):
            dataset('market group for ' + rp, 'market group', rp, place)
    for i in range(rng.randint(0, 3)):
        for place in rng.sample(PLACES, rng.randint(1, 3)):
            dataset('making %d' % i, 'transforming activity', 'p%d' % i, place)
    rng.shuffle(data)
    return {'data': data}


def wellformed(data):
    ids = [e['id'] for d in data for e in d['exchanges']]
    keys = [(d['type'], d['reference product'], d['location']) for d in data if d['type'] != 'transforming activity']
    known = {'market activity', 'market group', 'transforming activity'}
    return (len(set(ids)) == len(ids) and len(set(keys)) == len(keys) and len({d['code'] for d in data}) == len(data) and
            all(d['location'] in PLACES and d['type'] in known and d['code'] for d in data) and
            all([e['type'] for e in d['exchanges']].count('reference product') == 1 and 'production volume' in product(d) for d in data) and
            not any(d['type'] == 'market group' and d['location'] == 'RoW' for d in data))


def fill(area, candidates):
    """From large to small, those within ``area`` that are not covered by a larger one.

    The rest of the world (a market) does not cover other markets or what groups consist of."""
    out, left = [], set(area)
    for place, f in candidates:
        if f and f <= left:
            out.append(place)
            if place != 'RoW':
                left -= f
    return out


def suppliers(area, offers, row):
    places = {}
    for d in sorted(offers, key=lambda d: d['type'] == 'market activity'):      # markets are preferred to groups
        places[d['location']] = d
    cand = sorted(((p, faces(p, row)) for p in places), key=lambda c: (len(c[1]), c[0]), reverse=True)
    return places, cand


def covering(area, cand):
    """The smallest one that contains ``area``."""
    for place, f in reversed(cand):
        if area and area <= f:
            return [place]
    return []


@contract('C14', 'link_consumers_to_markets', {'data': List(CDS)}, shape=give_supply, mode='concrete', tries=1200,
          functions=[T_ + 'linking:link_consumers_to_markets', T_ + 'markets:allocate_suppliers'], note='sets of faces from geographic data; the areas already found steer the loop')
def consumers(V, data):
    V.requires(wellformed(data))
    old = deepcopy(data)
    offers = {}
    for d in old:
        if d['type'] != 'transforming activity':
            offers.setdefault(d['reference product'], []).append(d)
    missing = any(unlinked(e) and e['name'] not in offers and e['name'] != 'refinery gas'
                  for d in old if d['type'] != 'market group' for e in d['exchanges'])
    out = V.call(link_consumers_to_markets, data)
    if missing:
        V.ensures('a product without a market stops the model', out.exc is MissingSupplier)
        return
    V.ensures('never fails otherwise', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] == 'market group':
            V.ensures('market groups are not changed', V.same(o, n))
            continue
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        others = [d['location'] for d in old if d['type'] == o['type'] and d['name'] == o['name']]
        area = faces(o['location'], rest_of_world(others))
        got = {}
        for e in n['exchanges']:
            got.setdefault(e['id'], []).append(e)
        V.ensures('no other exchanges appear', set(got) == {e['id'] for e in o['exchanges']})
        for e in o['exchanges']:
            mine = got[e['id']]
            if not unlinked(e) or e['name'] not in offers:
                V.ensures('other exchanges are not changed', len(mine) == 1 and V.same(e, mine[0]))
                continue
            markets = [d['location'] for d in offers[e['name']] if d['type'] == 'market activity']
            places, cand = suppliers(area, offers[e['name']], rest_of_world(markets) if 'RoW' in markets else set())
            who = fill(area, cand) or covering(area, cand)
            pvs = {places[p]['code']: product(places[p])['production volume']['amount'] for p in who}
            total = sum(pvs.values())
            if len(who) == 1:
                V.ensures('a single supplier supplies all', len(mine) == 1 and mine[0].get('code') == list(pvs)[0] and V.same_but(e, mine[0], 'code'))
            elif total == 0:
                V.ensures('without suppliers or volumes it stays unlinked', len(mine) == 1 and V.same(e, mine[0]))
            else:
                V.ensures('the suppliers are the largest ones within the consumer, or the smallest around it',
                          sorted(m.get('code', '') for m in mine) == sorted(c for c in pvs if pvs[c]))
                V.ensures('they share by production volume', all(V.eq(m['amount'], e['amount'] * pvs[m['code']] / total) for m in mine))
                V.ensures('and add up', V.eq(sum(m['amount'] for m in mine), e['amount']))
                V.ensures('everything else is kept', all(V.same_but(e, m, 'amount', 'uncertainty', 'code', 'tag') for m in mine))
                if 'uncertainty' in e:
                    V.ensures('uncertainty is scaled too', all(V.eq(m['uncertainty']['maximum'] - m['uncertainty']['minimum'],
                              abs(pvs[m['code']] / total) * (e['uncertainty']['maximum'] - e['uncertainty']['minimum'])) for m in mine))


# ------------------------------------------------------------------- C25
GROUPS = [T_ + 'market_groups:link_market_group_suppliers']


@contract('C25', 'link_market_group_suppliers', {'data': List(CDS)}, shape=give_supply, mode='concrete', tries=1200,
          functions=GROUPS, note='sets of faces from geographic data; the areas already found steer the loop')
def groups(V, data):
    V.requires(wellformed(data))
    old = deepcopy(data)
    out = V.call(link_market_group_suppliers, data)
    names = {}
    for d in old:
        if d['type'] == 'market group':
            names.setdefault(d['reference product'], set()).add(d['name'])
    if any(len(s) > 1 for s in names.values()):
        V.ensures('groups of one product with different names are refused', out.exc is MarketGroupError and V.same(old, data))
        return
    V.ensures('never fails otherwise', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] != 'market group':
            V.ensures('other datasets are not changed', V.same(o, n))
            continue
        V.ensures('only the suppliers are added', V.same_but(o, n, 'suppliers'))
        offers = [d for d in old if d['type'] != 'transforming activity' and d['reference product'] == o['reference product']]
        markets = [d['location'] for d in offers if d['type'] == 'market activity']
        area = faces(o['location'])
        places, cand = suppliers(area, offers, rest_of_world(markets) if 'RoW' in markets else set())
        cand = [(p, f) for p, f in cand if places[p]['code'] != o['code']]      # nothing supplies itself
        want = [places[p] for p in fill(area, cand)]
        V.ensures('the suppliers are the largest markets and groups within the group, by code, with their product',
                  n.get('suppliers') == [dict(product(d), location=d['location'], code=d['code'], activity=d['name'])
                                         for d in sorted(want, key=lambda d: d['code'])])


@contract('C25', 'volumes and inputs of market groups', {'data': List(CDS)}, shape=give_supply, mode='concrete', tries=800,
          functions=GROUPS + [T_ + 'markets:update_market_production_volumes', T_ + 'markets:allocate_all_market_suppliers'],
          note='order by sets of faces from geographic data')
def volumes(V, data):
    V.requires(wellformed(data))
    V.requires(all(d['name'] == 'market group for ' + d['reference product'] for d in data if d['type'] == 'market group'))
    V.requires(len({frozenset(faces(d['location'])) for d in data}) == len({d['location'] for d in data}))
    V.call(link_market_group_suppliers, data)
    old = deepcopy(data)
    out = V.call(update_market_production_volumes, data, 'market group')
    V.ensures('never fails', out.exc is None and out.value is data)
    by_code = {d['code']: d for d in data}
    for o, n in zip(old, data):
        if o['type'] != 'market group':
            V.ensures('other datasets are not changed', V.same(o, n))
            continue
        V.ensures('only volumes change', V.same_but(o, n, 'exchanges', 'suppliers') and o['exchanges'][1:] == n['exchanges'][1:] and
                  len(o['suppliers']) == len(n['suppliers']))
        for s, t in zip(o['suppliers'], n['suppliers']):
            V.ensures('of suppliers too', V.same_but(s, t, 'production volume'))
            V.ensures('suppliers have the volume of their dataset', V.eq(
                t['production volume']['amount'], product(by_code[t['code']])['production volume']['amount']))
        p, q = product(o)['production volume'], product(n)['production volume']
        left = sum(t['production volume']['amount'] for t in n['suppliers']) - p.get('subtracted activity link volume', 0)
        V.ensures('the volume of a group is that of its suppliers minus the links to it', V.eq(q['amount'], max(left, 0)))
        V.ensures('nothing else of the product changes', V.same_but(product(o), product(n), 'production volume') and
                  V.same_but(p, q, 'amount', 'original total'))
    old = deepcopy(data)
    out = V.call(allocate_all_market_suppliers, data, 'market group')
    V.ensures('sharing never fails', out.exc is None and out.value is data)
    for o, n in zip(old, data):
        if o['type'] != 'market group':
            V.ensures('sharing does not change others', V.same(o, n))
            continue
        total = sum(s['production volume']['amount'] for s in o['suppliers'])
        k = len(o['exchanges'])
        V.ensures('exchanges are kept', V.same(o['exchanges'], n['exchanges'][:k]))
        new = n['exchanges'][k:]
        if total == 0 and len(o['suppliers']) != 1:
            V.ensures('nothing to share', new == [])
        else:
            want = [(s['code'], product(o)['amount'] * (s['production volume']['amount'] / total if total else 1.))
                    for s in o['suppliers'] if s['production volume']['amount'] or not total]
            V.ensures('suppliers share the product by volume', [e['code'] for e in new] == [c for c, _ in want] and
                      all(V.eq(e['amount'], a) for e, (_, a) in zip(new, want)))
