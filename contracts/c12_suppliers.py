# -*- coding: utf-8 -*-
"""C12, C15: who supplies a market: the algebra of locations and its use."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.errors import OverlappingActivities, MultipleGlobalDatasets, MarketGroupError
from ocelot.transformations.locations import topology, RC_STRING
from ocelot.transformations.locations.market_groups import check_no_row_market_groups
from ocelot.transformations.locations.markets import (
    add_suppliers_to_markets, add_recycled_content_suppliers_to_markets, apportion_market_suppliers_to_consumers)
from ocelot.transformations.locations.validation import check_single_global_dataset, no_overlaps

T_ = 'ocelot.transformations.locations.'
TOP = T_ + '_topology:Topology.'
PLACES = ['GLO', 'RoW', 'RER', 'RNA', 'RLA', 'RAS', 'CA', 'CA-QC', 'Canada without Quebec', 'US', 'US-WECC', 'CN', 'DE', 'FR', 'CH', 'BR', 'NL', 'NO',
          'ENTSO-E', 'Europe without Switzerland', 'RER w/o DE+NL+NO', 'UN-EUROPE', 'NORDEL']
ALL = topology.data['GLO']


def faces(place, row=frozenset()):
    """What is covered by a place; ``row`` is what RoW means."""
    if isinstance(place, (set, frozenset)):
        return set(place)
    return set(row) if place == 'RoW' else set(topology.data[place])


def union(places):
    out = set()
    for p in places:
        out |= faces(p)
    return out


def rest_of_world(places):
    return ALL - union(places)


def overlap(places):
    return any(faces(a) & faces(b) for i, a in enumerate(places) for b in places[:i]) or ('GLO' in places and len(places) > 1)


def disjoint(rng, n, among=PLACES):
    out = []
    for p in rng.sample(among, min(n * 3, len(among))):
        if len(out) < n and not overlap(out + [p]):
            out.append(p)
    return out


# ------------------------------------------------------------------- C15
L3 = List(Str(pool=PLACES))


def give_places(rng, ins, g):
    ins = {'parent': rng.choice(PLACES), 'child': rng.choice(PLACES), 'less': disjoint(rng, rng.randint(0, 2), PLACES[2:]),
           'others': rng.sample(PLACES, rng.randint(1, 4)), 'row': rng.random() < .6}
    if rng.random() < .3:
        ins['child'] = ins['parent']
    return ins


GEO = {'parent': Str(pool=PLACES), 'child': Str(pool=PLACES), 'less': L3, 'others': L3, 'row': Bool()}


def known(*places):
    return all(p in PLACES for p in places)


@contract('C15', 'Topology.contains', GEO, shape=give_places, mode='concrete', tries=3000,
          functions=[TOP + 'contains', TOP + '_contains', TOP + 'resolve_row', TOP + '__call__'], note='sets of faces from geographic data')
def contains(V, parent, child, less, others, row):
    V.requires(known(parent, child, *(less + others)) and len(others) > 0)
    rows = rest_of_world(others)
    out = V.call(topology.resolve_row, others)
    V.ensures('the rest of the world is the world without the others', out.exc is None and out.value == rows)
    res = V.call(topology.contains, parent, child, list(less), set(rows) if row else None)
    V.ensures('never fails', res.exc is None)
    F = faces(parent, rows if row else ()) - union(less)
    if child != 'RoW' and (parent != 'RoW' or row) and faces(child):
        V.ensures('a place contains what it covers', bool(res.value) == (faces(child) <= F))
    elif child == 'RoW' and parent == 'GLO':
        V.ensures('the world contains its rest unless something is taken away', bool(res.value) == (not less))
    elif child == 'RoW':
        V.ensures('an unknown rest of the world is contained nowhere else', not res.value)
    res = V.call(topology.contains, parent, set(rows), list(less), set(rows) if row else None)
    V.ensures('a known rest of the world is contained in what covers it',
              res.exc is None and bool(res.value) == (bool(rows) and rows <= F))
    if parent != 'RoW' or row:
        res = V.call(topology.contains, set(faces(parent, rows)), child, list(less))
        if child != 'RoW':
            V.ensures('places and sets of faces mean the same', res.exc is None and bool(res.value) == (faces(child) <= F))


@contract('C15', 'Topology.contained', GEO, shape=give_places, mode='concrete', tries=600,
          functions=[TOP + 'contained', TOP + '_contained'], note='sets of faces from geographic data')
def contained(V, parent, child, less, others, row):
    V.requires(known(parent, child, *(less + others)) and len(others) > 0)
    rows = rest_of_world(others)
    r = set(rows) if row else None
    F = (faces(parent, rows if row else ())) - union(less)
    out = V.call(topology.contained, parent, False, list(less), r)
    V.ensures('never fails', out.exc is None)
    got = set(out.value)
    V.ensures('exactly the places covered are contained', got - {'RoW'} == ({k for k, v in topology.data.items() if v <= F} if F else set()))
    if row:
        V.ensures('the rest of the world too', ('RoW' in got) == (bool(rows) and bool(F) and rows <= F))
    else:
        V.ensures('an unknown rest only in the whole world', ('RoW' in got) == (parent == 'GLO' and not less))
    out = V.call(topology.contained, parent, True, list(less), r)
    V.ensures('without the place itself if asked', out.exc is None and set(out.value) == got - {parent})


@contract('C15', 'Topology.ordered_dependencies / overlaps', GEO, shape=give_places, mode='concrete', tries=600,
          functions=[TOP + 'ordered_dependencies', TOP + '_ordered_dependencies', TOP + 'overlaps'], note='sets of faces from geographic data')
def ordered(V, parent, child, less, others, row):
    V.requires(known(parent, child, *(less + others)) and len(others) > 0)
    places = others + less + [child]
    rows = rest_of_world(others) if row else set()
    out = V.call(topology.ordered_dependencies, [{'location': p} for p in places], set(rows))
    V.ensures('each place once', out.exc is None and sorted(out.value) == sorted(set(places)))
    sizes = [len(faces(p, rows)) for p in out.value]
    V.ensures('from large to small', sizes == sorted(sizes, reverse=True))
    again = V.call(topology.ordered_dependencies, [{'location': p} for p in reversed(places)], set(rows))
    V.ensures('whatever the order of the datasets', again.value == out.value)
    out = V.call(topology.overlaps, list(places))
    V.ensures('overlaps are found', out.exc is None and bool(out.value) == any(
        faces(a) & faces(b) for i, a in enumerate(places) for b in places[:i]))
    for a, b in topology.compatibility:
        V.ensures('old and new names mean the same', topology.data[a] == topology.data[b])


PDS = Dict({'location': Str(pool=['GLO', 'RoW', 'CH'])})


@contract('C15', 'check_single_global_dataset', {'data': List(PDS)}, functions=[T_ + 'validation:check_single_global_dataset'])
def one_world(V, data):
    old = deepcopy(data)
    out = V.call(check_single_global_dataset, data)
    V.ensures('nothing is changed', V.same(old, data))
    if len([d for d in data if d['location'] == 'GLO']) > 1:
        V.ensures('several global datasets are refused', out.exc is MultipleGlobalDatasets)
    else:
        V.ensures('anything else is fine', out.exc is None)


@contract('C15', 'check_no_row_market_groups', {'data': List(PDS.with_({'type': Str(choices=['market group', 'market activity'])}))},
          functions=[T_ + 'market_groups:check_no_row_market_groups'])
def no_row(V, data):
    old = deepcopy(data)
    out = V.call(check_no_row_market_groups, data)
    V.ensures('nothing is changed', V.same(old, data))
    if any(d['type'] == 'market group' and d['location'] == 'RoW' for d in data):
        V.ensures('market groups for the rest of the world are refused', out.exc is MarketGroupError)
    else:
        V.ensures('anything else is fine', out.exc is None and out.value is data)


# ------------------------------------------------------------------- C12
CEXC = Dict({'name': Str(), 'type': Str(), 'amount': Num(), 'unit': Str(), 'production volume': PV})
WDS = Dict({'name': Str(), 'location': Str(pool=PLACES), 'type': Str(), 'reference product': Str(), 'code': Str(),
            'technology level': Maybe(Str(pool=['current'])), 'exchanges': List(CEXC), 'suppliers': Maybe(List(Dict({'name': Str()})))})


def dataset(rng, g, name, kind, rp, place):
    ds = {'name': name, 'location': place, 'type': kind, 'reference product': rp, 'code': '%s|%s|%s|%s' % (name, kind, rp, place),
          'exchanges': [{'name': rp, 'type': 'reference product', 'amount': 1., 'unit': 'kg', 'production volume': {'amount': float(rng.randint(0, 5))}},
                        {'name': 'other', 'type': 'from technosphere', 'amount': 2., 'unit': 'kg'}]}
    if rng.random() < .5:
        ds['technology level'] = 'current'
    return ds


def give_world(rng, ins, g, key='data'):
    data = []
    for rp in ['a', 'b']:
        for place in disjoint(rng, rng.randint(1, 3)):
            data.append(dataset(rng, g, 'market for ' + rp, 'market activity', rp, place))
            if rng.random() < .1:
                data[-1]['suppliers'] = [{'name': 'already there'}]
        for name in ['making ' + rp, 'another ' + rp]:
            for place in disjoint(rng, rng.randint(0, 3)):
                data.append(dataset(rng, g, name, 'transforming activity', rp, place))
        for place in disjoint(rng, rng.randint(0, 2)):
            data.append(dataset(rng, g, rp + RC_STRING, 'transforming activity', rp + RC_STRING, place))
        if rng.random() < .3:
            data.append(dataset(rng, g, 'group for ' + rp, 'market group', rp, 'GLO'))
    if rng.random() < .1:
        rng.choice(data)['location'] = rng.choice(PLACES)
    rng.shuffle(data)
    return {key: data}


def wellformed(data):
    return (len({d['code'] for d in data}) == len(data) and all(d['location'] in PLACES for d in data) and
            all([e['type'] for e in d['exchanges']].count('reference product') == 1 for d in data))


def supplied(V, data, call, suffix, skip):
    V.requires(wellformed(data))
    old = deepcopy(data)
    out = V.call(call, data)
    groups = {}
    for d in old:
        if d['type'] == 'market activity' and not (skip and d.get('suppliers')):
            groups.setdefault(d['reference product'], []).append(d)
    makers = {}
    for d in old:
        if d['type'] == 'transforming activity':
            makers.setdefault(d['reference product'], {}).setdefault(d['name'], []).append(d)
    places = lambda l: [d['location'] for d in l]
    for rp, ms in groups.items():
        V.requires(len(set(places(ms))) == len(ms))
    bad = False
    for rp, ms in groups.items():
        if overlap(places(ms)) or any(overlap(places(l)) for l in makers.get(rp + suffix, {}).values()):
            bad = True
    if bad:
        V.ensures('overlapping markets or suppliers are refused', out.exc is OverlappingActivities)
        return
    V.ensures('never fails otherwise', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        mine = groups.get(o['reference product'], [])
        if not any(m is o for m in mine):
            V.ensures('other datasets are not changed', V.same(o, n))
            continue
        V.ensures('markets get suppliers only', V.same_but(o, n, 'suppliers'))
        area = faces(o['location'], rest_of_world(places(mine)))
        want = list(o.get('suppliers', []))
        for name, l in makers.get(o['reference product'] + suffix, {}).items():
            for s in l:
                covered = faces(s['location'], rest_of_world(places(l)))
                if covered and covered <= area:
                    rp = [e for e in s['exchanges'] if e['type'] == 'reference product'][0]
                    e = dict(rp, location=s['location'], code=s['code'], activity=s['name'])
                    if 'technology level' in s:
                        e['technology level'] = s['technology level']
                    want.append(e)
        if suffix and not makers.get(o['reference product'] + suffix):
            V.ensures('nothing to add', V.same(o, n))
            continue
        k = lambda e: e.get('code', '')
        V.ensures('exactly the activities located within the market supply it, with their data',
                  sorted(n['suppliers'], key=k) == sorted(want, key=k))


@contract('C12', 'add_suppliers_to_markets', {'data': List(WDS)}, shape=give_world, mode='concrete', tries=1500,
          functions=[T_ + 'markets:add_suppliers_to_markets', T_ + 'markets:apportion_market_suppliers_to_consumers', T_ + 'validation:no_overlaps'],
          note='sets of faces from geographic data')
def by_product(V, data):
    supplied(V, data, add_suppliers_to_markets, '', True)


@contract('C12', 'add_recycled_content_suppliers_to_markets', {'data': List(WDS)}, shape=give_world, mode='concrete', tries=1500,
          functions=[T_ + 'markets:add_recycled_content_suppliers_to_markets'], note='sets of faces from geographic data')
def by_recycled(V, data):
    V.requires(all(not d.get('suppliers') for d in data))
    supplied(V, data, add_recycled_content_suppliers_to_markets, RC_STRING, False)
