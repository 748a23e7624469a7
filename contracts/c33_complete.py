# -*- coding: utf-8 -*-
"""C33: what a complete system model delivers.  Bounded: whole runs over small made-up systems."""
import functools
import json
import os
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .c26_pipeline import World

import ocelot.configuration as configuration
from ocelot.errors import (
    IdenticalDatasets, InvalidExchange, InvalidMarket, InvalidMarketExchange, MarketGroupError, MissingAlternativeProducer, MultipleGlobalDatasets,
    ParameterizationError, UnresolvableActivityLink)
from ocelot.model import system_model
from ocelot.io.brightway2 import Brightway2Converter

RARE = Str(choices=['', '', 'x'])
PRODUCT = Dict({'waste': Bool(), 'by': Num(isint=True, pool=[-1, -1, 0, 1, 2]), 'scrap': Num(pool=[0, 0, 2]), 'price': Num(pool=[1, 3]),
                'input': Num(isint=True, pool=[-1, 0, 1, 2]), 'market': Str(choices=['', '', 'DE', 'FR']), 'transport': Num(pool=[0, .1]),
                'group': Str(choices=['', '', 'GLO', 'RER']), 'direct': Bool(), 'land': Bool(),
                'formulas': Bool(), 'links': Bool(), 'swapped': Bool(), 'gas': RARE, 'empty': RARE, 'conditional': RARE, 'opposite': RARE, 'joint': RARE})
ACTIVITY = Dict({'product': Num(isint=True, pool=[0, 1, 2]), 'place': Str(choices=['GLO', 'CH', 'DE', 'FR']), 'amount': Num(pool=[1, 2, .5, 4]),
                 'volume': Num(pool=[1, 2, 5]), 'env': Num(pool=[1, 7]), 'level': Str(choices=['current', 'current', 'new', 'modern', 'old', 'outdated'])})
SYSTEM = {'products': List(PRODUCT, maxlen=3), 'activities': List(ACTIVITY, maxlen=6)}


def exchange(ids, name, type_, amount, **more):
    out = {'id': 'x%d' % len(ids), 'tag': 'elementaryExchange' if 'environment' in type_ else 'intermediateExchange',
           'name': name, 'unit': 'kg', 'amount': float(amount), 'type': type_, 'properties': []}
    ids.append(out['id'])
    if 'environment' not in type_:
        out['conditional exchange'] = False
    out.update({k.replace('_', ' '): v for k, v in more.items()})
    return out


def price(x):
    return [{'id': 'p', 'name': 'price', 'amount': float(x), 'unit': 'EUR2005'}]


def build(products, activities, cutoff=True):
    """Undefined datasets: producers, and one or two markets for each product."""
    data, ids = [], []

    def dataset(name, place, type_, exchanges, level='current', parameters=()):
        data.append({'filepath': '%s-%s.spold' % (name, place), 'id': 'id%d' % len(data), 'parent': None, 'name': name, 'location': place, 'type': type_,
                     'technology level': level, 'start date': '2000-01-01', 'end date': '2010-12-31', 'economic scenario': 'Business-as-Usual',
                     'access restricted': 'public', 'parameters': list(parameters), 'dataset author': 'a', 'data entry': 'b', 'ISIC classification': None,
                     'exchanges': exchanges})
    n = len(products)
    kind = lambda i: 'waste' if products[i]['waste'] else 'allocatable product'
    todo = list(activities)
    for i in range(n):
        # regional markets have producers in their region, and elsewhere
        for place in [products[i]['market'], 'GLO'] if products[i]['market'] else ['GLO'] if not any(int(a['product']) == i for a in todo) else []:
            todo.append({'product': i, 'place': place, 'amount': 1, 'volume': 1, 'env': 1, 'level': 'current'})
    seen = set()
    for a in todo:
        i = int(a['product'])
        if i >= n or (i, a['place']) in seen:
            continue
        seen.add((i, a['place']))
        p = products[i]
        low, high = (1.5, .5) if p['swapped'] else (.5, 1.5)
        exs = [exchange(ids, 'p%d' % i, 'reference product', -a['amount'] if p['waste'] else a['amount'], production_volume={'amount': float(a['volume'] + (100 if a['place'] == 'GLO' else 0))},
                        byproduct_classification=kind(i), properties=price(p['price'])),
               exchange(ids, 'co2', 'to environment', a['env'], compartment='air', subcompartment='urban',
                        uncertainty={'type': 'uniform', 'minimum': a['env'] * low, 'maximum': a['env'] * high})]
        if p['land']:
            exs.append(exchange(ids, 'land', 'from environment', 3, compartment='natural resource', subcompartment='land',
                                properties=[{'id': 'q', 'name': 'consequential', 'amount': 1., 'unit': 'dimensionless'}]))
        j = int(p['input'])
        if 0 <= j < n and j != i and not products[j]['waste']:
            exs.append(exchange(ids, 'p%d' % j, 'from technosphere', .001 if p['direct'] else 2))
        k = int(p['by'])
        if 0 <= k < n and k != i and k != j:
            exs.append(exchange(ids, 'p%d' % k, 'byproduct', 3, production_volume={'amount': 0. if p['empty'] and cutoff else 100. if a['place'] == 'GLO' else 1.}, byproduct_classification=kind(k), properties=price(2)))
        parameters = []
        if p['formulas']:
            exs[1]['id'] = '%08d-0000-0000-0000-%012d' % (i, len(ids))
            exs.append(exchange(ids, 'water', 'from environment', 6, formula='Yield *2^2* 50%', compartment='natural resource', subcompartment='in water'))
            exs.append(exchange(ids, 'heat', 'to environment', 2 * a['env'], formula="Ref('%s')*2" % exs[1]['id'], compartment='air', subcompartment='urban'))
            exs.append(exchange(ids, 'dust', 'to environment', 1, formula='2 +* 3', compartment='air', subcompartment='urban'))
            exs[0]['production volume']['variable'] = 'Volume'
            parameters = [{'id': 'v', 'name': 'v', 'variable': 'Yield', 'amount': 3., 'unit': 'kg'}]
        if p['links']:
            exs.append(exchange(ids, 'p%d' % i, 'from technosphere', 0, activity_link='nowhere'))
            if cutoff:
                exs[0]['activity link'] = 'nowhere'
                exs.append(exchange(ids, 'p%d' % i, 'from technosphere', .01, activity_link='parent'))
        if p['gas']:
            exs.append(exchange(ids, 'refinery gas', 'from technosphere', 1))
        if cutoff and p['scrap'] and not p['waste']:
            exs.append(exchange(ids, 'scrap', 'byproduct', p['scrap'], production_volume={'amount': 100. if a['place'] == 'GLO' else 1.}, byproduct_classification='recyclable', properties=price(0)))
        dataset('making p%d' % i, a['place'], 'transforming activity', exs, a['level'], parameters)
    for i, p in enumerate(products):
        for place in ['GLO'] + [p['market']] * bool(p['market']):
            exs = [exchange(ids, 'p%d' % i, 'reference product', -1 if p['waste'] or p['opposite'] and cutoff else 1, production_volume={'amount': 1.}, byproduct_classification=kind(i),
                            properties=price(1))]
            j = (i + 1) % n
            if p['transport'] and j != i and not products[j]['waste']:
                exs.append(exchange(ids, 'p%d' % j, 'from technosphere', p['transport']))
            if p['conditional'] and cutoff and j != i and not p['waste'] and not products[j]['waste'] and not p['transport']:
                exs.append(dict(exchange(ids, 'p%d' % j, 'byproduct', -.2, production_volume={'amount': 1.}, byproduct_classification='allocatable product',
                                         properties=price(1)), **{'conditional exchange': True, 'activity link': next(x['id'] for x in data if x['name'] == 'making p%d' % j)}))
            dataset('market for p%d' % i, place, 'market activity', exs)
        if p['group'] and p['market']:
            dataset('market group for p%d' % i, p['group'], 'market group', [exchange(
                ids, 'p%d' % i, 'reference product', -1 if p['waste'] else 1, production_volume={'amount': 0.}, byproduct_classification=kind(i), properties=price(1))])
    if n > 1 and products[0]['joint'] and not products[0]['waste'] and not products[1]['waste']:
        dataset('joint', 'GLO', 'transforming activity', [
            exchange(ids, 'p0', 'reference product', 2, variable='a', production_volume={'amount': 200.}, byproduct_classification='allocatable product', properties=price(1)),
            exchange(ids, 'p1', 'reference product', 1, variable='b', production_volume={'amount': 100.}, byproduct_classification='allocatable product', properties=price(1)),
            exchange(ids, 'ch4', 'to environment', 7, formula='a * 2 + b * 3', compartment='air', subcompartment='urban')])
    for ds in [] if cutoff else list(data):
        if ds['name'] == 'market for p0' and ds['location'] == 'GLO' and products[0]['conditional'] and n > 1 and not products[0]['waste'] and not products[1]['waste']:
            # the by-product p1 of the market replaces what an activity makes for others
            dataset('replacing', 'GLO', 'transforming activity', [
                exchange(ids, 'p0', 'reference product', 1, production_volume={'amount': 100.}, byproduct_classification='allocatable product', properties=price(1)),
                exchange(ids, 'p1', 'from technosphere', -2, production_volume={'amount': 50.})])
            ds['exchanges'] = [e for e in ds['exchanges'] if e['name'] != 'p1'] + [
                dict(exchange(ids, 'p1', 'byproduct', -.2, production_volume={'amount': 1.}, byproduct_classification='allocatable product',
                              properties=price(1)), **{'conditional exchange': True, 'activity link': data[-1]['id']})]
    for ds in data:
        if ds['name'].startswith('making') and products[int(ds['name'][-1])]['links']:
            ds['parent'] = 'parent'
        if ds['name'].startswith('making') and products[int(ds['name'][-1])]['direct']:
            for e in ds['exchanges']:
                if e['type'] == 'from technosphere' and e['amount'] and e['name'] not in ('refinery gas', ds['name'][7:]):
                    e['activity link'] = next(x['id'] for x in data if x['name'] == 'making ' + e['name'])
    return data


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def run(V, config, data):
    world = (('ocelot.model:extract_directory', lambda data_path, use_cache=True, use_mp=True: data),)
    return V.call_in(world, functools.partial(system_model, '/data', config=config, save_strategy=1000000))


def total(exs, name):
    return sum(e['amount'] for e in exs if e['name'] == name)


def codes_of(out):
    return {d['code']: d for d in out}


def constrained_run_fails():
    """Known finding: the extractor reads production volumes of products only."""
    product = {'waste': False, 'by': -1, 'scrap': 0, 'price': 3, 'input': -1, 'market': '', 'transport': 0, 'group': '', 'direct': False, 'land': False,
               'formulas': False, 'links': False, 'swapped': False, 'gas': '', 'empty': '', 'conditional': 'x', 'opposite': '', 'joint': ''}
    data = build([product, dict(product, conditional='')], [], cutoff=False)
    del data[-1]['exchanges'][1]['production volume']
    try:
        for function in configuration.consequential_config:
            data = function(data)
    except KeyError:
        return True
    return False


def meaning(ds, formula):
    values = {x['variable']: x['amount'] for x in ds['exchanges'] + ds['parameters'] if 'variable' in x}
    try:
        return eval(formula, {'__builtins__': {}}, values)
    except Exception:
        return None


def ratio(ds):
    """Volume of a dataset per unit of its exchanges."""
    return max((e['production volume']['amount'] / e['amount'] for e in ds['exchanges'] if e['type'] == 'reference product'), key=abs)


def volume(old, ds, e):
    """What links to a product leave of its volume."""
    total = e['production volume']['amount'] or abs(e['amount'] * ratio(ds))
    links = [(x['amount'] * ratio(d)) for d in old for x in d['exchanges'] if x.get('activity link') == ds['id'] and x['name'] == e['name'] and d is not ds
             and x['type'] != 'reference product']
    return max(total - sum(links), 0) if links else total


def common(V, old, out, products):
    wastes = {'p%d' % i for i, p in enumerate(products) if p['waste']}
    codes = {d['code']: d for d in out}
    V.ensures('each dataset has a code of its own', len(codes) == len(out))
    rps = [[e for e in d['exchanges'] if e['type'] == 'reference product'] for d in out]
    V.ensures('each dataset has one reference product', all(len(r) == 1 for r in rps))
    if not all(len(r) == 1 for r in rps):
        return None
    rps = [r[0] for r in rps]
    V.ensures('of one unit', all(close(abs(r['amount']), 1) for r in rps))
    V.ensures('negative for wastes only', all((r['amount'] < 0) == (r['name'] in wastes) for r in rps))
    made = {d['code']: r['name'] for d, r in zip(out, rps)}
    V.ensures('each input comes from a dataset that makes it', all(
        made.get(e.get('code')) == e['name'] for d in out for e in d['exchanges'] if e['type'] == 'from technosphere' and e['amount']))
    V.ensures('where a link to an activity says so, from this one', all(
        codes[e['code']]['id'] == (d['id'] if e['activity link'] == 'parent' else e['activity link']) for d in out for e in d['exchanges'] if e['type'] == 'from technosphere' and e.get('activity link')))
    V.ensures('links of no amount are gone', not any(e.get('activity link') == 'nowhere' for d in out for e in d['exchanges']))
    V.ensures('what cannot be supplied is gone', not any(e['name'] == 'refinery gas' for d in out for e in d['exchanges']))
    known = {e['id'] for d in old for e in d['exchanges']}
    V.ensures('exchanges know where they come from', all(e.get('original id') in known for d in out for e in d['exchanges'] if 'Recycled Content' not in d['name']
                                                         and not (e['type'] == 'from technosphere' and d['type'] != 'transforming activity')))
    for d in out:
        for e in d['exchanges']:
            if e['name'] == 'water':
                V.ensures('formulas can be evaluated, and mean what they did', close(meaning(d, e.get('formula', '')) or 0, 6))
            elif e['name'] == 'heat' and e['amount']:
                V.ensures('formulas can be evaluated with references', close(meaning(d, e.get('formula', '')) or 0, e['amount']))
            elif e['name'] == 'dust':
                V.ensures('formulas without meaning are gone', 'formula' not in e)
            elif e['name'] == 'ch4':
                V.ensures('activities that make several products are split', close(e['amount'], {'p0': 2, 'p1': 3}[d['reference product']]))
            if 'production volume' in e:
                V.ensures('volumes are not parameterised', not {'formula', 'variable'} & set(e['production volume']))
    V.ensures('but their variables remain', all(any(x.get('variable') == 'volume' for x in d['parameters']) for d in out
                                                if d['name'].startswith('making') and products[int(d['name'][-1])]['formulas']))
    V.ensures('uncertainty is that of the amounts', all(
        close(e['uncertainty']['minimum'], e['amount'] * .5) and close(e['uncertainty']['maximum'], e['amount'] * 1.5)
        for d in out for e in d['exchanges'] if e.get('uncertainty') and e['amount']))
    V.ensures('and kept', all(e.get('uncertainty') for d in out for e in d['exchanges'] if e['name'] == 'co2' and e['amount']))
    V.ensures('the suppliers of a market sum up to its product', all(
        close(sum(e['amount'] for e in d['exchanges'] if e['type'] == 'from technosphere' and e['name'] == r['name']), r['amount'])
        for d, r in zip(out, rps) if d['type'] in ('market activity', 'market group')))
    return rps


@contract('C33', 'cutoff: a complete run', dict(SYSTEM, row=Bool()), mode='concrete', tries=60,
          functions=['ocelot.model:system_model', 'ocelot.model:apply_transformation', 'ocelot.configuration:cutoff_config'])
def complete_cutoff(V, products, activities, row):
    V.requires(0 < len(products) and all(a['amount'] > 0 and a['volume'] > 0 for a in activities) and all(p['price'] > 0 for p in products))
    data = build(products, activities)
    old = deepcopy(data)
    with World():
        res = run(V, 'cutoff_ecoinvent_row' if row else 'cutoff', data)
    V.ensures('never fails', res.exc is None)
    if res.exc is not None:
        return
    out = res.value[1]
    rps = common(V, old, out, products)
    if rps is None:
        return
    V.ensures('no byproducts are left', all(e['type'] != 'byproduct' for d in out for e in d['exchanges']))
    V.ensures('every activity and market is still there', {d['id'] for d in old} == {d['id'] for d in out})
    ok = waste = True
    for ds in old:
        if ds['type'] != 'transforming activity':
            continue
        before = {e['name']: abs(e['amount']) for e in ds['exchanges'] if e['type'] in ('reference product', 'byproduct')
                  and e.get('byproduct classification') != 'recyclable'}
        pieces = [(before.get(r['name'], 0), d['exchanges']) for d, r in zip(out, rps) if d['id'] == ds['id'] and d['type'] == ds['type']]
        for e in ds['exchanges']:
            if e['type'] in ('to environment', 'from technosphere') and e['name'] not in ('refinery gas', 'ch4'):
                now = sum(n * total([x for x in exs if x['type'] == e['type']], e['name']) for n, exs in pieces)
                ok = ok and close(now, total([x for x in ds['exchanges'] if x['type'] == e['type']], e['name']))
            elif e['type'] == 'byproduct' and e['byproduct classification'] != 'allocatable product':
                now = sum(n * total([x for x in exs if x['type'] == 'from technosphere'], e['name']) for n, exs in pieces)
                waste = waste and close(now, -e['amount'])
    volumes = shares = True
    for d, r in zip(out, rps):
        if d['name'].startswith('making') and d['location'] in ('CH', 'DE', 'FR'):
            ds = next(x for x in old if x['id'] == d['id'])
            e = next(x for x in ds['exchanges'] if x['name'] == r['name'] and x['type'] in ('reference product', 'byproduct'))
            volumes = volumes and close(r['production volume']['amount'], volume(old, ds, e))
        if d['type'] == 'market activity' and sum(1 for x, y in zip(out, rps) if x['type'] == 'market activity' and y['name'] == r['name']) == 1:
            makers = {x['code']: y['production volume']['amount'] for x, y in zip(out, rps) if x['type'] == 'transforming activity' and y['name'] == r['name']}
            inputs = {x['code']: x['amount'] for x in d['exchanges'] if x['type'] == 'from technosphere' and x['name'] == r['name']}
            if sum(makers.values()):
                shares = shares and all(close(inputs.get(c, 0), r['amount'] * v / sum(makers.values())) for c, v in makers.items())
        if d['type'] == 'market group':
            inputs = {x['code']: x['amount'] for x in d['exchanges'] if x['type'] == 'from technosphere' and x['name'] == r['name']}
            made = {x['code']: y['production volume']['amount'] for x, y in zip(out, rps) if x['code'] in inputs}
            shares = shares and close(r['production volume']['amount'], sum(made.values()))
            if sum(made.values()):
                shares = shares and all(close(inputs[c], r['amount'] * v / sum(made.values())) for c, v in made.items())
    V.ensures('nothing is left of the steps in between', not any('allocation method' in d for d in out))
    V.ensures('links to an activity reduce its volume', volumes)
    V.ensures('markets share by volume', shares)
    V.ensures('emissions and inputs of each activity are split among its products, nothing is lost or added', ok)
    V.ensures('wastes are inputs of those who produce them', waste)
    V.ensures('what only the consequential model uses is gone', all(e['name'] != 'land' for d in out for e in d['exchanges']))
    exported = V.call(lambda: list(Brightway2Converter.convert_to_brightway2(out, 'db')))
    V.ensures('the result can be exported', exported.exc is None)


@contract('C33', 'consequential: a complete run', SYSTEM, mode='concrete', tries=60,
          functions=['ocelot.model:system_model', 'ocelot.model:apply_transformation', 'ocelot.configuration:consequential_config'])
def complete_consequential(V, products, activities):
    V.requires(0 < len(products) and all(a['amount'] > 0 and a['volume'] > 0 for a in activities) and all(p['price'] > 0 for p in products))
    data = build(products, activities, cutoff=False)
    old = deepcopy(data)
    with World():
        res = run(V, 'consequential', data)
    V.ensures('never fails', res.exc is None)
    if res.exc is not None:
        return
    out = res.value[1]
    rps = common(V, old, out, products)
    if rps is None:
        return
    V.ensures('every activity and market is still there, once', sorted(d['id'] for d in old) == sorted(d['id'] for d in out if d['name'] != 'joint' or d['reference product'] == 'p0'))
    ok = True
    for d, r in zip(out, rps):
        ds = next(x for x in old if x['id'] == d['id'])
        if ds['name'].startswith('making'):
            n = abs(next(e['amount'] for e in ds['exchanges'] if e['type'] == 'reference product'))
            V.ensures('with the exchanges it had', sorted(x['id'] for x in ds['exchanges']) == sorted({x.get('original id') for x in d['exchanges']} | {x['id'] for x in ds['exchanges'] if x['name'] == 'refinery gas'}))
            for e in ds['exchanges']:
                if e['type'] != 'reference product' and e['name'] != 'refinery gas':
                    ok = ok and close(n * total([x for x in d['exchanges'] if x['type'] == e['type']], e['name']), e['amount'])
    V.ensures('emissions, inputs and byproducts of each activity are those per unit of its product', ok)
    for d, r in zip(out, rps):
        if d['name'] == 'replacing':
            V.ensures('a constrained market makes another activity take what it made before', r['name'] == 'p1' and close(total(d['exchanges'], 'p0'), -.5))
        if d['name'] == 'market for p0' and any(e.get('conditional exchange') for e in d['exchanges']):
            V.ensures('and uses the by-product itself', all(e['type'] == 'from technosphere' and close(e['amount'], .2) and codes_of(out)[e['code']]['name'] == 'replacing'
                                                            for e in d['exchanges'] if e.get('conditional exchange')))
        if d['type'] in ('market activity', 'market group'):
            inputs = {x['code']: x['amount'] for x in d['exchanges'] if x['type'] == 'from technosphere' and x['name'] == r['name']}
            made = {x['code']: y['production volume']['amount'] for x, y in zip(out, rps) if x['code'] in inputs}
            V.ensures('volumes of markets are those of their suppliers', close(r['production volume']['amount'], sum(made.values())))
            if sum(made.values()):
                V.ensures('who share by volume', all(close(inputs[c], r['amount'] * v / sum(made.values())) for c, v in made.items()))
    codes = codes_of(out)
    levels = ('new', 'modern', 'current', 'old', 'outdated')
    best = True
    for d, r in zip(out, rps):
        if d['type'] == 'market activity':
            rank = {levels.index(codes[e['code']]['technology level']) for e in d['exchanges'] if e['type'] == 'from technosphere' and e['name'] == r['name']}
            makers = [levels.index(x['technology level']) for x, y in zip(out, rps) if x['type'] == 'transforming activity' and y['name'] == r['name']]
            alone = sum(1 for x, y in zip(out, rps) if x['type'] == 'market activity' and y['name'] == r['name']) == 1
            best = best and len(rank) <= 1 and (not alone or rank == {min(makers)})
    V.ensures('nothing is left of the steps in between', not any('suppliers' in d for d in out))
    V.ensures('markets are supplied by the best technology', best)


FLAWS = ('twin', 'id', 'variable', 'volume', 'product', 'own', 'link', 'byproduct', 'group', 'price', 'negative')
ERRORS = {'twin': (IdenticalDatasets, MultipleGlobalDatasets), 'id': IdenticalDatasets, 'variable': ParameterizationError, 'volume': InvalidExchange, 'product': InvalidMarket,
          'own': InvalidMarketExchange, 'link': UnresolvableActivityLink, 'byproduct': MissingAlternativeProducer, 'group': MarketGroupError,
          'price': InvalidExchange, 'negative': InvalidExchange}


def spoil(data, flaw, at):
    """Break the rule that one of the gates guards, anywhere in the data."""
    makers = [d for d in data if d['name'].startswith('making')]
    markets = [d for d in data if d['type'] == 'market activity']
    ds, market = makers[at % len(makers)], markets[at % len(markets)]
    rp = ds['exchanges'][0]
    ids = ['new'] * 1000
    if flaw == 'twin':
        data.append(dict(deepcopy(ds), id='another'))
    elif flaw == 'id':
        data[(at + 1) % len(data)]['id'] = data[at % len(data)]['id']
    elif flaw == 'variable':
        ds['exchanges'][0]['variable'] = 'v'
        ds['parameters'].append({'id': 'v', 'name': 'v', 'variable': 'v', 'amount': 1., 'unit': 'kg'})
    elif flaw == 'volume':
        del rp['production volume']
    elif flaw == 'product':
        market['exchanges'].append(dict(deepcopy(market['exchanges'][0]), id='second', name='another'))
    elif flaw == 'own':
        market['exchanges'].append(exchange(ids, market['exchanges'][0]['name'], 'from technosphere', .1))
    elif flaw == 'link':
        ds['exchanges'].append(exchange(ids, rp['name'], 'from technosphere', .1, activity_link='nowhere'))
    elif flaw == 'byproduct':
        ds['exchanges'].append(exchange(ids, 'nobody makes it', 'byproduct', 1, production_volume={'amount': 1.}, byproduct_classification='allocatable product'))
    elif flaw == 'group':
        data.append(dict(deepcopy(market), id='another', type='market group', name='market group', location='RoW', exchanges=deepcopy(market['exchanges'][:1])))
    else:
        ds['exchanges'].append(exchange(ids, 'by', 'byproduct', 1, production_volume={'amount': 1.}, byproduct_classification='allocatable product',
                                        properties=price(-1) if flaw == 'negative' else []))


@contract('C33', 'broken data stop a complete run', dict(SYSTEM, model=Str(choices=['cutoff', 'cutoff_ecoinvent_row', 'consequential']),
                                                         flaw=Str(choices=list(FLAWS)), at=Num(isint=True, pool=list(range(8)))), mode='concrete', tries=60,
          functions=['ocelot.model:system_model', 'ocelot.configuration:cutoff_config', 'ocelot.configuration:consequential_config'])
def stopped(V, products, activities, model, flaw, at):
    V.requires(0 < len(products) and all(a['amount'] > 0 and a['volume'] > 0 for a in activities) and all(p['price'] > 0 for p in products))
    V.requires(flaw in FLAWS and at >= 0 and flaw not in (('link', 'group', 'price', 'negative') if model == 'consequential' else ('byproduct',)))
    data = build(products, activities, cutoff=model != 'consequential')
    if flaw in ('price', 'negative'):
        V.requires(not any(p['waste'] for p in products))
    spoil(data, flaw, int(at))
    with World():
        res = run(V, model, data)
    V.ensures('the flaw is reported', res.exc is not None and issubclass(res.exc, ERRORS[flaw]))
