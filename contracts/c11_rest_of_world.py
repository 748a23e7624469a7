# -*- coding: utf-8 -*-
"""C11: global datasets beside regional ones become the rest of the world."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.data_helpers import production_volume, original_production_volume
from ocelot.errors import MultipleGlobalDatasets
from ocelot.transformations.locations.cleanup import correct_natural_gas_pipeline_location
from ocelot.transformations.locations.rest_of_world import relabel_global_to_row
from ocelot.transformations.utils import allocatable_production

R = 'ocelot.transformations.locations.'
VPV = Dict({'amount': NonNeg(), 'original amount': Maybe(NonNeg())})
VEXC = EXC.with_({'production volume': Maybe(VPV), 'name': Str(pool=['a', 'b'])})
VDS = DATASET.with_({'exchanges': List(VEXC), 'type': Str(choices=['transforming activity', 'market activity', 'market group']),
                     'location': Str(pool=['GLO', 'GLO', 'CH', 'DE']), 'id': Str(unique=True), 'name': Str(pool=['x', 'y']),
                     'reference product': Str(pool=['a', 'b'])})


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def give_activities(rng, ins, g, key='data'):
    give_all_classes(rng, ins, g, key)
    for ds in ins[key]:
        ds['type'] = {'x': 'transforming activity', 'y': 'market group'}.get(ds['name'], 'market activity')
        first = True
        for e in ds['exchanges']:
            if e['type'] == 'reference product':
                if not first:
                    e['type'] = 'from technosphere'
                first = False
                e.setdefault('production volume', {'amount': 3.})
        if first:
            ds['exchanges'].append({'name': 'a', 'type': 'reference product', 'amount': 1., 'unit': 'kg', 'production volume': {'amount': float(rng.randint(0, 9))}})
    return ins


def who(ds):
    """Same activity: same name, same set of products that are made."""
    return (ds['name'], tuple(sorted([e['name'] for e in allocatable_production(ds) if e['amount']])))


def requires_relabel(V, data):
    V.requires(all(classified(ds) for ds in data))
    V.requires(all(len(rps(ds)) == 1 for ds in data))
    V.requires(all('production volume' in e for ds in data for e in rps(ds)))
    V.requires(all((a['type'] == 'market group') == (b['type'] == 'market group') for a in data for b in data if who(a) == who(b)))


@contract('C11', 'relabel_global_to_row: only global datasets beside others', {'data': List(VDS)}, shape=give_activities, budget=200,
          functions=[R + 'rest_of_world:relabel_global_to_row'])
def relabel_frame(V, data):
    requires_relabel(V, data)
    V.requires(all(len([b for b in data if who(b) == who(a) and b['location'] == 'GLO']) <= 1 for a in data if a['type'] != 'market group'))
    old = deepcopy(data)
    out = V.call(relabel_global_to_row, data)
    V.ensures('accepted otherwise', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        others = [x for x in old if x is not o and who(x) == who(o)]
        if o['location'] == 'GLO' and o['type'] != 'market group' and len(others) > 0:
            V.ensures('attributes are kept', V.same_but(o, n, 'exchanges', 'location'))
            V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
            for a, b in zip(o['exchanges'], n['exchanges']):
                if a['type'] != 'reference product':
                    V.ensures('inputs are not changed', V.same(a, b))
                else:
                    V.ensures('only the production volume changes', V.same_but(a, b, 'production volume') and
                              V.same_but(a['production volume'], b['production volume'], 'amount', 'global amount'))
        else:
            V.ensures('all other datasets are not changed', V.same(o, n))


@contract('C11', 'relabel_global_to_row', {'data': List(VDS)}, shape=give_activities, mode='concrete',
          functions=[R + 'rest_of_world:relabel_global_to_row'])
def relabel(V, data):
    requires_relabel(V, data)
    clash = any(a is not b and who(a) == who(b) and a['location'] == 'GLO' == b['location'] and a['type'] != 'market group'
                for a in data for b in data)
    old = deepcopy(data)
    out = V.call(relabel_global_to_row, data)
    if clash:
        V.ensures('two global datasets are refused', out.exc is MultipleGlobalDatasets)
        return
    V.ensures('accepted otherwise', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        others = [x for x in old if x is not o and who(x) == who(o)]
        if o['location'] == 'GLO' and o['type'] != 'market group' and len(others) > 0:
            V.ensures('the global dataset becomes the rest of the world', n['location'] == 'RoW')
            V.ensures('and keeps its attributes', V.same_but(o, n, 'exchanges', 'location'))
            V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
            for a, b in zip(o['exchanges'], n['exchanges']):
                if a['type'] != 'reference product':
                    V.ensures('inputs are not changed', V.same(a, b))
                else:
                    p, q = a['production volume'], b['production volume']
                    V.ensures('only its volume changes', V.same_but(a, b, 'production volume') and V.same_but(p, q, 'amount', 'global amount'))
                    left = p['amount'] - sum(original_production_volume(x, 0) for x in others)
                    V.ensures('to what the regional activities leave', V.eq(q['amount'], left if left > 0 else 0))
                    V.ensures('the global volume is recorded', V.eq(q['global amount'], p['amount']))
        else:
            V.ensures('all other datasets are not changed', V.same(o, n))


@contract('C11', 'correct_natural_gas_pipeline_location', {'data': List(VDS.with_({
    'name': Str(pool=['transport, pipeline, long distance, natural gas', 'x']), 'location': Str(pool=['RER w/o DE+NL+NO', 'CH'])}))},
    functions=[R + 'cleanup:correct_natural_gas_pipeline_location'])
def pipeline(V, data):
    old = deepcopy(data)
    out = V.call(correct_natural_gas_pipeline_location, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        if o['type'] == 'transforming activity' and o['name'] == 'transport, pipeline, long distance, natural gas' and \
                o['location'] == 'RER w/o DE+NL+NO':
            V.ensures('the known wrong location is corrected', n['location'] == 'RER w/o DE+NL+NO+RU' and V.same_but(o, n, 'location'))
        else:
            V.ensures('all other datasets are not changed', V.same(o, n))
