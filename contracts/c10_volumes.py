# -*- coding: utf-8 -*-
"""C10: production volumes and parameterisation of volumes."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *

from ocelot.data_helpers import production_volume, original_production_volume
from ocelot.transformations.cleanup import deparameterize
from ocelot.transformations.parameterization.production_volumes import create_pv_parameters
from ocelot.transformations.production_volumes import add_pv_to_allocatable_byproducts
from ocelot.transformations.locations.markets import (
    assign_fake_pv_to_confidential_datasets, delete_whitelisted_zero_pv_market_datsets,
    delete_global_with_zero_pv_when_regional_present)
from ocelot.transformations.locations.rest_of_world import drop_zero_pv_row_datasets
from ocelot.transformations.utils import get_biggest_pv_to_exchange_ratio
from ocelot.errors import InvalidMultioutputDataset, ZeroProduction
from .c09_activity_links import RATIO

T_ = 'ocelot.transformations.'
VPV = Dict({'amount': Maybe(Num()), 'original amount': Maybe(Num())})
VEXC = EXC.with_({'production volume': Maybe(VPV)})
VDS = DATASET.with_({'exchanges': List(VEXC), 'type': Str(pool=['transforming activity', 'market activity', 'market group']),
                     'location': Str(pool=['RoW', 'GLO', 'CH', 'DE']), 'id': Str(unique=True),
                     'reference product': Str(pool=['a', 'b'])})


def products(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


@contract('C10', 'production_volume', {'ds': VDS, 'default': Opt(Num())}, functions=['ocelot.data_helpers:production_volume'])
def pv(V, ds, default):
    old = deepcopy(ds)
    out = V.call(production_volume, ds, default)
    V.ensures('changes nothing', V.same(old, ds))
    V.ensures('never fails', out.exc is None)
    rps = products(ds)
    if len(rps) == 1 and 'amount' in rps[0].get('production volume', {}):
        V.ensures('the volume of the single reference product', out.value == rps[0]['production volume']['amount'])
    else:
        V.ensures('the default', V.eq(out.value, default))


@contract('C10', 'original_production_volume', {'ds': VDS, 'default': Opt(Num())},
          functions=['ocelot.data_helpers:original_production_volume'])
def original(V, ds, default):
    old = deepcopy(ds)
    out = V.call(original_production_volume, ds, default)
    V.ensures('changes nothing', V.same(old, ds))
    V.ensures('never fails', out.exc is None)
    rps = products(ds)
    p = rps[0].get('production volume', {}) if len(rps) == 1 else {}
    if 'original amount' in p:
        V.ensures('the volume before links were subtracted', out.value == p['original amount'])
    elif 'amount' in p:
        V.ensures('the only volume', out.value == p['amount'])
    else:
        V.ensures('the default', V.eq(out.value, default))


PDS = DATASET.with_({'id': Str(unique=True), 'exchanges': List(EXC)})


@contract('C10', 'add_pv_to_allocatable_byproducts', {'data': List(PDS)}, shape=give_all_classes, uses=[RATIO],
          functions=[T_ + 'production_volumes:add_pv_to_allocatable_byproducts'])
def byproduct_pv(V, data):
    V.requires(all(classified(ds) for ds in data))
    V.requires(all('production volume' in e for ds in data for e in ds['exchanges'] if allocatable(e)))
    V.requires(all(any(e['type'] == 'reference product' and e['amount'] != 0 for e in ds['exchanges']) for ds in data))
    old = deepcopy(data)
    out = V.call(add_pv_to_allocatable_byproducts, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a['type'] == 'byproduct' and allocatable(a) and a['production volume']['amount'] == 0:
                V.ensures('a missing volume follows the reference product',
                          V.eq(b['production volume']['amount'], abs(a['amount'] * get_biggest_pv_to_exchange_ratio(o))))
                V.ensures('nothing else of it changes', V.same_but(a, b, 'production volume') and
                          V.same_but(a['production volume'], b['production volume'], 'amount'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


FPV = Dict({'amount': Num(), 'variable': Maybe(Str(pool=['x', 'y'])), 'formula': Maybe(Opaque())})
FPROP = PROPERTY.with_({'variable': Maybe(Str()), 'formula': Maybe(Opaque())})
FEXC = EXC.with_({'production volume': Maybe(FPV), 'variable': Maybe(Str()), 'properties': Maybe(List(FPROP))})
PARAM = Dict({'name': Str(), 'variable': Maybe(Str()), 'formula': Maybe(Opaque()), 'amount': Num()})
FDS = DATASET.with_({'exchanges': List(FEXC), 'parameters': List(PARAM)})


@contract('C10', 'create_pv_parameters', {'ds': FDS}, functions=[T_ + 'parameterization.production_volumes:create_pv_parameters'])
def shift(V, ds):
    old = deepcopy(ds)
    out = V.call(create_pv_parameters, [ds])
    V.ensures('same dataset returned', out.exc is None and len(out.value) == 1 and out.value[0] is ds)
    V.ensures('the dataset keeps its attributes', V.same_but(old, ds, 'exchanges', 'parameters'))
    V.ensures('and exchanges', len(old['exchanges']) == len(ds['exchanges']))
    for a, b in zip(old['exchanges'], ds['exchanges']):
        V.ensures('exchanges keep all but the volume', V.same_but(a, b, 'production volume'))
        V.ensures('and whether they have one', ('production volume' in a) == ('production volume' in b))
        if 'production volume' in a:
            p, q = a['production volume'], b['production volume']
            V.ensures('a volume keeps all but formula and variable', V.same_but(p, q, 'formula', 'variable'))
            V.ensures('volumes have no formula or variable any more', 'formula' not in q and 'variable' not in q)
    moved = [e for e in old['exchanges'] if 'variable' in e.get('production volume', {})]
    n = len(old['parameters'])
    V.ensures('one new parameter for each variable', len(ds['parameters']) == n + len(moved))
    V.ensures('old parameters are kept', V.same(old['parameters'], ds['parameters'][:n]))
    for e, p in zip(moved, ds['parameters'][n:]):
        q = e['production volume']
        V.ensures('a new parameter has the variable, value and unit of the volume',
                  p['variable'] == q['variable'] and p['amount'] == q['amount'] and p['unit'] == e['unit'])
        V.ensures('and its formula', ('formula' in p) == ('formula' in q) and V.eq(p.get('formula'), q.get('formula')))


@contract('C10', 'deparameterize', {'ds': FDS.with_({'parameters': Maybe(List(PARAM))})}, functions=[T_ + 'cleanup:deparameterize'])
def strip(V, ds):
    old = deepcopy(ds)
    out = V.call(deparameterize, ds)
    V.ensures('same dataset returned', out.exc is None and out.value is ds)
    V.ensures('the dataset keeps its attributes', V.same_but(old, ds, 'exchanges', 'parameters'))
    V.ensures('no parameters', not ds.get('parameters') and ('parameters' in ds) == ('parameters' in old))
    V.ensures('no exchange is lost', len(old['exchanges']) == len(ds['exchanges']))
    for a, b in zip(old['exchanges'], ds['exchanges']):
        V.ensures('no formula, variable or properties', not any(k in b for k in ('formula', 'variable', 'properties')))
        V.ensures('exchanges keep everything else', V.same_but(a, b, 'formula', 'variable', 'properties', 'production volume'))
        V.ensures('and their volume', ('production volume' in a) == ('production volume' in b))
        if 'production volume' in a:
            p, q = a['production volume'], b['production volume']
            V.ensures('volumes keep everything else', V.same_but(p, q, 'formula', 'variable'))
            V.ensures('and have no formula or variable', 'formula' not in q and 'variable' not in q)


CONFIDENTIAL = ['anthraquinone production', 'citric acid production', 'zeolite production, powder', 'burnt shale production',
                'carboxymethyl cellulose production, powder', 'esters of versatic acid production', 'feldspar production',
                'latex production', 'layered sodium silicate production, SKS-6, powder',
                'particle board production, cement bonded', 'polycarboxylates production, 40% active substance',
                'sodium perborate production, monohydrate, powder', 'sodium perborate production, tetrahydrate, powder',
                'sodium percarbonate production, powder', 'wood wool boards production, cement bonded',
                'zeolite production, slurry, without water, in 50% solution state']


@contract('C10', 'assign_fake_pv_to_confidential_datasets',
          {'data': List(VDS.with_({'name': Str(pool=CONFIDENTIAL[:3] + ['steel']), 'exchanges': List(EXC.with_({'production volume': PV}))}))},
          functions=[T_ + 'locations.markets:assign_fake_pv_to_confidential_datasets'])
def fake(V, data):
    V.requires(all(len(products(ds)) == 1 for ds in data))
    old = deepcopy(data)
    out = V.call(assign_fake_pv_to_confidential_datasets, data)
    V.ensures('same data returned', out.exc is None and out.value is data)
    V.ensures('number of datasets', len(old) == len(data))
    for o, n in zip(old, data):
        V.ensures('datasets keep their attributes', V.same_but(o, n, 'exchanges'))
        V.ensures('and exchanges', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if o['type'] == 'transforming activity' and o['name'] in CONFIDENTIAL and a['type'] == 'reference product':
                V.ensures('confidential volumes count as one', b['production volume']['amount'] == 1)
                V.ensures('nothing else of it changes', V.same_but(a, b, 'production volume') and
                          V.same_but(a['production volume'], b['production volume'], 'amount'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


@contract('C10', 'drop_zero_pv_row_datasets', {'data': List(VDS)}, functions=[T_ + 'locations.rest_of_world:drop_zero_pv_row_datasets'])
def drop_row(V, data):
    old = deepcopy(data)
    out = V.call(drop_zero_pv_row_datasets, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('datasets are not changed', V.same(old, data))
    keep = [ds for ds in data if not (ds['type'] == 'market activity' and ds['location'] == 'RoW' and production_volume(ds) == 0)]
    V.ensures('only markets for the rest of the world without volume are dropped',
              len(out.value) == len(keep) and all(a is b for a, b in zip(out.value, keep)))


WHITE = ['market for refinery gas', 'market for nitro-compound', 'market for heat, diffusion absorption heat pump',
         'market for heat, solar+electric, multiple-dwelling, for hot water', 'market for heat, solar+gas, multiple-dwelling, for hot water',
         'market for heat, solar+gas, one-family house, for combined system', 'market for heat, solar+gas, one-family house, for hot water',
         'market for heat, solar+wood, one-family house, for combined system', 'market for petrol, 85% ethanol by volume from biomass',
         'market for spent oxychlor catalyst for ethylene dichloride production', 'market for waste emulsion paint, on wall']


@contract('C10', 'delete_whitelisted_zero_pv_market_datsets', {'data': List(VDS.with_({'name': Str(pool=WHITE[:3] + ['steel'])}))},
          functions=[T_ + 'locations.markets:delete_whitelisted_zero_pv_market_datsets'])
def white(V, data):
    old = deepcopy(data)
    out = V.call(delete_whitelisted_zero_pv_market_datsets, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('datasets are not changed', V.same(old, data))
    keep = [ds for ds in data if not (ds['type'] == 'market activity' and ds['location'] == 'GLO' and ds['name'] in WHITE)]
    V.ensures('only listed global markets are dropped', len(out.value) == len(keep) and all(a is b for a, b in zip(out.value, keep)))


@contract('C10', 'delete_global_with_zero_pv_when_regional_present', {'data': List(VDS)},
          functions=[T_ + 'locations.markets:delete_global_with_zero_pv_when_regional_present'])
def regional(V, data):
    V.requires(all(not (a is not b and a['type'] == b['type'] and a['reference product'] == b['reference product'] and
                        a['location'] == b['location']) for a in data for b in data))
    old = deepcopy(data)
    out = V.call(delete_global_with_zero_pv_when_regional_present, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('datasets are not changed', V.same(old, data))
    for ds in data:
        if not (ds['type'] == 'market activity' and ds['location'] == 'RoW' and not original_production_volume(ds)):
            V.ensures('other datasets are kept', any(o is ds for o in out.value))
    for ds in out.value:
        V.ensures('nothing new appears', any(o is ds for o in data))


@contract('C10', 'delete_global_with_zero_pv: which ones', {'data': List(VDS)}, mode='concrete',
          note='the exact set needs an argument about the first element of each group that the solver does not find',
          functions=[T_ + 'locations.markets:delete_global_with_zero_pv_when_regional_present'])
def regional_exact(V, data):
    V.requires(all(not (a is not b and a['type'] == b['type'] and a['reference product'] == b['reference product'] and
                        a['location'] == b['location']) for a in data for b in data))
    out = V.call(delete_global_with_zero_pv_when_regional_present, data)
    keep = [ds for ds in data if not (
        ds['type'] == 'market activity' and ds['location'] == 'RoW' and not original_production_volume(ds) and
        any(o is not ds and o['type'] == ds['type'] and o['reference product'] == ds['reference product'] for o in data))]
    V.ensures('only empty markets for the rest of the world beside others are dropped, in order',
              len(out.value) == len(keep) and all(a is b for a, b in zip(out.value, keep)))
