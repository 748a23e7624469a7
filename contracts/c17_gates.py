# -*- coding: utf-8 -*-
"""C17: validation gates refuse exactly the data that violates their rule and change nothing."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *

from ocelot.transformations.validation import (
    ensure_ids_are_unique, check_single_output_activity, ensure_markets_only_have_one_reference_product,
    ensure_markets_dont_consume_their_ref_product, ensure_mandatory_properties,
    ensure_production_exchanges_have_production_volume)
from ocelot.transformations.parameterization.validation import variable_names_are_unique
from ocelot.transformations.cleanup import ensure_all_datasets_have_production_volume
from ocelot.transformations.locations.validation import check_single_global_dataset
from ocelot.transformations.locations.market_groups import check_no_row_market_groups
from ocelot.transformations.cutoff.validation import valid_merge_datasets, valid_combined_production_activity
from ocelot.errors import (IdenticalDatasets, InvalidExchange, InvalidMarket, InvalidMarketExchange, InvalidMultioutputDataset,
                           MultipleGlobalDatasets, MarketGroupError, ParameterizationError)

V_ = 'ocelot.transformations.validation:'
TYPES = ['transforming activity', 'market activity', 'market group']
GDS = DATASET.with_({'id': Str(), 'type': Str(choices=TYPES),
                     'exchanges': List(EXC.with_({'activity link': Maybe(Str()), 'variable': Maybe(Str())}))})


@valid_merge_datasets
def merge_gate(data):
    return data


@valid_combined_production_activity
def combined_gate(dataset):
    return dataset


def gate(V, fn, arg, bad, error, result=True):
    """fn refuses arg with error exactly if it is bad, and changes nothing."""
    old = deepcopy(arg)
    out = V.call(fn, arg)
    V.ensures('left alone', V.same(old, arg))
    if bad:
        V.ensures('violations are refused', out.exc is error)
    else:
        V.ensures('valid data passes', out.exc is None)
        if result and out.exc is None:
            V.ensures('and is returned', out.value is arg)


@contract('C17', 'ensure_ids_are_unique', {'data': List(GDS)}, functions=[V_ + 'ensure_ids_are_unique'])
def ids(V, data):
    bad = any(b is not a and b['id'] == a['id'] for a in data for b in data)
    gate(V, ensure_ids_are_unique, data, bad, IdenticalDatasets)


@contract('C17', 'check_single_output_activity', {'ds': GDS}, shape=give_classes, functions=[V_ + 'check_single_output_activity'])
def single(V, ds):
    V.requires(classified(ds))
    n = len([e for e in ds['exchanges'] if e['type'] == 'reference product'])
    bad = n != 1 or any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for e in ds['exchanges'])
    gate(V, check_single_output_activity, ds, bad, InvalidMultioutputDataset)


def rps(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def give_single(rng, ins, g, key='data'):
    for ds in ins[key]:
        if rng.random() < .8:
            for e in ds['exchanges']:
                if e['type'] == 'reference product':
                    e['type'] = 'from technosphere'
            if ds['exchanges']:
                rng.choice(ds['exchanges'])['type'] = 'reference product'
    return ins


@contract('C17', 'ensure_markets_only_have_one_reference_product', {'data': List(GDS)}, shape=give_single,
          functions=[V_ + 'ensure_markets_only_have_one_reference_product'])
def one_rp(V, data):
    bad = any(ds['type'] == 'market activity' and len(rps(ds)) != 1 for ds in data)
    gate(V, ensure_markets_only_have_one_reference_product, data, bad, InvalidMarket)


@contract('C17', 'ensure_markets_dont_consume_their_ref_product', {'data': List(GDS)}, shape=give_single,
          functions=[V_ + 'ensure_markets_dont_consume_their_ref_product'])
def no_self(V, data):
    V.requires(all(len(rps(ds)) == 1 for ds in data if ds['type'] == 'market activity'))
    bad = any(ds['type'] == 'market activity' and e['type'] != 'reference product' and e['name'] == r['name'] and not e.get('activity link')
              for ds in data for r in rps(ds) for e in ds['exchanges'])
    gate(V, ensure_markets_dont_consume_their_ref_product, data, bad, InvalidMarketExchange)


@contract('C17', 'ensure_production_exchanges_have_production_volume', {'data': List(GDS)}, shape=give_all_classes,
          functions=[V_ + 'ensure_production_exchanges_have_production_volume'])
def have_pv(V, data):
    V.requires(all(classified(ds) for ds in data))
    bad = any(allocatable(e) and 'production volume' not in e for ds in data for e in ds['exchanges'])
    gate(V, ensure_production_exchanges_have_production_volume, data, bad, InvalidExchange)


MPROP = Dict({'name': Str(pool=['dry mass', 'wet mass', 'carbon']), 'amount': Maybe(Num())})
MANDATORY = ("dry mass", "water in wet mass", "water content", "wet mass", "carbon content fossil", "carbon content non-fossil")


@contract('C17', 'ensure_mandatory_properties', {'data': List(DATASET.with_({'exchanges': List(EXC.with_({'properties': Maybe(List(MPROP))}))}))},
          functions=[V_ + 'ensure_mandatory_properties'])
def mandatory(V, data):
    bad = any(p['name'] in MANDATORY and 'amount' not in p for ds in data for e in ds['exchanges'] for p in e.get('properties', []))
    gate(V, ensure_mandatory_properties, data, bad, ValueError)


@contract('C17', 'ensure_all_datasets_have_production_volume', {'data': List(GDS)}, shape=give_single,
          functions=['ocelot.transformations.cleanup:ensure_all_datasets_have_production_volume', 'ocelot.data_helpers:production_volume'])
def all_pv(V, data):
    bad = any(len(rps(ds)) != 1 or any('production volume' not in e or e['production volume']['amount'] == 0 for e in rps(ds)) for ds in data)
    gate(V, ensure_all_datasets_have_production_volume, data, bad, AssertionError)


@contract('C17', 'check_single_global_dataset', {'data': List(GDS)}, functions=['ocelot.transformations.locations.validation:check_single_global_dataset'])
def one_glo(V, data):
    bad = len([ds for ds in data if ds['location'] == 'GLO']) > 1
    gate(V, check_single_global_dataset, data, bad, MultipleGlobalDatasets, result=False)


@contract('C17', 'check_no_row_market_groups', {'data': List(GDS.with_({'location': Str(pool=['GLO', 'RoW', 'CH'])}))},
          functions=['ocelot.transformations.locations.market_groups:check_no_row_market_groups'])
def no_row(V, data):
    bad = any(ds['type'] == 'market group' and ds['location'] == 'RoW' for ds in data)
    gate(V, check_no_row_market_groups, data, bad, MarketGroupError)


@contract('C17', 'valid_merge_datasets', {'data': List(GDS)}, shape=give_all_classes,
          functions=['ocelot.transformations.cutoff.validation:valid_merge_datasets'])
def merge(V, data):
    V.requires(all(classified(ds) for ds in data))
    bad = any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for ds in data for e in ds['exchanges'])
    gate(V, merge_gate, data, bad, InvalidExchange)


@contract('C17', 'valid_combined_production_activity', {'ds': GDS},
          functions=['ocelot.transformations.cutoff.validation:valid_combined_production_activity'])
def comb(V, ds):
    bad = any(e['type'] == 'reference product' and e['amount'] != 0 and not e.get('variable') for e in ds['exchanges'])
    gate(V, combined_gate, ds, bad, InvalidExchange)


PAR = Dict({'name': Str(), 'amount': Num(), 'variable': Maybe(Str(pool=['a', 'b', 'c'])), 'formula': Maybe(Str(pool=['a', '-a', '-a + b', '2 * x', '(a)', '']))})
VDS = DATASET.with_({'exchanges': List(EXC.with_({'variable': Maybe(Str(pool=['a', 'b', 'c', ''])), 'formula': Maybe(Str(pool=['a', '-a', '-a + b', '2 * x', '(a)', ''])),
                                                  'production volume': Maybe(PAR), 'properties': Maybe(List(PAR))})),
                     'parameters': Maybe(List(PAR))})


def variables(ds):
    out = []
    for e in ds['exchanges']:
        if e.get('variable'):
            out.append(e['variable'])
        if e.get('production volume', {}).get('variable'):
            out.append(e['production volume']['variable'])
        for p in e.get('properties', []):
            if p.get('variable'):
                out.append(p['variable'])
    for p in ds.get('parameters', []):
        if p.get('variable'):
            out.append(p['variable'])
    return out


@contract('C17', 'variable_names_are_unique', {'data': List(VDS)}, mode='concrete',
          note='first occurrences across three levels of nesting: bounded only',
          functions=['ocelot.transformations.parameterization.validation:variable_names_are_unique', 'ocelot.transformations.utils:iterate_all_parameters'])
def unique_vars(V, data):
    bad = any(len(variables(ds)) != len(set(variables(ds))) for ds in data)
    gate(V, variable_names_are_unique, data, bad, ParameterizationError)
