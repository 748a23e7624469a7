# -*- coding: utf-8 -*-
"""C18: clean-up steps of the cutoff model."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *

from ocelot.transformations.cutoff.cleanup import (
    drop_zero_amount_activity_links, drop_rp_activity_links, remove_consequential_exchanges)
from ocelot.transformations.cutoff.utils import delete_allocation_method, flip_non_allocatable_byproducts as flip2
from ocelot.transformations.cutoff.wastes import flip_non_allocatable_byproducts as flip

CL = 'ocelot.transformations.cutoff.cleanup:'
LEXC = EXC.with_({'activity link': Maybe(Str()), 'properties': Maybe(List(PROPERTY.with_({'name': Str(pool=['consequential', 'price'])})))})
LDS = DATASET.with_({'exchanges': List(LEXC), 'allocation method': Maybe(Str())})


@contract('C18', 'drop_zero_amount_activity_links', {'data': List(LDS)}, functions=[CL + 'drop_zero_amount_activity_links'])
def zero_links(V, data):
    old = deepcopy(data)
    out = V.call(drop_zero_amount_activity_links, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges'))
        V.ensures('no exchange is lost', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a['amount'] == 0:
                V.ensures('no link on a zero exchange', not b.get('activity link'))
                V.ensures('zero exchanges otherwise unchanged', V.same_but(a, b, 'activity link'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


@contract('C18', 'drop_rp_activity_links', {'data': List(LDS)}, functions=[CL + 'drop_rp_activity_links'])
def rp_links(V, data):
    old = deepcopy(data)
    out = V.call(drop_rp_activity_links, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges'))
        V.ensures('no exchange is lost', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a['type'] == 'reference product' or a['type'] == 'dropped product':
                V.ensures('no link on a (former) reference product', not b.get('activity link'))
                V.ensures('products otherwise unchanged', V.same_but(a, b, 'activity link'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


def consequential(e):
    return any(p['name'] == 'consequential' and p['amount'] == 1 for p in e.get('properties', []))


@contract('C18', 'remove_consequential_exchanges', {'data': List(LDS)},
          functions=[CL + 'remove_consequential_exchanges', CL + 'has_consequential_property'])
def cons(V, data):
    old = deepcopy(data)
    out = V.call(remove_consequential_exchanges, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges'))
        V.ensures('exactly the consequential exchanges are removed',
                  V.same(n['exchanges'], [e for e in o['exchanges'] if not consequential(e)]))


@contract('C18', 'delete_allocation_method', {'data': List(LDS)},
          functions=['ocelot.transformations.cutoff.utils:delete_allocation_method', 'ocelot.transformations.utils:single_input'])
def delmethod(V, data):
    old = deepcopy(data)
    out = V.call(delete_allocation_method, data)
    V.ensures('never fails', out.exc is None)
    if out.exc is None:
        V.ensures('same datasets', len(out.value) == len(old))
        for o, n in zip(old, out.value):
            V.ensures('no label left', 'allocation method' not in n)
            V.ensures('nothing else changes', V.same_but(o, n, 'allocation method'))


FDS = DATASET.with_({'exchanges': List(EXC.with_({'formula': Maybe(Str(pool=['a', '-a', '-a + b', '2 * x', '(a)', '']))}))})


@contract('C19', 'flip_non_allocatable_byproducts', {'data': List(FDS)}, shape=give_all_classes,
          functions=['ocelot.transformations.cutoff.wastes:flip_non_allocatable_byproducts', 'ocelot.transformations.utils:single_input'])
def flip_wastes(V, data):
    V.requires(all(classified(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(flip, data)
    V.ensures('never fails', out.exc is None)
    if out.exc is not None:
        return
    V.ensures('same number of datasets', len(out.value) == len(old))
    for o, n in zip(old, out.value):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges'))
        V.ensures('no exchange is lost', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if a['type'] == 'byproduct' and a['byproduct classification'] != 'allocatable product':
                V.ensures('becomes an input', b['type'] == 'from technosphere')
                V.ensures('with the opposite amount', V.eq(b['amount'], -a['amount']))
                V.ensures('without classification', 'byproduct classification' not in b)
                V.ensures('formula kept iff present', ('formula' in a) == ('formula' in b))
                if 'formula' in a:
                    V.ensures('formula negated', b['formula'] == '-1 * ({})'.format(a['formula']))
                V.ensures('nothing else changes', V.same_but(a, b, 'type', 'amount', 'byproduct classification', 'formula'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))
