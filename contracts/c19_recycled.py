# -*- coding: utf-8 -*-
"""C19: recycled content cut-off."""
from copy import deepcopy

from pyvc.harness import contract
from pyvc.schema import *
from .data import *

from ocelot.transformations.cutoff import RC_STRING
from ocelot.transformations.cutoff.wastes import (
    rename_recyclable_content_exchanges, create_recycled_content_datasets,
    rename_recycled_content_products_after_linking)

W = 'ocelot.transformations.cutoff.wastes:'
RDS = DATASET.with_({'exchanges': List(EXC)})


def recyclable(e):
    return e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable'


@contract('C19', 'rename_recyclable_content_exchanges', {'data': List(RDS)}, shape=give_all_classes,
          functions=[W + 'rename_recyclable_content_exchanges'])
def rename(V, data):
    V.requires(all(classified(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(rename_recyclable_content_exchanges, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('same list', out.value is data and len(data) == len(old))
    for o, n in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges'))
        V.ensures('no exchange is lost', len(o['exchanges']) == len(n['exchanges']))
        for a, b in zip(o['exchanges'], n['exchanges']):
            if recyclable(a):
                V.ensures('recyclable byproducts get the suffix', b['name'] == a['name'] + ', Recycled Content cut-off')
                V.ensures('and nothing else', V.same_but(a, b, 'name'))
            else:
                V.ensures('other exchanges unchanged', V.same(a, b))


COMMON = ('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date', 'technology level',
          'dataset author', 'data entry')
CDS = DATASET.with_(dict({k: Opaque() for k in COMMON}, exchanges=List(EXC.with_({'id': Str()}))))


@contract('C19', 'create_recycled_content_datasets', {'data': List(CDS)}, shape=give_all_classes,
          functions=[W + 'create_recycled_content_datasets', W + 'create_new_recycled_content_dataset'])
def create(V, data):
    V.requires(all(classified(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(create_recycled_content_datasets, data)
    V.ensures('never fails', out.exc is None)
    if out.exc is not None:
        return
    V.ensures('source data unchanged', V.same(old, data))
    V.ensures('existing datasets are kept', V.same(out.value[:len(old)], old))
    for n in out.value[len(old):]:
        V.ensures('new datasets only for recyclables', any(recyclable(e) and e['name'] == n['name'] for ds in old for e in ds['exchanges']))
        V.ensures('it provides one unit for free and has no other exchange',
                  n['location'] == 'GLO' and n['reference product'] == n['name'] and len(n['exchanges']) == 1
                  and n['exchanges'][0]['name'] == n['name'] and n['exchanges'][0]['type'] == 'reference product'
                  and n['exchanges'][0]['amount'] == 1)


@contract('C19', 'create_recycled_content_datasets: coverage', {'data': List(CDS)}, shape=give_all_classes, mode='concrete',
          note='first occurrences over two nested lists: no proof found, bounded', functions=[])
def coverage(V, data):
    V.requires(all(classified(ds) for ds in data))
    out = V.call(create_recycled_content_datasets, data)
    if out.exc is not None:
        return
    names = [n['name'] for n in out.value[len(data):]]
    V.ensures('every recyclable gets a dataset, once',
              sorted(names) == sorted(set(e['name'] for ds in data for e in ds['exchanges'] if recyclable(e))))


@contract('C19', 'rename_recycled_content_products_after_linking', {'data': List(RDS.with_({'reference product': Maybe(Str())}))},
          functions=[W + 'rename_recycled_content_products_after_linking'])
def after(V, data):
    old = deepcopy(data)
    out = V.call(rename_recycled_content_products_after_linking, data)
    V.ensures('never fails', out.exc is None)
    for o, n in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(o, n, 'exchanges', 'reference product'))
        V.ensures('no exchange is lost', len(o['exchanges']) == len(n['exchanges']))
        if 'reference product' in o:
            r = o['reference product']
            V.ensures('suffix removed from the label', n['reference product'] == (r.replace(RC_STRING, '') if r.endswith(RC_STRING) else r))
        for a, b in zip(o['exchanges'], n['exchanges']):
            V.ensures('exchanges otherwise unchanged', V.same_but(a, b, 'name'))
            V.ensures('suffix removed from the flow name',
                      b['name'] == (a['name'].replace(RC_STRING, '') if a['name'].endswith(RC_STRING) else a['name']))
