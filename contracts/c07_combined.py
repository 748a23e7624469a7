# -*- coding: utf-8 -*-
"""C07: combined production: subdivision, allocation of each part, merging."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *
from .c04_choose import without
from .c20_formulas import give_formulas, evaluable, moderate, every_object, check_values

from ocelot.errors import InvalidExchange, InvalidMultioutputDataset
from ocelot.transformations.cutoff.combined import (
    add_exchanges, combined_production, combined_production_with_byproducts, combined_production_without_products,
    handle_split_dataset, merge_byproducts, nonzero_reference_product_exchanges, selected_product)
from ocelot.transformations.consequential.combined import multi_rp, split_combined_production

C = 'ocelot.transformations.cutoff.combined:'
DROP = ('amount', 'type', 'formula', 'production volume', 'uncertainty')
KEXC = EXC.with_({'id': Str(unique=True), 'variable': Maybe(Str(pool=['a', 'b']))})
KDS = DATASET.with_({'exchanges': List(KEXC), 'parameters': Maybe(List(Dict({'name': Str(), 'amount': Num(), 'variable': Maybe(Str())})))})
SAME = ((C + 'recalculate', lambda dataset: dataset),)


def made(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product' and e['amount'] != 0]


@contract('C07', 'nonzero_reference_product_exchanges / selected_product', {'ds': KDS}, functions=[C + 'nonzero_reference_product_exchanges', C + 'selected_product'])
def chosen(V, ds):
    old = deepcopy(ds)
    out = V.call(nonzero_reference_product_exchanges, ds)
    V.ensures('the products made', out.exc is None and V.same(list(out.value), made(old)))
    V.ensures('pure', V.same(old, ds))
    for o, e in zip(old['exchanges'], ds['exchanges']):
        out = V.call(selected_product, e)
        V.ensures('a selected product keeps its amount', out.exc is None and out.value is e and V.same_but(o, e, 'formula', 'uncertainty'))
        V.ensures('which is fixed', 'formula' not in e and 'uncertainty' not in e)


def gone(e):
    """A product that is not made."""
    e = without(e, 'formula', 'production volume', 'uncertainty')
    e['amount'] = 0
    e['type'] = 'dropped product'
    return e


def part(ds, rp):
    """The part of a dataset which makes one of its products, before its formulas are evaluated."""
    new = deepcopy(ds)
    new['exchanges'] = ([without(rp, 'formula', 'uncertainty')] +
                        [gone(e) for e in ds['exchanges'] if e['type'] == 'reference product' and e['id'] != rp['id']] +
                        [deepcopy(e) for e in ds['exchanges'] if e['type'] != 'reference product'])
    return new


@contract('C07', 'combined_production: subdivision', {'ds': KDS, 'plain': Bool()}, functions=[C + 'combined_production', C + 'nonzero_reference_product_exchanges'], budget=200)
def subdivision(V, ds, plain):
    old = deepcopy(ds)
    out = V.call_in(SAME, combined_production, ds, plain)
    V.ensures('never fails', out.exc is None)
    V.ensures('the source is not changed', V.same(old, ds))
    V.ensures('one dataset for each product, which makes only this one', V.same(out.value, [part(old, rp) for rp in made(old)]))


@contract('C07', 'add_exchanges', {'a': KDS, 'b': KDS}, functions=[C + 'add_exchanges'], budget=100)
def added(V, a, b):
    olda, oldb = deepcopy(a), deepcopy(b)
    out = V.call(add_exchanges, a, b)
    V.ensures('never fails', out.exc is None and out.value is a)
    V.ensures('the second dataset is not changed', V.same(oldb, b))
    V.ensures('attributes are kept', V.same_but(olda, a, 'exchanges'))
    V.ensures('and exchanges', len(olda['exchanges']) == len(a['exchanges']))
    for o, n in zip(olda['exchanges'], a['exchanges']):
        V.ensures('amounts of the same exchange are added', V.eq(
            n['amount'], o['amount'] + sum(e['amount'] for e in oldb['exchanges'] if e['id'] == o['id'])))
        V.ensures('nothing else changes', V.same_but(o, n, 'amount', 'uncertainty'))
        if o['type'] == 'reference product':
            V.ensures('products have no uncertainty', 'uncertainty' not in n)
        else:
            V.ensures('distributions are kept', V.same(o, dict(n, amount=o['amount'])))


PART = Dict({'name': Str(), 'exchanges': List(KEXC)})


def has_byproducts(ds):
    return any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' for e in ds['exchanges'])


def give_groups(rng, ins, g, key='data'):
    """Datasets with the same product share identifiers of exchanges."""
    for ds in ins[key]:
        ds['name'] = rng.choice(['act', 'act', 'other'])
        seen = set()
        for i, e in enumerate(ds['exchanges']):
            e['id'] = 'i%d' % rng.randint(0, 4)
            if e['type'] == 'byproduct' and rng.random() < .9:
                e['byproduct classification'] = 'waste'
            if e['type'] == 'reference product' and rng.random() < .9:
                e['type'] = 'from technosphere'
        if ds['exchanges'] and rng.random() < .95:
            rng.choice(ds['exchanges']).update({'type': 'reference product', 'name': rng.choice(['p', 'p', 'q'])})
        ds['exchanges'] = [e for e in ds['exchanges'] if not (e['id'] in seen or seen.add(e['id']))]
    return ins


@contract('C07', 'merge_byproducts: refusals', {'data': List(KDS)}, shape=give_groups, functions=['ocelot.transformations.cutoff.validation:valid_merge_datasets'])
def merge_refused(V, data):
    V.requires(all('byproduct classification' in e for ds in data for e in ds['exchanges'] if e['type'] == 'byproduct'))
    V.requires(any(has_byproducts(ds) for ds in data))
    old = deepcopy(data)
    out = V.call(merge_byproducts, data)
    V.ensures('datasets which still have allocatable byproducts are refused', out.exc is InvalidExchange)
    V.ensures('and left alone', V.same(old, data))


@contract('C07', 'merge_byproducts', {'data': List(PART)}, shape=give_groups, mode='concrete', tries=1500, functions=[C + 'merge_byproducts', C + 'add_exchanges'],
          note='groups of datasets, of which each is added to the first')
def merged(V, data):
    V.requires(all('byproduct classification' in e for ds in data for e in ds['exchanges'] if e['type'] == 'byproduct'))
    V.requires(not any(has_byproducts(ds) for ds in data))
    V.requires(all(len({e['id'] for e in ds['exchanges']}) == len(ds['exchanges']) for ds in data))
    V.requires(all(len([e for e in ds['exchanges'] if e['type'] == 'reference product']) == 1 for ds in data))
    which = lambda ds: (ds['name'], [e['name'] for e in ds['exchanges'] if e['type'] == 'reference product'][0])
    old = deepcopy(data)
    out = V.call(merge_byproducts, data)
    V.ensures('never fails', out.exc is None)
    res = list(out.value)
    groups = {}
    for ds in old:
        groups.setdefault(which(ds), []).append(ds)
    V.ensures('one dataset for each activity and product', [which(ds) for ds in res] == list(groups))
    for ds in res:
        group = groups[which(ds)]
        V.ensures('it has the exchanges of the first', len(ds['exchanges']) == len(group[0]['exchanges']) and V.same_but(ds, group[0], 'exchanges'))
        for o, n in zip(group[0]['exchanges'], ds['exchanges']):
            V.ensures('with the amounts of all', V.eq(n['amount'], sum(e['amount'] for d in group for e in d['exchanges'] if e['id'] == o['id'])))
            V.ensures('and nothing else changes', V.same_but(o, n, 'amount', 'uncertainty') and (
                o['type'] == 'reference product' and len(group) > 1 or V.same(o.get('uncertainty'), n.get('uncertainty'))))


# ---------------------------------------------------------------- composition
treated = abstract('treated', lambda ds: ('waste treatment of', ds), sort='opq')
recycled = abstract('recycled', lambda ds: ('recycling of', ds), sort='opq')
REC_DS = Dict({'name': Str(), 'filepath': Str(), 'exchanges': List(KEXC)})


@contract('C07', 'handle_split_dataset', {'ds': REC_DS}, functions=[C + 'handle_split_dataset'])
def split_handled(V, ds):
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product']
    V.requires(all('byproduct classification' in e for e in rps))
    old = deepcopy(ds)
    out = V.call_in(((C + 'waste_treatment_allocation', lambda dataset: [deepcopy(dataset), 'treatment']), (C + 'recycling_allocation', lambda dataset: [deepcopy(dataset), 'recycling'])),
                    handle_split_dataset, ds)
    if len(rps) == 0:
        V.ensures('without product it is refused', out.exc is ValueError)
    elif len(rps) > 1:
        V.ensures('with several products it is refused', out.exc is InvalidMultioutputDataset)
    elif rps[0]['byproduct classification'] == 'waste':
        V.ensures('waste is treated', out.exc is None and out.value[1] == 'treatment' and V.same(out.value[0], old))
    elif rps[0]['byproduct classification'] == 'recyclable':
        V.ensures('recyclables are recycled, under a name which tells them apart', out.exc is None and out.value[1] == 'recycling' and V.same_but(
            out.value[0], old, 'name') and out.value[0]['name'] == old['name'] + ', from ' + rps[0]['name'])
    else:
        V.ensures('anything else is refused', out.exc is InvalidExchange)


GRAND = Dict({'name': Str(), 'value': Num()})
CHILDREN = Dict({'name': Str(), 'list': List(GRAND)})


@contract('C07', 'combined production: composition', {'ds': Dict({'name': Str(), 'list': List(CHILDREN)})},
          functions=[C + 'combined_production_without_products', C + 'combined_production_with_byproducts'])
def composed(V, ds):
    old = deepcopy(ds)
    want = [new for sub in ds['list'] for new in sub['list']]
    out = V.call_in(((C + 'combined_production', lambda dataset, plain=True: dataset['list']), (C + 'handle_split_dataset', lambda ds: ds['list'])),
                    combined_production_without_products, ds)
    V.ensures('each part is allocated', out.exc is None and V.same(out.value, want))
    out = V.call_in(((C + 'combined_production', lambda dataset, plain=True: dataset['list']), (C + 'economic_allocation', lambda dataset, use_true_value=True: dataset['list']), (C + 'merge_byproducts', lambda data: [{'merged': x} for x in data])),
                    combined_production_with_byproducts, ds)
    V.ensures('each part is allocated and all of them merged', out.exc is None and V.same(out.value, [{'merged': x} for x in want]))
    V.ensures('pure', V.same(old, ds))


@contract('C07', 'split_combined_production', {'data': List(KDS)}, functions=['ocelot.transformations.consequential.combined:multi_rp'])
def consequential(V, data):
    old = deepcopy(data)
    V.ensures('it splits combined production', split_combined_production.__name__ == 'combined_production')
    for ds in data:
        out = V.call(multi_rp, ds)
        V.ensures('of datasets with more than one product', out.exc is None and out.value == (len([e for e in ds['exchanges'] if e['type'] == 'reference product']) > 1))
    V.ensures('pure', V.same(old, data))


def give_combined(rng, ins, g):
    """Products are variables which the formulas of the other exchanges refer to."""
    ds = give_formulas(rng, {}, g)['ds']
    for e in ds['exchanges']:
        e['type'] = rng.choice(['from technosphere', 'to environment', 'byproduct'])
    some = [e for e in ds['exchanges'] if 'variable' in e]
    for e in rng.sample(some, rng.randint(0, min(3, len(some)))):
        e['type'] = 'reference product'
        if rng.random() < .8:
            e.pop('formula', None)
    return {'ds': ds}


@contract('C07', 'combined_production: values of formulas', {'ds': KDS}, shape=give_combined, mode='concrete', tries=800,
          functions=[C + 'combined_production'], note='the formula interpreter is external')
def part_values(V, ds):
    V.requires(all('parameters' not in e and 'id' in e for e in ds['exchanges']) and 'parameters' in ds)
    V.requires(len({e['id'] for e in ds['exchanges']}) == len(ds['exchanges']))
    V.requires(evaluable(ds) and moderate(ds) and all(moderate(part(ds, rp)) for rp in made(ds)))
    V.requires(all(o.get('uncertainty') != 'x' for o in every_object(ds)))
    old = deepcopy(ds)
    out = V.call(combined_production, ds)
    V.ensures('never fails', out.exc is None and len(out.value) == len(made(old)))
    V.ensures('the source is not changed', V.same(old, ds))
    for rp, new in zip(made(old), out.value):
        check_values(V, part(old, rp), new)
