B = 'ocelot/transformations/'
L = B + 'locations/'
BUGS = [
dict(id='b09-zero-link', property='C09', file=B + 'activity_links.py',
     old="        for link in (o for o in original_ds['exchanges']\n                     if o.get(\"activity link\")):\n            try:",
     new="        for link in (o for o in original_ds['exchanges']\n                     if o.get(\"activity link\") and o.get('amount', 1)):\n            try:",
     needs='an activity link with amount zero to a dataset that does not exist', breaks='the link is accepted', demo='''
from ocelot.transformations.activity_links import check_activity_link_validity as c
try:
    c([{'id': 'a', 'filepath': '', 'exchanges': [{'name': 'x', 'type': 'from technosphere', 'amount': 0., 'activity link': 'gone'}]}])
except Exception as e:
    assert type(e).__name__ == 'UnresolvableActivityLink', e
else:
    raise SystemExit(1)
'''),
dict(id='b11-negative-products', property='C11', file=L + 'rest_of_world.py',
     old="                if exc['amount']\n", new="                if exc['amount'] > 0\n",
     needs='activities of the same name that treat different wastes (negative amounts)', breaks='the global one is relabelled though the regional one treats another waste', demo='''
from ocelot.transformations.locations.rest_of_world import relabel_global_to_row as f
ds = lambda n, l: {'name': 'treatment', 'location': l, 'type': 'transforming activity', 'exchanges': [
   {'name': n, 'unit': 'kg', 'type': 'reference product', 'amount': -1., 'byproduct classification': 'waste', 'production volume': {'amount': 5.}}]}
r = f([ds('a', 'GLO'), ds('b', 'CH')])
assert r[0]['location'] == 'GLO', r
'''),
dict(id='b12-rest-of-technologies', property='C12', file=L + 'markets.py',
     old="                [obj['location'] for obj in group\n            ])\n            sd =", new="                [obj['location'] for obj in suppliers\n            ])\n            sd =",
     needs='a market covering exactly the rest of the world of one technology, beside regional suppliers of another', breaks='the rest of the world of a technology is computed without the places of the other technologies', demo='''
from ocelot.transformations.locations.markets import add_suppliers_to_markets as f
ds = lambda n, l, t: {'name': n, 'location': l, 'type': t, 'reference product': 'p', 'code': n + l, 'exchanges': [
   {'name': 'p', 'unit': 'kg', 'type': 'reference product', 'amount': 1., 'production volume': {'amount': 5.}}]}
T = 'transforming activity'
d = f([ds('m', 'RoW', 'market activity'), ds('m', 'CH', 'market activity'), ds('one', 'DE', T), ds('one', 'RoW', T), ds('two', 'CH', T)])
assert sorted(s['code'] for s in d[0]['suppliers']) == ['oneDE'], d[0]['suppliers']
'''),
dict(id='b13-negative-share', property='C13', file=L + 'markets.py',
     old="                'amount': scale_factor * exc['amount'],", new="                'amount': scale_factor * abs(exc['amount']),",
     needs='a market for waste, whose reference product has a negative amount', breaks='the inputs have the wrong sign', demo='''
from ocelot.transformations.locations.markets import allocate_suppliers as f
d = {'name': 'market', 'location': 'GLO', 'type': 'market activity', 'exchanges': [{'name': 'w', 'unit': 'kg', 'type': 'reference product', 'amount': -1.}],
     'suppliers': [{'name': 'w', 'unit': 'kg', 'code': c, 'location': 'CH', 'production volume': {'amount': 2.}} for c in 'ab']}
f(d)
assert [e['amount'] for e in d['exchanges']] == [-1., -.5, -.5], d
'''),
dict(id='b14-group-first', property='C14', file=L + 'linking.py',
     old="                        found.append(candidate)\n                        if candidate in markets:\n                            to_add.append(markets[candidate])\n                        else:\n                            to_add.append(market_groups[candidate])\n                        break",
     new="                        found.append(candidate)\n                        if candidate in market_groups:\n                            to_add.append(market_groups[candidate])\n                        else:\n                            to_add.append(markets[candidate])\n                        break",
     needs='a consumer inside a place that has both a market and a market group', breaks='the input is linked to the group', demo='''
from ocelot.transformations.locations.linking import link_consumers_to_markets as f
ds = lambda t, c: {'name': c, 'location': 'RER', 'type': t, 'reference product': 'p', 'code': c, 'exchanges': [
   {'name': 'p', 'unit': 'kg', 'type': 'reference product', 'amount': 1., 'production volume': {'amount': 5.}}]}
c = {'name': 'c', 'location': 'CH', 'type': 'transforming activity', 'reference product': 'q', 'code': 'c', 'exchanges': [
   {'name': 'p', 'unit': 'kg', 'type': 'from technosphere', 'amount': 1.}]}
f([ds('market group', 'group'), ds('market activity', 'market'), c])
assert c['exchanges'][0]['code'] == 'market', c
'''),
dict(id='b15-order-of-data', property='C15', file=L + '_topology.py',
     edits=[(L + '_topology.py', "        q = lambda x: tuple(sorted({x['location'] for x in datasets}))", "        q = lambda x: tuple(dict.fromkeys(x['location'] for x in datasets))"),
            (L + '_topology.py', "key=lambda k: (size(k), k), reverse=True)", "key=size, reverse=True)")],
     needs='two places of the same size, in different orders in the data', breaks='the order of places depends on the order of the data', demo='''
from ocelot.transformations.locations import topology as t
sizes = {}
for k, v in sorted(t.data.items()):
    sizes.setdefault(len(v), []).append({'location': k})
for l in sizes.values():
    l = l[:8]
    assert t.ordered_dependencies(l) == t.ordered_dependencies(l[::-1])
'''),
dict(id='b23-formula-of-zero', property='C23', file=B + 'consequential/constrained_markets.py',
     old="    if 'formula' in exc:\n", new="    if 'formula' in exc and exc['amount']:\n",
     needs='an exchange with amount zero and a formula', breaks='its formula keeps its sign', demo='''
from ocelot.transformations.consequential.constrained_markets import flip_exchange as f
e = f({'amount': 0., 'formula': 'x'})
assert eval(e['formula'], {'x': 2.}) == -2., e
'''),
dict(id='b24-level-of-groups', property='C24', file=B + 'consequential/market_linking.py',
     edits=[(B + 'consequential/market_linking.py', "        if not ds.get('suppliers'):\n", "        if len(ds.get('suppliers', [])) < 3 and ds['type'] == 'market group' or not ds.get('suppliers'):\n")],
     needs='a market group with two suppliers of different technology levels', breaks='both stay', demo='''
from ocelot.transformations.consequential.market_linking import prune_suppliers_by_technology_level as f
d = [{'type': 'market group', 'suppliers': [{'technology level': 'old'}, {'technology level': 'new'}]}]
f(d)
assert len(d[0]['suppliers']) == 1
'''),
dict(id='b26-empty-result', property='C26', file='ocelot/wrapper.py',
     old="            _ = lambda ds: self.func(ds) if self.filter_function(ds) else [ds]", new="            _ = lambda ds: (self.filter_function(ds) and self.func(ds)) or [ds]",
     needs='a filtered function that removes a dataset (returns an empty list)', breaks='the dataset stays', demo='''
from ocelot.wrapper import TransformationWrapper as W
def drop(ds):
    return []
assert W(drop, lambda ds: ds['x'] == 1)([{'x': 1}, {'x': 2}]) == [{'x': 2}]
'''),
dict(id='b27-empty-range', property='C27', file='ocelot/results.py',
     old="            return lambda x: x in possibles", new="            return lambda x: x in possibles or x == possibles[0]",
     needs='a range whose end is before its beginning', breaks='the strategy fails instead of saving nothing', demo='''
from ocelot.results import SaveStrategy as S
s = S('5:3')
assert not any(s(i) for i in range(1, 10))
'''),
dict(id='b28-equal-times', property='C28', file='ocelot/filesystem.py',
     old="    return cache_time > source_time", new="    return cache_time >= source_time",
     needs='a cache file with exactly the time of the newest source file', breaks='the cache counts as fresh', demo='''
import os, tempfile, ocelot.filesystem as f
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, 'src'); os.mkdir(src)
    open(os.path.join(src, 'a'), 'w').close()
    cache = os.path.join(d, 'c.pickle'); open(cache, 'w').close()
    for p in (os.path.join(src, 'a'), src, cache):
        os.utime(p, (10 ** 9, 10 ** 9))
    f.get_cache_filepath_for_data_path = lambda p: cache
    assert f.check_cache_directory(src) is False
'''),
dict(id='b29-parameter-zero', property='C29', file='ocelot/io/extract_ecospold2.py',
     old="    if obj.get('mathematicalRelation'):\n        param['formula']", new="    if obj.get('mathematicalRelation') and 'variable' in param:\n        param['formula']",
     needs='a parameter with a formula but without variable name', breaks='its formula is lost', demo='''
from lxml import objectify
from ocelot.io.extract_ecospold2 import extract_parameter as f
p = f(objectify.fromstring('<parameter parameterId="i" amount="1" mathematicalRelation=" 2*3 "><name>n</name></parameter>'))
assert p.get('formula') == '2*3', p
'''),
dict(id='b30-refinery-gas', property='C30', file='ocelot/io/brightway2.py',
     old="    return (exc['name'] != 'refinery gas' or exc.get('code'))", new="    return ('refinery gas' not in exc['name'] or exc.get('code'))",
     needs='a flow to nature whose name contains refinery gas', breaks='it is dropped', demo='''
from ocelot.io.brightway2 import Brightway2Converter as C
k = ("code", "economic scenario", "end date", "filepath", "location", "name", "start date", "technology level", 'dataset author', 'data entry')
d = dict.fromkeys(k, 'x')
d['exchanges'] = [{'type': 'reference product', 'name': 'p', 'unit': 'kg', 'amount': 1., 'code': 'x'},
  {'type': 'to environment', 'name': 'loss of refinery gas', 'unit': 'kg', 'amount': 1., 'compartment': 'air', 'subcompartment': 'u'}]
assert len(C.translate_activity(d, 'db')['exchanges']) == 2
'''),
dict(id='b31-sorted-list', property='C31', file='ocelot/report.py',
     old="            data['functions'][self.index]['listdata'].append(line['data'])",
     new="            if line['data'] not in data['functions'][self.index]['listdata']:\n                data['functions'][self.index]['listdata'].append(line['data'])",
     needs='a function that logs the same list element twice', breaks='the report shows it once', demo='''
from ocelot.report import HTMLReport as H
h = H.__new__(H)
d = {'functions': {}, 'counts': [], 'times': []}
h.handle_line({'type': 'function start', 'index': 1, 'time': 1, 'table': None}, d)
for i in range(2):
    h.handle_line({'type': 'list element', 'data': 'same'}, d)
assert d['functions'][1]['listdata'] == ['same', 'same'], d
'''),
dict(id='b32-dated-files', property='C32', file='ocelot/io/cleanup.py',
     old="        if created < now - one_week:\n", new="        if created < now - one_week and os.listdir(dirpath):\n",
     needs='an old report directory that is empty', breaks='it is kept', demo='''
import os, tempfile, ocelot.io.cleanup as c
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, 'old'))
    c.get_output_directory = lambda: d
    gone = []
    class S:
        rmtree = staticmethod(gone.append)
    c.shutil = S
    class T:
        time = staticmethod(lambda: __import__('time').time() + 10 ** 6)
        ctime = staticmethod(__import__('time').ctime)
    c.time = T
    c.cleanup_data_directory()
    assert len(gone) == 1, gone
'''),
]

BUGS += [
dict(id='b07-three-parts', property='C07', file=B + 'cutoff/combined.py',
     old="            parent = add_exchanges(parent, child)\n", new="            parent = add_exchanges(deepcopy(group[0]), child)\n",
     needs='three parts which make the same product', breaks='only the first and the last of them are added up', demo='''
from ocelot.transformations.cutoff import combined as c
ex = lambda i, a, **k: dict({'id': i, 'tag': 'intermediateExchange', 'name': i, 'type': 'from technosphere', 'amount': a, 'unit': 'kg'}, **k)
part = lambda a: {'name': 'n', 'location': 'GLO', 'exchanges': [
    ex('c', a, type='reference product', **{'byproduct classification': 'allocatable product', 'production volume': {'amount': 1.}}), ex('i', 10 * a)]}
for n in (1, 2, 3, 4):
    r = list(c.merge_byproducts([part(float(k + 1)) for k in range(n)]))
    total = sum(range(1, n + 1))
    assert [[x['amount'] for x in d['exchanges']] for d in r] == [[total, 10 * total]], r
'''),
dict(id='b07-negative-product', property='C07', file=B + 'cutoff/combined.py',
     old="            and exc['amount'])\n\n\ndef selected", new="            and exc['amount'] > 0)\n\n\ndef selected",
     needs='a waste treated next to another product', breaks='there is no part for the treatment', demo='''
from ocelot.transformations.cutoff import combined as c
c.recalculate = lambda ds: ds
e = lambda i, a: {'id': i, 'name': i, 'type': 'reference product', 'amount': a, 'unit': 'kg', 'variable': i, 'production volume': {'amount': 1.}}
r = c.combined_production({'name': '', 'location': '', 'exchanges': [e('a', 1.), e('b', -1.)]})
assert [d['exchanges'][0]['amount'] for d in r] == [1., -1.], r
'''),
dict(id='b10-empty-volume', property='C10', file=B + 'parameterization/production_volumes.py',
     old="        if not pv:\n", new="        if not pv or not pv['amount']:\n",
     needs='a production volume of zero with a variable', breaks='the variable is not moved to a parameter', demo='''
from ocelot.transformations.parameterization.production_volumes import create_pv_parameters as f
d = {'name': '', 'parameters': [], 'exchanges': [{'unit': 'kg', 'production volume': {'amount': 0., 'variable': 'v'}}]}
f([d])
assert len(d['parameters']) == 1 and d['exchanges'][0]['production volume'] == {'amount': 0.}, d
'''),
dict(id='b20-missing-uncertainty', property='C20', file=B + 'parameterization/recalculation.py',
     old="        if obj.get('uncertainty'):\n            get_uncertainty_class", new="        if obj.get('uncertainty') and 'variable' not in obj:\n            get_uncertainty_class",
     needs='an uncertain exchange with a variable and a formula', breaks='its distribution is left inconsistent with the new value', demo='''
from ocelot.transformations.parameterization.recalculation import recalculate as f
d = {'name': '', 'parameters': [], 'exchanges': [{'name': 'a', 'amount': 4., 'variable': 'x', 'formula': '2 + 3', 'uncertainty': {
     'type': 'lognormal', 'mean': 4., 'mu': 1.3863, 'variance': .1, 'variance with pedigree uncertainty': .1}}]}
f(d)
assert abs(d['exchanges'][0]['uncertainty']['mean'] - 5) < 1e-9, d
'''),

dict(id='b16-case-of-codes', property='C16', file=B + 'utils.py',
     old="dataset.get(field, '').lower() for field in fields)", new="dataset.get(field, '').lower() if field != 'unit' else dataset.get(field, '') for field in fields)",
     needs='two datasets whose units differ in case only', breaks='they get different codes', demo='''
from ocelot.transformations.utils import activity_hash as f
d = dict(zip(("name", "reference product", "unit", "location", "start date", "end date"), 'abcdef'))
assert f(d) == f(dict(d, unit='C'))
'''),
]
