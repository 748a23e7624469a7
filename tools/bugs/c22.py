B = 'ocelot/transformations/'
L = B + 'locations/'
BUGS = [
dict(id='b22-zero-input', property='C22', file=B + 'cutoff/markets.py',
     old="all_negative = lambda ds: all(exc['amount'] <= 0 for exc in ds['exchanges'])",
     new="all_negative = lambda ds: all(exc['amount'] < 0 for exc in ds['exchanges'])",
     needs='a market with negative exchanges and an input of zero', breaks='only the product is flipped, its inputs stay negative', demo='''
from ocelot.transformations.cutoff.markets import adjust_market_signs_for_allocatable_products as f
d = [{'name': 'm', 'location': 'x', 'type': 'market activity', 'exchanges': [
   {'name': 'p', 'type': 'reference product', 'amount': -1., 'byproduct classification': 'allocatable product'},
   {'name': 'a', 'type': 'from technosphere', 'amount': 0.}, {'name': 'b', 'type': 'from technosphere', 'amount': -2.}]}]
f(d)
assert [e['amount'] for e in d[0]['exchanges']] == [1., 0., 2.], d
'''),
]
P = B + 'parameterization/'
BUGS += [
dict(id='b25-links-twice', property='C25', file=L + 'markets.py',
     old="for s in ds['suppliers']) - missing_market_pv,", new="for s in ds['suppliers']) - missing_market_pv - (missing_inputs_pv if kind == 'market group' else 0),",
     needs='a market group with a supplier of which activity links were subtracted', breaks='the links are subtracted twice', demo='''
from ocelot.transformations.locations.market_groups import link_market_group_suppliers as f
from ocelot.transformations.locations.markets import update_market_production_volumes as u
ds = lambda ty, l, v: {'name': ty, 'location': l, 'type': ty, 'reference product': 'p', 'code': ty + l, 'exchanges': [
   {'name': 'p', 'unit': 'kg', 'type': 'reference product', 'amount': 1., 'production volume': v}]}
d = f([ds('market group', 'GLO', {'amount': 0.}), ds('market activity', 'RER', {'amount': 5., 'subtracted activity link volume': 2.})])
u(d, kind='market group')
assert d[0]['exchanges'][0]['production volume']['amount'] == 5., d[0]
'''),
dict(id='b21-first-symbol', property='C21', file=P + 'python_compatibility.py',
     old="exc['formula'].replace(bad, good)", new="exc['formula'].replace(bad, good, 1)",
     needs='a formula with two powers or percentages', breaks='the second ^ stays and means exclusive or', demo='''
from ocelot.transformations.parameterization.python_compatibility import fix_math_formulas as f
d = f([{'name': '', 'exchanges': [], 'parameters': [{'formula': '2^3 + 2^4'}]}])
assert eval(d[0]['parameters'][0]['formula']) == 24, d
'''),
dict(id='b02-property-repair', property='C02', file=B + 'utils.py',
     old="""        if "uncertainty" in pv:
            yield pv
        for prop in exc.get('properties', []):
            if "uncertainty" in prop:""", new="""        if "uncertainty" in pv:
            yield pv
        for prop in exc.get('properties', []):
            if "uncertainty" in prop and "uncertainty" in exc:""",
     needs='an uncertain property of a certain exchange', breaks='its distribution is not repaired', demo='''
from ocelot.transformations.utils import iterate_all_uncertainties as f
assert len(list(f({'exchanges': [{'properties': [{'uncertainty': {}}]}]}))) == 1
'''),
dict(id='b17-first-bad-property', property='C17', file=B + 'validation.py',
     old="""        for exc in allocatable_production(ds):
            if 'production volume' not in exc:""", new="""        for exc in allocatable_production(ds):
            if 'production volume' not in exc and exc['type'] == 'reference product':""",
     needs='an allocatable by-product without production volume', breaks='it passes the gate', demo='''
from ocelot.transformations.validation import ensure_production_exchanges_have_production_volume as f
try:
    f([{'filepath': '', 'exchanges': [{'type': 'byproduct', 'byproduct classification': 'allocatable product'}]}])
except Exception as e:
    assert type(e).__name__ == 'InvalidExchange', e
else:
    assert 0
'''),
dict(id='b24-market-level', property='C24', file=B + 'consequential/technology_levels.py',
     old="""        if ds['technology level'] == 'undefined':
            ds['technology level'] = 'current'""", new="""        if ds['technology level'] == 'undefined' and ds['location'] != 'GLO':
            ds['technology level'] = 'current'""",
     needs='a global activity of undefined level', breaks='its level stays undefined', demo='''
from ocelot.transformations.consequential.technology_levels import switch_undefined_to_current as f
d = {'type': 'transforming activity', 'technology level': 'undefined', 'location': 'GLO', 'name': '', 'reference product': ''}
f([d])
assert d['technology level'] == 'current'
'''),
]
