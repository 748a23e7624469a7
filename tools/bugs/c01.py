DIST = 'ocelot/transformations/uncertainty/distributions.py'
INI = 'ocelot/transformations/uncertainty/__init__.py'
UT = 'ocelot/transformations/utils.py'
BUGS = [
dict(id='b01-lognormal-flag', property='C01', file=DIST,
     old="obj['uncertainty']['negative'] = not obj['uncertainty'].get('negative')",
     new="obj['uncertainty']['negative'] = obj['amount'] < 0 or not obj['uncertainty'].get('negative')",
     needs='a negative lognormal exchange that carries the flag and is scaled by a negative factor twice or has an inconsistent flag',
     breaks='the sign flag no longer simply flips', demo='''
from ocelot.transformations.uncertainty import scale_exchange
e = {'amount': -2., 'uncertainty': {'type': 'lognormal', 'mean': 2., 'mu': 0.69, 'variance': .1, 'variance with pedigree uncertainty': .1, 'negative': True}}
scale_exchange(e, -1)
assert not e['uncertainty']['negative']
e = {'amount': 2., 'uncertainty': {'type': 'lognormal', 'mean': 2., 'mu': 0.69, 'variance': .1, 'variance with pedigree uncertainty': .1, 'negative': True}}
scale_exchange(e, -1)
assert not e['uncertainty']['negative']
'''),
dict(id='b01-undefined-bounds', property='C01', file=DIST,
     old="""        obj['uncertainty']['minimum'] *= factor
        obj['uncertainty']['maximum'] *= factor
        # TODO: Adjust 95% factor?""",
     new="""        obj['uncertainty']['minimum'] *= factor
        if factor > 0 or obj['uncertainty']['minimum'] < 0:
            obj['uncertainty']['maximum'] *= factor
        # TODO: Adjust 95% factor?""",
     needs='a negative factor and a negative minimum', breaks='the maximum keeps its old scale', demo='''
from ocelot.transformations.uncertainty import scale_exchange
e = {'amount': 2., 'uncertainty': {'type': 'undefined', 'minimum': 1., 'maximum': 3.}}
e['uncertainty']['minimum'] = -1.
scale_exchange(e, -10)
assert e['uncertainty']['maximum'] == -30, e
'''),
dict(id='b02-repair-pv', property='C02', file=UT,
     old="""        pv = exc.get("production volume", {})
        if "uncertainty" in pv:
            yield pv
        for prop in exc.get('properties', []):
            if "uncertainty" in prop:
                yield prop
    for parameter""",
     new="""        pv = exc.get("production volume", {})
        if "uncertainty" in pv and "uncertainty" in exc:
            yield pv
        for prop in exc.get('properties', []):
            if "uncertainty" in prop:
                yield prop
    for parameter""",
     needs='a production volume with uncertainty on an exchange without', breaks='that production volume is not repaired', demo='''
from ocelot.transformations.parameterization.uncertainty import repair_all_uncertainty_distributions as r
d = [{'exchanges': [{'amount': 1., 'type': 'reference product', 'production volume': {'amount': 5., 'uncertainty':
    {'type': 'lognormal', 'mean': -2., 'mu': 9., 'variance': .1, 'variance with pedigree uncertainty': .1}}}]}]
try:
    r(d)
except Exception:
    r = None
assert abs(d[0]['exchanges'][0]['production volume']['uncertainty']['mean'] - 5) < 1e-9
'''),
dict(id='b03-normalize-epsilon', property='C03', file=UT,
     old="if abs(factor - 1) > epsilon:", new="if abs(factor - 1) > epsilon and product['amount'] != -1 / factor or factor < 1 - epsilon:",
     needs='a negative reference product amount between -1 and 0', breaks='such datasets are not normalised', demo='''
from ocelot.transformations.utils import normalize_reference_production_amount as n
d = {'name': '', 'filepath': '', 'exchanges': [{'name': 'x', 'type': 'reference product', 'amount': -0.5}, {'name': 'y', 'type': 'from technosphere', 'amount': 3.}]}
n(d)
assert d['exchanges'][0]['amount'] == -1
'''),
dict(id='b04-drop-by-name', property='C04', file=UT,
     old="        if exc != exchange\n", new="        if (exc.get('name', exc), exc['amount']) != (exchange.get('name', exchange), exchange['amount'])\n",
     needs='two allocatable products with the same name and amount', breaks='one of them is lost from the allocated dataset', demo='''
from ocelot.transformations.utils import choose_reference_product_exchange as c
d = {'name': '', 'filepath': '', 'exchanges': [{'id': '1', 'name': 'x', 'type': 'reference product', 'amount': 1.}, {'id': '2', 'name': 'x', 'type': 'byproduct', 'byproduct classification': 'allocatable product', 'amount': 1.}]}
assert len(c(d, d['exchanges'][0])['exchanges']) == 2
'''),
]
