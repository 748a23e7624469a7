B = 'ocelot/transformations/'
BUGS = [
dict(id='b05-zero-true-value', property='C05', file=B + 'cutoff/economic.py',
     old="mask = df['has true value']", new="mask = df['has true value'] & (df['true value'] != 0)",
     needs='a product with a true value of zero next to one with a positive true value', breaks='it is charged by revenue, the other product of the true value group gets too little', demo='''
from ocelot.transformations.cutoff.economic import economic_allocation
def e(n, t, price, tv=None):
    return {'id': n, 'name': n, 'type': t, 'amount': 1., 'unit': 'kg', 'production volume': {'amount': 1.}, 'byproduct classification': 'allocatable product',
            'properties': [{'name': 'price', 'amount': price}] + ([] if tv is None else [{'name': 'true value relation', 'amount': tv}])}
ds = {'name': 'x', 'filepath': '', 'location': 'CH', 'exchanges': [e('a', 'reference product', 2., 0.), e('b', 'byproduct', 2., 5.), e('c', 'byproduct', 4.),
      {'id': 'd', 'name': 'd', 'type': 'from environment', 'amount': 10., 'unit': 'kg'}]}
r = economic_allocation(ds)
t = [x['amount'] for d in r for x in d['exchanges'] if x['name'] == 'd' and any(y['type'] == 'reference product' and y['name'] == 'b' for y in d['exchanges'])]
assert len(t) == 1 and abs(t[0] - 5) < 1e-9, t
'''),
dict(id='b06-free-byproduct-name', property='C06', file=B + 'cutoff/wastes.py',
     old="        if exchange is not rp\n", new="        if exchange['name'] != rp['name']\n",
     needs='a useful by-product with the same name as the treated waste', breaks='no burden-free dataset for that by-product', demo='''
from ocelot.transformations.cutoff.wastes import waste_treatment_allocation
ds = {'name': 'x', 'filepath': '', 'location': 'CH', 'exchanges': [
  {'id': 'a', 'name': 'oil', 'type': 'reference product', 'amount': -1., 'byproduct classification': 'waste', 'production volume': {'amount': 1.}},
  {'id': 'b', 'name': 'oil', 'type': 'byproduct', 'amount': 2., 'byproduct classification': 'allocatable product', 'production volume': {'amount': 1.}}]}
assert len(waste_treatment_allocation(ds)) == 2
'''),
dict(id='b08-negative-byproduct', property='C08', file=B + 'cutoff/allocation.py',
     old="""                                 if exc['type'] == 'byproduct'
                                 and exc['amount'] != 0)""", new="""                                 if exc['type'] == 'byproduct'
                                 and exc['amount'] > 0)""",
     needs='a single reference product and an allocatable by-product with a negative amount', breaks='the dataset is labelled single product', demo='''
from ocelot.transformations.cutoff.allocation import choose_allocation_method as c
ds = {'name': 'x', 'type': 'transforming activity', 'exchanges': [
  {'type': 'reference product', 'amount': 1., 'byproduct classification': 'allocatable product'},
  {'type': 'byproduct', 'amount': -2., 'byproduct classification': 'allocatable product'}]}
assert c(ds) == 'economic', c(ds)
'''),
dict(id='b17-zero-second-product', property='C17', file=B + 'validation.py',
     old="""    num_rp = sum(1 for exc in dataset['exchanges']
                 if exc['type'] == 'reference product')""",
     new="""    num_rp = sum(1 for exc in dataset['exchanges']
                 if exc['type'] == 'reference product'
                 and exc.get('amount', 1) != 0)""",
     needs='a second reference product with amount zero', breaks='two reference products pass the single output gate', demo='''
from ocelot.transformations.validation import check_single_output_activity as c
try:
    c({'exchanges': [{'type': 'reference product', 'amount': 1.}, {'type': 'reference product', 'amount': 0.}]})
except Exception:
    pass
else:
    raise SystemExit(1)
'''),
dict(id='b18-tiny-amount-link', property='C18', file=B + 'cutoff/cleanup.py',
     old="if not exc['amount']\n", new="if not round(exc['amount'], 9)\n",
     needs='an exchange with a tiny but non-zero amount and a direct link', breaks='its link is dropped', demo='''
from ocelot.transformations.cutoff.cleanup import drop_zero_amount_activity_links as f
d = [{'name': '', 'exchanges': [{'name': '', 'amount': 1e-12, 'activity link': 'x'}]}]
f(d)
assert d[0]['exchanges'][0].get('activity link') == 'x'
'''),
dict(id='b19-formula-sign', property='C19', file=B + 'cutoff/wastes.py',
     old="            if 'formula' in exc:\n", new="            if 'formula' in exc and not exc['formula'].startswith('-'):\n",
     needs='a waste by-product whose formula starts with a minus', breaks='its formula does not flip with the amount', demo='''
from ocelot.transformations.cutoff.wastes import flip_non_allocatable_byproducts as f
d = {'name': '', 'exchanges': [{'name': '', 'type': 'byproduct', 'byproduct classification': 'waste', 'amount': -1., 'formula': '-a + b'}]}
f([d])
x = eval(d['exchanges'][0]['formula'], {'a': 5, 'b': 3})
assert x == 2, x
'''),
]
