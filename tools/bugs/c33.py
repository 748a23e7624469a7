B = 'ocelot/transformations/'
RUN = '''
import os, sys, tempfile
from unittest import mock
tmp = tempfile.TemporaryDirectory()
os.environ['OCELOT_OUTPUT'] = tmp.name
import ocelot.model as m
ids = iter(range(1000))
def ds(name, loc, type_, *exs):
    n = next(ids)
    return {'filepath': 'f%d' % n, 'id': 'd%d' % n, 'parent': None, 'name': name, 'location': loc, 'type': type_, 'technology level': 'current',
            'start date': '2000-01-01', 'end date': '2010-12-31', 'economic scenario': 'B', 'access restricted': 'public', 'parameters': [],
            'dataset author': 'a', 'data entry': 'b', 'ISIC classification': None, 'exchanges': list(exs)}
def ex(name, type_, amount, cls=None, pv=1.):
    e = {'id': 'x%d' % next(ids), 'tag': 'intermediateExchange', 'name': name, 'unit': 'kg', 'type': type_, 'amount': float(amount),
         'properties': [{'id': 'p', 'name': 'price', 'amount': 1., 'unit': 'EUR2005'}], 'conditional exchange': False}
    if cls:
        e.update({'byproduct classification': cls, 'production volume': {'amount': pv}})
    return e
def run(config, *data):
    with mock.patch.object(m, 'extract_directory', lambda *a, **k: list(data)):
        return m.system_model('/x', config=config)[1]
RP, BP, IN, TA, MA, A = 'reference product', 'byproduct', 'from technosphere', 'transforming activity', 'market activity', 'allocatable product'
'''
BUGS = [
dict(id='b33-links-first', property='C33', file=B + 'locations/__init__.py',
     old="""    link_consumers_to_recycled_content_activities,
    link_consumers_to_markets,
    add_reference_product_codes,
    log_and_delete_unlinked_exchanges,
)

link_markets_by_pv_ecoinvent_row""", new="""    link_consumers_to_markets,
    link_consumers_to_recycled_content_activities,
    add_reference_product_codes,
    log_and_delete_unlinked_exchanges,
)

link_markets_by_pv_ecoinvent_row""",
     needs='an activity that produces or consumes a recyclable', breaks='no market for it is found and the run fails', demo=RUN + '''
out = run('cutoff', ds('making p', 'GLO', TA, ex('p', RP, 1, A), ex('scrap', BP, 2, 'recyclable')), ds('market for p', 'GLO', MA, ex('p', RP, 1, A)))
codes = {d['code']: d['name'] for d in out}
e, = [e for d in out if d['name'] == 'making p' for e in d['exchanges'] if e['type'] == IN]
assert codes[e['code']].startswith('scrap'), codes
'''),
dict(id='b33-row-not-normalized', property='C33', file='ocelot/configuration.py',
     old="""    link_markets_by_pv_ecoinvent_row,
    rename_recycled_content_products_after_linking,
    # extrapolate to database reference year
    TransformationWrapper(normalize_reference_production_amount),
    adjust_market""", new="""    link_markets_by_pv_ecoinvent_row,
    rename_recycled_content_products_after_linking,
    # extrapolate to database reference year
    adjust_market""",
     needs='the cutoff model with ecoinvent RoW, an activity that makes other than one unit', breaks='its dataset stays at the original amount', demo=RUN + '''
out = run('cutoff_ecoinvent_row', ds('making p', 'GLO', TA, ex('p', RP, 4, A)), ds('market for p', 'GLO', MA, ex('p', RP, 1, A)))
assert all(e['amount'] == 1 for d in out for e in d['exchanges'] if e['type'] == RP), out
'''),
]
