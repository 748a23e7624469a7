# -*- coding: utf-8 -*-
"""C29: reading an ecospold2 file takes over all of its data."""
import os
import shutil
import subprocess
import sys
import tempfile
from copy import deepcopy
from xml.sax.saxutils import escape, quoteattr

from lxml import objectify

from pyvc.harness import contract, abstract
from pyvc.schema import *
from .data import *

from ocelot.io.extract_ecospold2 import (
    extract_ecospold2_dataset, extract_ecospold2_directory, extract_exchange, extract_parameter, extract_pedigree_matrix, extract_production_volume, extract_property, extract_uncertainty, generic_extractor)
from ocelot.io.validate_internal import dataset_schema

X = 'ocelot.io.extract_ecospold2:'
KINDS = {'lognormal': ('meanValue', 'mu', 'variance', 'varianceWithPedigreeUncertainty'), 'normal': ('meanValue', 'variance', 'varianceWithPedigreeUncertainty'),
         'triangular': ('minValue', 'mostLikelyValue', 'maxValue'), 'uniform': ('minValue', 'maxValue'), 'beta': ('minValue', 'maxValue', 'mostFrequentValue'),
         'undefined': ('minValue', 'maxValue', 'standardDeviation95'), 'binomial': ('n', 'p'), 'gamma': ('shape', 'scale')}
NAMES = {'meanValue': 'mean', 'minValue': 'minimum', 'maxValue': 'maximum', 'mostLikelyValue': 'mode', 'mostFrequentValue': 'mode',
         'varianceWithPedigreeUncertainty': 'variance with pedigree uncertainty', 'standardDeviation95': 'standard deviation 95%'}
SCORES = {'reliability': 'reliability', 'completeness': 'completeness', 'temporalCorrelation': 'temporal correlation',
          'geographicalCorrelation': 'geographical correlation', 'furtherTechnologyCorrelation': 'further technology correlation'}
IN = {'1': 'materials/fuels', '2': 'electricity/heat', '3': 'services', '4': 'from environment', '5': 'from technosphere'}
OUT = {'0': 'reference product', '2': 'byproduct', '3': 'material for treatment', '4': 'to environment', '5': 'stock addition'}
ACTIVITY = {'0': 'transforming activity', '1': 'market activity', '2': 'IO activity', '3': 'residual activity', '4': 'production mix', '5': 'import activity',
            '6': 'supply mix', '7': 'export activity', '8': 're-export activity', '9': 'correction activity', '10': 'market group'}
LEVEL = {'0': 'undefined', 'None': 'undefined', '1': 'new', '2': 'modern', '3': 'current', '4': 'old', '5': 'outdated', None: 'undefined'}
ACCESS = {'0': 'public', '1': 'licensees', '2': 'results only', '3': 'restricted'}
CLASS = {'allocatable product': 'allocatable product', 'Waste': 'waste', 'Recyclable': 'recyclable'}
QUIET = (('pyprind:prog_bar', lambda iterable, *args, **kwargs: iterable),)
TEXTS = ['x', 'steel, 10%', 'a & b', '<5 kg', 'Zürich', '"q"', "d'or", 'kWh', '水', 'classification', 'parameter']


def tag(name, attrs, *inner, close=True):
    attrs = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs.items() if v is not None)
    return '<%s%s>%s</%s>' % (name, attrs, '\n  '.join(inner), name) if inner else '<%s%s/>' % (name, attrs)


def text(name, s):
    return '<%s>%s</%s>' % (name, escape(s), name)


class Writer:
    """Makes up a dataset and writes it, both as XML and as what should be read."""
    def __init__(self, rng):
        self.rng = rng
        self.ids = 0

    def new_id(self):
        self.ids += 1
        return '%08x-0000-4000-8000-000000000000' % self.ids

    def number(self):
        x = self.rng.choice([0., 1., -1., 2.5, -3e-7, 1e12, 0.1, 123456.789, 4., 1e-300, self.rng.uniform(-9, 9)])
        return x, self.rng.choice([repr(x), '%.17g' % x, '%.17e' % x] + ([str(int(x))] if x == int(x) else []) + (['+' + repr(x)] if x > 0 else []))

    def word(self):
        return self.rng.choice(TEXTS)

    def comment(self):
        return self.rng.choice(['', '<comment/>', '<!-- a comment -->', '<comment><text>price 3 EUR</text></comment>'])

    def uncertainty(self, name='uncertainty'):
        rng = self.rng
        kind = rng.choice(list(KINDS))
        keys = [k for k in KINDS[kind] if not (k in ('mu', 'variance') and rng.random() < .2)]
        values = {k: self.number() for k in keys}
        inner, scores = [tag(kind, {k: s for k, (v, s) in values.items()})], {}
        if rng.random() < .5:
            scores = {k: rng.randint(1, 5) for k in SCORES}
            inner.append(tag('pedigreeMatrix', {k: str(v) for k, v in scores.items()}))
        if rng.random() < .2:
            inner.reverse()
        want = {NAMES.get(k, k): v for k, (v, s) in values.items()}
        want['type'] = kind
        want['pedigree matrix'] = {SCORES[k]: v for k, v in scores.items()}
        if not scores and kind in ('lognormal', 'normal'):
            want['pedigree matrix'] = {v: 5 for v in SCORES.values()}
        return tag(name, {}, *inner, self.rng.choice(['', self.comment()])), want

    def names(self, attrs, want, variable='variableName', formula='mathematicalRelation'):
        rng = self.rng
        v = rng.choice([None, None, '', 'a_1', 'Yield', 'b'])
        f = rng.choice([None, None, '', 'a_1*2', 'Yield + b', "Ref('00000001-0000-4000-8000-000000000000')", 'if(a<3; 1; 2)'])
        if v is not None:
            attrs[variable] = v + rng.choice(['', ' ']) if v else v
            if v:
                want['variable'] = v
        if f is not None:
            attrs[formula] = rng.choice(['', ' ']) + f + rng.choice(['', ' ', '\n']) if f else f
            if f:
                want['formula'] = f

    def unit(self, want, inner):
        if self.rng.random() < .8:
            want['unit'] = self.word()
            inner.append(text('unitName', want['unit']))
        else:
            want['unit'] = 'dimensionless'

    def parameter(self):
        x, s = self.number()
        want = {'id': self.new_id(), 'amount': x, 'name': self.word()}
        attrs = {'parameterId': want['id'], 'amount': s}
        self.names(attrs, want)
        inner = [text('name', want['name'])]
        self.unit(want, inner)
        if self.rng.random() < .4:
            xml, want['uncertainty'] = self.uncertainty()
            inner.append(xml)
        inner.append(self.comment())
        return tag('parameter', attrs, *inner), want

    def property(self):
        x, s = self.number()
        want = {'id': self.new_id(), 'amount': x, 'name': self.word()}
        attrs = {'propertyId': want['id'], 'amount': s, 'isDefiningValue': self.rng.choice([None, 'true'])}
        self.names(attrs, want)
        inner = [text('name', want['name'])]
        self.unit(want, inner)
        if self.rng.random() < .4:
            xml, want['uncertainty'] = self.uncertainty()
            inner.append(xml)
        inner.append(self.comment())
        return tag('property', attrs, *inner), want

    def exchange(self, activity):
        rng = self.rng
        x, s = self.number()
        env = rng.random() < .3
        want = {'id': self.new_id(), 'tag': 'elementaryExchange' if env else 'intermediateExchange', 'name': self.word(), 'unit': self.word(), 'amount': x}
        attrs = {'id': want['id'], 'amount': s}
        self.names(attrs, want)
        if env:
            group = rng.choice([('inputGroup', '4'), ('outputGroup', '4')])
        else:
            group = rng.choice([('inputGroup', '5'), ('outputGroup', '0'), ('outputGroup', '2'), ('outputGroup', '2')])
        want['type'] = (IN if group[0] == 'inputGroup' else OUT)[group[1]]
        inner = [text('name', want['name']), text('unitName', want['unit']), self.comment()]
        if rng.random() < .4:
            xml, want['uncertainty'] = self.uncertainty()
            inner.append(xml)
        want['properties'] = []
        if env:
            want['compartment'], want['subcompartment'] = self.word(), self.word()
            inner.append(tag('compartment', {'subcompartmentId': 'z'}, text('compartment', want['compartment']), text('subcompartment', want['subcompartment'])))
        else:
            if rng.random() < .4:
                want['activity link'] = attrs['activityLinkId'] = self.new_id()
            classification = []
            if rng.random() < .5:
                c = rng.choice(list(CLASS))
                want['byproduct classification'] = CLASS[c]
                classification.append(tag('classification', {}, text('classificationSystem', 'By-product classification'), text('classificationValue', c)))
            for _ in range(rng.choice([0, 0, 1, 2])):
                classification.append(tag('classification', {}, text('classificationSystem', rng.choice(['CPC', 'HS'])), text('classificationValue', self.word())))
            rng.shuffle(classification)
            inner += classification
            pv, pattrs, volume = {}, {}, None
            if rng.random() < .8:
                pv['amount'], pattrs['productionVolumeAmount'] = self.number()
            else:
                pv['amount'] = 0.
            self.names(pattrs, pv, 'productionVolumeVariableName', 'productionVolumeMathematicalRelation')
            if rng.random() < .4:
                volume, pv['uncertainty'] = self.uncertainty('productionVolumeUncertainty')
            if want['type'] in ('reference product', 'byproduct') or rng.random() < .3:
                attrs.update(pattrs)
                if volume:
                    inner.append(volume)
                if want['type'] in ('reference product', 'byproduct'):
                    want['production volume'] = pv
            want['conditional exchange'] = 'activity link' in want and activity == 'market activity' and want['type'] == 'byproduct' and x < 0
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            xml, p = self.property()
            inner.append(xml)
            want['properties'].append(p)
        inner.append(text(*group))
        return tag(want['tag'], attrs, *inner), want

    def dataset(self):
        rng = self.rng
        kind = rng.choice(list(ACTIVITY) + ['0', '1', '1', '10'])
        level, access = rng.choice(list(LEVEL)), rng.choice(list(ACCESS))
        want = {'id': self.new_id(), 'parent': rng.choice([None, self.new_id()]), 'name': self.word(), 'location': rng.choice(['CH', 'GLO', 'RoW', 'UN-EUROPE', 'CN-ZJ']),
                'type': ACTIVITY[kind], 'technology level': LEVEL[level], 'start date': '1996-01-01', 'end date': rng.choice(['2015-12-31', '2000-01-01']),
                'economic scenario': 'Business-as-Usual', 'access restricted': ACCESS[access], 'dataset author': self.word(), 'data entry': self.word(), 'ISIC classification': self.word()}
        classes = [tag('classification', {}, text('classificationSystem', rng.choice(['ISIC', 'ISIC rev.4 ecoinvent'])), text('classificationValue', want['ISIC classification']))]
        for _ in range(rng.choice([0, 1, 2])):
            classes.append(tag('classification', {}, text('classificationSystem', rng.choice(['CPC', 'EcoSpold01Categories'])), text('classificationValue', self.word())))
        rng.shuffle(classes)
        activity = tag('activity', {'id': want['id'], 'parentActivityId': want['parent'], 'specialActivityType': kind}, text('activityName', want['name']), self.comment())
        about = tag('activityDescription', {}, activity, *(classes + [
            tag('geography', {}, text('shortname', want['location'])), tag('technology', {'technologyLevel': level}, self.comment()),
            tag('timePeriod', {'startDate': want['start date'], 'endDate': want['end date']}), tag('macroEconomicScenario', {}, text('name', want['economic scenario']))]))
        flows = [self.exchange(want['type']) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        params = [self.parameter() for _ in range(rng.choice([0, 0, 1, 3]))]
        want['exchanges'], want['parameters'] = [w for _, w in flows], [w for _, w in params]
        both = [x for x, _ in flows] + [x for x, _ in params]
        if rng.random() < .3 and not any('<!--' in x for x in both):
            both = [x for x, _ in params] + [x for x, _ in flows]
        admin = tag('administrativeInformation', {}, tag('dataEntryBy', {'personName': want['data entry']}),
                    tag('dataGeneratorAndPublication', {'accessRestrictedTo': access, 'personName': want['dataset author']}))
        return tag(rng.choice(['childActivityDataset', 'activityDataset']), {}, about, tag('flowData', {}, *both) if both else '<flowData/>', admin), want


def give_files(rng, ins, g):
    w = Writer(rng)
    files = []
    for i in range(rng.choice([1, 1, 2, 3])):
        parts = [w.dataset() for _ in range(rng.choice([1, 1, 1, 2]))]
        files.append({'name': rng.choice(['%d.spold', 'é%d.spold', 'X%d.SPOLD', 'a b%d.spold']) % i, 'want': [p for _, p in parts], 'xml':
                      '<?xml version="1.0" encoding="utf-8"?>\n<ecoSpold xmlns="http://www.EcoInvent.org/EcoSpold02">%s</ecoSpold>' % '\n'.join(x for x, _ in parts)})
    ins['files'] = files
    return ins


@contract('C29', 'extract_ecospold2_directory', {'files': List(Opaque(lambda rng: None))}, shape=give_files, mode='concrete', tries=700,
          functions=[X + n for n in ('extract_ecospold2_directory', 'generic_extractor', 'extract_ecospold2_dataset', 'extract_exchange', 'extract_property', 'extract_production_volume',
                                     'extract_uncertainty', 'extract_pedigree_matrix', 'extract_isic_classification', 'extract_parameter')],
          note='reads XML files with lxml, which is external')
def reading(V, files):
    V.requires(len(files) > 0 and all(isinstance(f, dict) and {'name', 'want', 'xml'} <= set(f) for f in files) and len({f['name'] for f in files}) == len(files))
    here = tempfile.mkdtemp()
    try:
        for f in files:
            with open(os.path.join(here, f['name']), 'w', encoding='utf-8') as fh:
                fh.write(f['xml'])
        with open(os.path.join(here, 'readme.xml'), 'w') as fh:
            fh.write('not a dataset')
        out = V.call_in(QUIET, extract_ecospold2_directory, here, False)
        V.ensures('never fails', out.exc is None)
        want = [dict(d, filepath=os.path.join(here, f['name'])) for f in files for d in f['want']]
        V.ensures('every dataset is read once', len(out.value) == len(want) and {d['id'] for d in out.value} == {d['id'] for d in want})
        for n in out.value:
            w = [d for d in want if d['id'] == n['id']][0]
            V.ensures('with its attributes', {k: v for k, v in n.items() if k not in ('exchanges', 'parameters')} == {k: v for k, v in w.items() if k not in ('exchanges', 'parameters')})
            V.ensures('with all parameters', n['parameters'] == w['parameters'])
            V.ensures('with all exchanges', [e['id'] for e in n['exchanges']] == [e['id'] for e in w['exchanges']])
            for e, x in zip(n['exchanges'], w['exchanges']):
                V.ensures('with all of their data', e == x)
            valid = True
            try:
                dataset_schema(n)
            except Exception:
                valid = False
            V.ensures('in the internal data format', valid)
    finally:
        shutil.rmtree(here)


COMPARE = """
import sys
from ocelot.io.extract_ecospold2 import extract_ecospold2_directory as read
one, two = (sorted(read(sys.argv[1], x), key=lambda d: d['id']) for x in (False, True))
sys.exit(one != two)
"""


@contract('C29', 'extract_ecospold2_directory: in parallel', {'files': List(Opaque(lambda rng: None))}, shape=give_files, mode='concrete', tries=6,
          functions=[X + 'extract_ecospold2_directory'], note='starts processes')
def parallel(V, files):
    V.requires(len(files) > 0 and all(isinstance(f, dict) and {'name', 'want', 'xml'} <= set(f) for f in files) and len({f['name'] for f in files}) == len(files))
    here = tempfile.mkdtemp()
    try:
        for f in files:
            with open(os.path.join(here, f['name']), 'w', encoding='utf-8') as fh:
                fh.write(f['xml'])
        import ocelot
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(ocelot.__file__)))
        run = subprocess.run([sys.executable, '-W', 'ignore', '-c', COMPARE, here], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        V.ensures('never fails, and reads the same as one after the other', run.returncode == 0)
    finally:
        shutil.rmtree(here)


# ---------------------------------------------------------------- one element of a file
NAMED = {'amount': Num(), 'variable': Maybe(Str(pool=['a', 'b c', ''])), 'formula': Maybe(Str(pool=['a + 1', '2', '']))}
UNIT = Maybe(Str(pool=['kg', 'm3']))
RAW = Str(pool=['r', 's', 't'])
URL = 'http://www.EcoInvent.org/EcoSpold02'
read_uncertainty = abstract('read uncertainty', lambda e: ('read', e), sort='opq')


class Text:
    """Stands for an element of XML with text only."""
    pyvc_partial = frozenset(['text'])

    def __init__(self, text):
        self.text = text


class Element:
    """Stands for an element of XML with attributes, as lxml.objectify represents it (in concrete runs real elements are used)."""
    pyvc_partial = frozenset(['get', 'raw', 'tag', 'name', 'unitName', 'uncertainty', 'productionVolumeUncertainty', 'pedigreeMatrix', 'inputGroup', 'outputGroup', 'comment',
                              'compartment', 'subcompartment', 'property', 'classification', 'iterchildren'] + list(KINDS))

    def __init__(self, attributes, raw=None):
        self.attributes = attributes
        self.raw = raw

    def get(self, key, default=None):
        return self.attributes.get(key, default)


def raw_of(element):
    return element.raw if isinstance(element, Element) else element.get('raw')


def xml(e, name):
    if isinstance(e, Text):
        return text(name, e.text)
    attrs = {k: v if isinstance(v, str) else '%d' % v if isinstance(v, int) else repr(float(v)) for k, v in e.attributes.items()}
    if e.raw is not None:
        attrs['raw'] = e.raw
    inner = [xml(x, k) for k, x in vars(e).items() if isinstance(x, (Text, Element))]
    inner += [xml(c, c.tag.split('}')[1]) for c in getattr(e, 'children', ())]
    return tag(name, attrs, *inner)


def given(V, e, name='x'):
    """The stand-in for the verifier, a real element for concrete runs."""
    if V.symbolic:
        return e
    x = xml(e, name)
    V.requires(all(c.isprintable() or c == '\n' for c in x) and not any(v != v.strip() for v in strings_in(e)))
    return getattr(objectify.fromstring('<root xmlns="%s">%s</root>' % (URL, x)), name)


def strings_in(e):
    if isinstance(e, Text):
        return [e.text or ' ']
    return [s for x in list(vars(e).values()) + list(getattr(e, 'children', ())) if isinstance(x, (Text, Element)) for s in strings_in(x)]


UREAD = ((X + 'extract_uncertainty', lambda unc: read_uncertainty(raw_of(unc))),)


def element(d, names, unc='uncertainty'):
    attributes = {}
    for key, label in names:
        if key in d:
            attributes[label] = d[key]
    e = Element(attributes)
    if 'name' in d:
        e.name = Text(d['name'])
    if 'unit' in d:
        e.unitName = Text(d['unit'])
    if 'uncertainty' in d:
        setattr(e, unc, Element({}, d['uncertainty']))
    return e


def read_names(V, d, got):
    V.ensures('a variable is taken over if there is one', ('variable' in got) == ('variable' in d and d['variable'] != ''))
    V.ensures('a formula is taken over if there is one', ('formula' in got) == ('formula' in d and d['formula'] != ''))
    if 'variable' in got:
        V.ensures('the variable', got['variable'] == d['variable'].strip())
    if 'formula' in got:
        V.ensures('the formula', got['formula'] == d['formula'].strip())


@contract('C29', 'extract_parameter', {'d': Dict(dict(NAMED, id=Str(), name=Str(), unit=UNIT, uncertainty=Maybe(RAW)), extra=False)}, functions=[X + 'extract_parameter'])
def parameter(V, d):
    out = V.call_in(UREAD, extract_parameter, given(V, element(d, (('id', 'parameterId'), ('amount', 'amount'), ('variable', 'variableName'), ('formula', 'mathematicalRelation')))))
    V.ensures('never fails', out.exc is None)
    got = out.value
    V.ensures('name, id, amount', got['name'] == d['name'] and got['id'] == d['id'] and got['amount'] == d['amount'])
    V.ensures('unit', got['unit'] == (d['unit'] if 'unit' in d else 'dimensionless'))
    V.ensures('uncertainty', ('uncertainty' in got) == ('uncertainty' in d))
    if 'uncertainty' in d:
        V.ensures('its uncertainty', got['uncertainty'] == read_uncertainty(d['uncertainty']))
    read_names(V, d, got)


@contract('C29', 'extract_property', {'d': Dict(dict(NAMED, id=Str(), name=Str(), unit=UNIT, uncertainty=Maybe(RAW)), extra=False)}, functions=[X + 'extract_property'])
def prop(V, d):
    out = V.call_in(UREAD, extract_property, given(V, element(d, (('id', 'propertyId'), ('amount', 'amount'), ('variable', 'variableName'), ('formula', 'mathematicalRelation')))))
    V.ensures('never fails', out.exc is None)
    got = out.value
    V.ensures('name, id, amount', got['name'] == d['name'] and got['id'] == d['id'] and got['amount'] == d['amount'])
    V.ensures('unit', got['unit'] == (d['unit'] if 'unit' in d else 'dimensionless'))
    V.ensures('uncertainty', ('uncertainty' in got) == ('uncertainty' in d))
    if 'uncertainty' in d:
        V.ensures('its uncertainty', got['uncertainty'] == read_uncertainty(d['uncertainty']))
    read_names(V, d, got)


@contract('C29', 'extract_production_volume', {'d': Dict(dict(NAMED, amount=Maybe(Num()), uncertainty=Maybe(RAW)), extra=False)}, functions=[X + 'extract_production_volume'])
def volume(V, d):
    e = element(d, (('amount', 'productionVolumeAmount'), ('variable', 'productionVolumeVariableName'), ('formula', 'productionVolumeMathematicalRelation')), 'productionVolumeUncertainty')
    out = V.call_in(UREAD, extract_production_volume, given(V, e))
    V.ensures('never fails', out.exc is None)
    got = out.value
    V.ensures('amount', got['amount'] == (d['amount'] if 'amount' in d else 0))
    V.ensures('uncertainty', ('uncertainty' in got) == ('uncertainty' in d))
    if 'uncertainty' in d:
        V.ensures('its uncertainty', got['uncertainty'] == read_uncertainty(d['uncertainty']))
    read_names(V, d, got)


SCORED = Dict({'scores': Maybe(Dict({k: SCORE for k in SCORES}, extra=False))}, extra=False)


@contract('C29', 'extract_pedigree_matrix', {'d': SCORED}, functions=[X + 'extract_pedigree_matrix'])
def pedigree(V, d):
    e = Element({})
    if 'scores' in d:
        scores = d['scores']
        e.pedigreeMatrix = Element(scores)
    out = V.call(extract_pedigree_matrix, given(V, e))
    V.ensures('never fails', out.exc is None)
    if 'scores' not in d:
        V.ensures('no scores', len(out.value) == 0)
    else:
        for key, label in SCORES.items():
            V.ensures('every score', out.value[label] == scores[key])
        V.ensures('nothing else', len(out.value) == 5)


def distribution(kind):
    @contract('C29', 'extract_uncertainty: ' + kind, {'values': Dict({k: Num() for k in KINDS[kind]}, extra=False), 'scored': Bool()}, functions=[X + 'extract_uncertainty'])
    def uncertainty(V, values, scored):
        scores = abstract_scores if scored else {}
        e, d = Element({}), Distribution({k: values[k] for k in KINDS[kind]})
        d.tag = '{%s}%s' % (URL, kind)
        setattr(e, kind, d)
        out = V.call_in(((X + 'extract_pedigree_matrix', lambda elem: dict(scores)),), extract_uncertainty, given(V, e))
        V.ensures('never fails', out.exc is None)
        V.ensures('type', out.value['type'] == kind)
        for k in KINDS[kind]:
            V.ensures('every number', out.value[NAMES.get(k, k)] == values[k])
        if scored:
            V.ensures('pedigree', V.same(out.value['pedigree matrix'], dict(scores)))
        elif kind in ('lognormal', 'normal'):
            V.ensures('worst scores if there are none', V.same(out.value['pedigree matrix'], {v: 5 for v in SCORES.values()}))
        else:
            V.ensures('no pedigree', len(out.value['pedigree matrix']) == 0)
        V.ensures('nothing else', len(out.value) == len(KINDS[kind]) + 2)


abstract_scores = {v: i + 1 for i, v in enumerate(SCORES.values())}


class Distribution(Element):
    pyvc_partial = frozenset(['get', 'keys', 'tag'])

    def keys(self):
        return list(self.attributes)


for kind in KINDS:
    distribution(kind)


# ---------------------------------------------------------------- an exchange
read_property = abstract('read property', lambda e: ('read', e), sort='opq')
read_volume = abstract('read volume', lambda e: ('read', e), sort='opq')
GROUPS = [('inputGroup', k, v) for k, v in IN.items()] + [('outputGroup', k, v) for k, v in OUT.items()]


class Child(Element):
    def __init__(self, tag, raw):
        self.tag = '{http://www.EcoInvent.org/EcoSpold02}' + tag
        self.attributes = {}
        self.raw = raw


def classified_as(system, value):
    c = Child('classification', None)
    c.classificationSystem = Text(system)
    c.classificationValue = Text(value)
    return c


class Parent(Element):
    def __init__(self, attributes, children, raw=None):
        self.attributes = attributes
        self.children = children
        self.raw = raw

    def iterchildren(self):
        return self.children


def an_exchange(d, label, group, natural):
    attributes = {}
    for key, name in (('id', 'id'), ('amount', 'amount'), ('variable', 'variableName'), ('formula', 'mathematicalRelation'), ('link', 'activityLinkId')):
        if key in d:
            attributes[name] = d[key]
    children = [classified_as('CPC', 'x')]
    if 'classification' in d:
        children = children + [classified_as('By-product classification', d['classification'])]
    e = Parent(attributes, children + [Child('property', p['raw']) for p in d['properties']], d['volume'])
    e.tag = '{http://www.EcoInvent.org/EcoSpold02}' + ('elementaryExchange' if natural else 'intermediateExchange')
    e.name, e.unitName = Text(d['name']), Text(d['unit'])
    setattr(e, label, Text(group))
    if 'uncertainty' in d:
        e.uncertainty = Element({}, d['uncertainty'])
    e.compartment = Child('compartment', None)
    e.compartment.compartment, e.compartment.subcompartment = Text(d['compartment']), Text(d['subcompartment'])
    return e


PARTS = UREAD + ((X + 'extract_property', lambda prop: read_property(raw_of(prop))), (X + 'extract_production_volume', lambda exc: read_volume(raw_of(exc))))
RAW_EXC = Dict({'id': Str(), 'name': Str(), 'unit': Str(), 'amount': Num(), 'compartment': Str(), 'subcompartment': Str(), 'volume': RAW,
                'properties': List(Dict({'raw': RAW}, extra=False))}, extra=False)


@contract('C29', 'extract_exchange: data', {'d': RAW_EXC.with_(dict(NAMED, uncertainty=Maybe(RAW), classification=Maybe(Str(choices=list(CLASS)))))}, functions=[X + 'extract_exchange'])
def exchange(V, d):
    out = V.call_in(PARTS, extract_exchange, {'type': 'market activity'}, given(V, an_exchange(d, 'outputGroup', '2', False), 'intermediateExchange'))
    V.ensures('never fails', out.exc is None)
    got = out.value
    V.ensures('id, name, unit, amount', got['id'] == d['id'] and got['name'] == d['name'] and got['unit'] == d['unit'] and got['amount'] == d['amount'])
    V.ensures('tag', got['tag'] == 'intermediateExchange')
    V.ensures('classification', ('byproduct classification' in got) == ('classification' in d))
    if 'classification' in d:
        V.ensures('its classification', got['byproduct classification'] == CLASS[d['classification']])
    V.ensures('properties', V.same(got['properties'], [read_property(p['raw']) for p in d['properties']]))
    V.ensures('uncertainty', ('uncertainty' in got) == ('uncertainty' in d))
    if 'uncertainty' in d:
        V.ensures('its uncertainty', got['uncertainty'] == read_uncertainty(d['uncertainty']))
    read_names(V, d, got)


def exchange_type(label, group, kind):
    natural = kind in ('from environment', 'to environment')

    @contract('C29', 'extract_exchange: %s %s' % (label, group), {'d': RAW_EXC.with_({'link': Maybe(Str(pool=['x', 'y', '']))}), 'activity': Str(choices=['market activity', 'transforming activity', 'market group'])},
              functions=[X + 'extract_exchange'])
    def typed(V, d, activity):
        out = V.call_in(PARTS, extract_exchange, {'type': activity}, given(V, an_exchange(d, label, group, natural), 'elementaryExchange' if natural else 'intermediateExchange'))
        V.ensures('never fails', out.exc is None)
        got = out.value
        V.ensures('type', got['type'] == kind)
        V.ensures('link', ('activity link' in got) == ('link' in d and d['link'] != ''))
        if 'activity link' in got:
            V.ensures('its link', got['activity link'] == d['link'])
        V.ensures('compartment', ('compartment' in got) == natural and ('subcompartment' in got) == natural)
        if natural:
            V.ensures('its compartment', got['compartment'] == d['compartment'] and got['subcompartment'] == d['subcompartment'])
        V.ensures('production volume of products only', ('production volume' in got) == (kind in ('reference product', 'byproduct')))
        if 'production volume' in got:
            V.ensures('its production volume', got['production volume'] == read_volume(d['volume']))
        V.ensures('conditional or not', ('conditional exchange' in got) == (not natural))
        if not natural:
            V.ensures('conditional are negative linked byproducts of markets', got['conditional exchange'] == (
                'activity link' in got and activity == 'market activity' and kind == 'byproduct' and d['amount'] < 0))
        V.ensures('no classification if there is none', 'byproduct classification' not in got)


for case in GROUPS:
    exchange_type(*case)


# ---------------------------------------------------------------- a dataset
read_flow = abstract('read flow', lambda e: ('read', e), sort='opq')
RAW_DS = Dict({'id': Str(), 'parent': Maybe(Str()), 'name': Str(), 'location': Str(), 'kind': Str(choices=list(ACTIVITY)), 'level': Str(choices=[k for k in LEVEL if k]), 'start': Str(), 'end': Str(),
               'scenario': Str(), 'access': Str(choices=list(ACCESS)), 'author': Str(), 'entry': Str(), 'isic': Str(),
               'parameters': List(Dict({'raw': RAW}, extra=False)), 'products': List(Dict({'raw': RAW}, extra=False)), 'flows': List(Dict({'raw': RAW}, extra=False))}, extra=False)


def a_dataset(d):
    e, about, admin = Element({}), Parent({}, [classified_as('CPC', 'x'), classified_as('ISIC rev.4 ecoinvent', d['isic'])]), Element({})
    attributes = {'id': d['id'], 'specialActivityType': d['kind']}
    if 'parent' in d:
        attributes['parentActivityId'] = d['parent']
    about.activity = Element(attributes)
    about.activity.activityName = Text(d['name'])
    about.geography, about.macroEconomicScenario = Element({}), Element({})
    about.geography.shortname, about.macroEconomicScenario.name = Text(d['location']), Text(d['scenario'])
    about.technology, about.timePeriod = Element({'technologyLevel': d['level']}), Element({'startDate': d['start'], 'endDate': d['end']})
    admin.dataGeneratorAndPublication = Element({'accessRestrictedTo': d['access'], 'personName': d['author']})
    admin.dataEntryBy = Element({'personName': d['entry']})
    e.activityDescription, e.administrativeInformation = about, admin
    e.flowData = Parent({}, [Child('intermediateExchange', x['raw']) for x in d['products']] + [Child('elementaryExchange', x['raw']) for x in d['flows']]
                        + [Child('parameter', x['raw']) for x in d['parameters']])
    return e


def reading_dataset(what, name):
    one = {'kind': '1', 'level': '3', 'access': '0'}
    one.pop(what)

    @contract('C29', 'extract_ecospold2_dataset: ' + name, {'d': RAW_DS.with_({k: Str(choices=[v]) for k, v in one.items()}), 'path': Str()}, functions=[X + 'extract_ecospold2_dataset', X + 'extract_isic_classification'])
    def dataset(V, d, path):
        world = ((X + 'extract_exchange', lambda dataset, exc: (dataset['type'], read_flow(raw_of(exc)))), (X + 'extract_parameter', lambda obj: read_property(raw_of(obj))))
        out = V.call_in(world, extract_ecospold2_dataset, given(V, a_dataset(d)), path)
        V.ensures('never fails', out.exc is None)
        got = out.value
        V.ensures('where it is from', got['filepath'] == path and got['id'] == d['id'] and got['parent'] == (d['parent'] if 'parent' in d else None))
        V.ensures('what it is', got['name'] == d['name'] and got['location'] == d['location'] and got['start date'] == d['start'] and got['end date'] == d['end'])
        V.ensures('scenario, authors, classification', got['economic scenario'] == d['scenario'] and got['dataset author'] == d['author'] and got['data entry'] == d['entry']
                  and got['ISIC classification'] == d['isic'])
        V.ensures('type', got['type'] == ACTIVITY[d['kind']])
        V.ensures('technology level', got['technology level'] == LEVEL[d['level']])
        V.ensures('access', got['access restricted'] == ACCESS[d['access']])
        V.ensures('parameters', V.same(got['parameters'], [read_property(x['raw']) for x in d['parameters']]))
        V.ensures('exchanges', V.same(got['exchanges'], [(got['type'], read_flow(x['raw'])) for x in d['products']] + [(got['type'], read_flow(x['raw'])) for x in d['flows']]))


for case in (('kind', 'type'), ('level', 'technology level'), ('access', 'access')):
    reading_dataset(*case)
