# -*- coding: utf-8 -*-
"""C02: repairing uncertainty keeps amounts and leaves only valid distributions."""
import math
from copy import deepcopy

from pyvc.engine import UNSPEC
from pyvc.harness import contract, summary, refines, abstract
from pyvc.schema import *
from .data import *

from ocelot.transformations.uncertainty import get_uncertainty_class
from ocelot.transformations.uncertainty.pedigree import get_pedigree_variance, PEDIGREE_MATRIX_VALUES
from ocelot.transformations.parameterization.uncertainty import repair_all_uncertainty_distributions
from ocelot.transformations.utils import iterate_all_uncertainties, iterate_all_parameters

DIST = 'ocelot.transformations.uncertainty.distributions:'
GUC = 'ocelot.transformations.uncertainty:get_uncertainty_class'
GPV = 'ocelot.transformations.uncertainty.pedigree:get_pedigree_variance'

# ecoinvent data quality guidelines, table 10.5
GUIDELINES = {
    'reliability': (0, 0.0006, 0.002, 0.008, 0.04),
    'completeness': (0, 0.0001, 0.0006, 0.002, 0.008),
    'temporal correlation': (0, 0.0002, 0.002, 0.008, 0.04),
    'geographical correlation': (0, 0.000025, 0.0001, 0.0006, 0.002),
    'further technological correlation': (0, 0.0006, 0.008, 0.04, 0.12),
    'sample size': (0, 9.8e-05, 0.0006, 0.0023, 0.0083),
}


@summary(GPV)
def pedigree_variance_spec(pm, version='original'):
    total = 0
    for label in GUIDELINES:
        if label in pm:
            total = total + GUIDELINES[label][pm[label] - 1]
    return total


refines('C02', GPV, {'pm': PEDIGREE})


def gen_pedigree(rng):
    return {k: rng.randint(1, 5) for k in GUIDELINES if rng.random() < 0.6}


# at call sites: some non-negative number determined by the pedigree matrix
pedigree_number = abstract('pedigree variance', pedigree_variance_spec, axiom=lambda t: t >= 0)
GPVA = 'ocelot.transformations.uncertainty.distributions:get_pedigree_variance'


@summary(GPVA)
def pedigree_variance_callers(pm, version='original'):
    return pedigree_number(pm)


PM = Maybe(Opaque(gen_pedigree))

OBJ = Dict({'name': Str(), 'amount': Num(), 'formula': Maybe(Opaque())})


def repaired(V, obj):
    old = deepcopy(obj)
    out = V.call(repair, obj)
    return old, out


def repair(obj):
    return get_uncertainty_class(obj).repair(obj)


def frame(V, old, obj, out):
    V.ensures('amount unchanged', V.eq(obj['amount'], old['amount']))
    V.ensures('everything but the distribution unchanged', V.same_but(old, obj, 'uncertainty'))


@contract('C02', 'repair: lognormal', {'obj': OBJ.with_({'uncertainty': LOGNORMAL, 'pedigree matrix': PM})},
          functions=[DIST + 'Lognormal.repair'], uses=[GPVA])
def repair_lognormal(V, obj):
    old, out = repaired(V, obj)
    V.ensures('never fails', out.exc is None)
    frame(V, old, obj, out)
    if out.exc is not None:
        return
    if 'uncertainty' not in obj:
        V.ensures('removed only if amount or total variance is zero',
                  old['amount'] == 0 or old['uncertainty']['variance with pedigree uncertainty'] == 0)
        return
    u = obj['uncertainty']
    V.ensures('no distribution around zero', obj['amount'] != 0)
    V.ensures('no distribution without variance', old['uncertainty']['variance with pedigree uncertainty'] != 0)
    V.ensures('stays lognormal', u['type'] == 'lognormal')
    V.ensures('median is the absolute amount', V.eq(u['mean'], abs(obj['amount'])))
    V.ensures('mu is its logarithm', V.eq(u['mu'], math.log(abs(obj['amount']))))
    V.ensures('negative flag is the sign of the amount', u['negative'] == (obj['amount'] < 0))
    pv = pedigree_number(obj.get('pedigree matrix', {}))
    V.ensures('total variance is basic variance plus pedigree variance',
              V.eq(u['variance with pedigree uncertainty'], u['variance'] + pv))
    basic = old['uncertainty']['variance with pedigree uncertainty'] - pv
    if basic < 1:
        V.ensures('plausible variance kept', V.eq(u['variance'], basic))
    elif basic <= math.e:
        V.ensures('variance given as exp(variance) is converted', V.eq(u['variance'], math.log(basic)))
    else:
        V.ensures('absurd variance replaced', V.eq(u['variance'], 0.25))
    V.ensures('variance below one', u['variance'] <= 1)


@contract('C02', 'repair: normal', {'obj': OBJ.with_({'uncertainty': NORMAL, 'pedigree matrix': PM})},
          functions=[DIST + 'Normal.repair'])
def repair_normal(V, obj):
    old, out = repaired(V, obj)
    V.ensures('never fails', out.exc is None)
    frame(V, old, obj, out)
    if out.exc is not None:
        return
    if 'uncertainty' not in obj:
        V.ensures('removed only without variance', old['uncertainty']['variance with pedigree uncertainty'] == 0)
        return
    u = obj['uncertainty']
    V.ensures('no distribution without variance', u['variance with pedigree uncertainty'] != 0)
    V.ensures('mean is the amount', V.eq(u['mean'], obj['amount']))
    V.ensures('nothing else of the distribution changes', V.same_but(u, old['uncertainty'], 'mean'))


def in_bounds(V, u, obj):
    V.ensures('minimum <= amount <= maximum', V.le(u['minimum'], obj['amount']) and V.le(obj['amount'], u['maximum']))
    V.ensures('bounds span an interval', u['minimum'] < u['maximum'])


@contract('C02', 'repair: triangular', {'obj': OBJ.with_({'uncertainty': TRIANGULAR})},
          functions=[DIST + 'Triangular.repair'])
def repair_triangular(V, obj):
    old, out = repaired(V, obj)
    V.ensures('never fails', out.exc is None)
    frame(V, old, obj, out)
    if out.exc is not None:
        return
    o = old['uncertainty']
    lo, hi = min(o['minimum'], o['maximum']), max(o['minimum'], o['maximum'])
    if 'uncertainty' not in obj:
        V.ensures('removed only if degenerate or not around the amount',
                  obj['amount'] < lo or obj['amount'] > hi or lo == hi)
        return
    u = obj['uncertainty']
    V.ensures('stays triangular', u['type'] == 'triangular')
    V.ensures('mode is the amount', V.eq(u['mode'], obj['amount']))
    V.ensures('bounds are the given ones in order', V.eq(u['minimum'], lo) and V.eq(u['maximum'], hi))
    in_bounds(V, u, obj)


@contract('C02', 'repair: uniform', {'obj': OBJ.with_({'uncertainty': UNIFORM})},
          functions=[DIST + 'Uniform.repair', DIST + 'Triangular.repair'])
def repair_uniform(V, obj):
    old, out = repaired(V, obj)
    o = old['uncertainty']
    lo, hi = min(o['minimum'], o['maximum']), max(o['minimum'], o['maximum'])
    frame(V, old, obj, out)
    if out.exc is not None:
        V.ensures('refused with ValueError exactly when the amount is outside the bounds',
                  out.exc is ValueError and (obj['amount'] < lo or obj['amount'] > hi))
        return
    V.ensures('amount outside the bounds is refused', lo <= obj['amount'] and obj['amount'] <= hi)
    if 'uncertainty' not in obj:
        V.ensures('removed only if degenerate', lo == hi)
        return
    u = obj['uncertainty']
    V.ensures('bounds are the given ones in order', V.eq(u['minimum'], lo) and V.eq(u['maximum'], hi))
    in_bounds(V, u, obj)
    if u['type'] == 'uniform':
        V.ensures('uniform only around the centre', abs(obj['amount'] - (lo + hi) / 2) <= 1e-8 + 1e-5 * abs((lo + hi) / 2))
    else:
        V.ensures('otherwise triangular with mode at the amount', u['type'] == 'triangular' and V.eq(u['mode'], obj['amount']))


@contract('C02', 'repair: undefined', {'obj': OBJ.with_({'uncertainty': UNDEFINED})}, functions=[DIST + 'Undefined.repair'])
def repair_undefined(V, obj):
    old, out = repaired(V, obj)
    V.ensures('never fails', out.exc is None)
    V.ensures('nothing changes', V.same(old, obj))


# ------------------------------------------------------- every object is covered
class Repairer:
    """Ghost distribution class: records that the object was repaired."""
    @staticmethod
    def repair(obj):
        obj['uncertainty'] = 'repaired'
        return obj


@summary(GUC)
def uncertainty_class_spec(exchange):
    return Repairer


def gen_raw(rng):
    return rng.choice([
        {'type': 'normal', 'mean': 99., 'variance': 0.5, 'variance with pedigree uncertainty': 0.6},
        {'type': 'normal', 'mean': 99., 'variance': 0.5, 'variance with pedigree uncertainty': 0},
        {'type': 'lognormal', 'mean': 99., 'mu': 7, 'variance': 0.5, 'variance with pedigree uncertainty': 0.3},
        {'type': 'triangular', 'minimum': 4000., 'mode': 99., 'maximum': -4000.},
    ])


RAW = Maybe(Opaque(gen_raw))
PROP = Dict({'name': Str(), 'amount': Num(), 'uncertainty': RAW})
RPV = Dict({'amount': Num(), 'uncertainty': RAW})
REXC = Dict({'name': Str(), 'type': Str(), 'amount': Num(), 'uncertainty': RAW,
             'production volume': Maybe(RPV), 'properties': Maybe(List(PROP))})
RDS = Dict({'name': Str(), 'exchanges': List(REXC), 'parameters': Maybe(List(PROP))})


def was_repaired(V, old, obj):
    """obj's distribution has been repaired (or there was none)."""
    if 'uncertainty' not in old:
        return 'uncertainty' not in obj
    if not old['uncertainty']:
        return True
    if V.symbolic:
        return obj['uncertainty'] == 'repaired'
    again = deepcopy(old)
    get_uncertainty_class(again).repair(again)
    return V.same(again.get('uncertainty'), obj.get('uncertainty'))


RALL = ['ocelot.transformations.parameterization.uncertainty:repair_all_uncertainty_distributions',
        'ocelot.transformations.utils:iterate_all_uncertainties']


def start(V, data):
    old = deepcopy(data)
    out = V.call(repair_all_uncertainty_distributions, data)
    V.ensures('never fails', out.exc is None)
    if out.exc is not None:
        return None
    V.ensures('returns the data', out.value is data)
    return old


@contract('C02', 'repair_all: exchanges and production volumes', {'data': List(RDS)}, uses=[GUC], functions=RALL, budget=150)
def repair_all_1(V, data):
    old = start(V, data)
    if old is None:
        return
    for ods, nds in zip(old, data):
        V.ensures('datasets otherwise unchanged', V.same_but(ods, nds, 'exchanges', 'parameters'))
        for o, n in zip(ods['exchanges'], nds['exchanges']):
            V.ensures('exchanges otherwise unchanged', V.same_but(o, n, 'uncertainty', 'production volume', 'properties'))
            V.ensures('exchange repaired', was_repaired(V, o, n))
        for o, n in zip(ods['exchanges'], nds['exchanges']):
            V.ensures('production volume kept', ('production volume' in o) == ('production volume' in n))
            if 'production volume' in o:
                V.ensures('production volume amount kept',
                          V.same_but(o['production volume'], n['production volume'], 'uncertainty'))
                V.ensures('production volume repaired', was_repaired(V, o['production volume'], n['production volume']))


@contract('C02', 'repair_all: properties and parameters', {'data': List(RDS)}, uses=[GUC], functions=RALL, budget=150)
def repair_all_2(V, data):
    old = start(V, data)
    if old is None:
        return
    for ods, nds in zip(old, data):
        for o, n in zip(ods['exchanges'], nds['exchanges']):
            V.ensures('properties kept', ('properties' in o) == ('properties' in n))
            if 'properties' in o:
                for p, q in zip(o['properties'], n['properties']):
                    V.ensures('property values kept', V.same_but(p, q, 'uncertainty'))
                    V.ensures('property repaired', was_repaired(V, p, q))
        V.ensures('parameters kept', ('parameters' in ods) == ('parameters' in nds))
        if 'parameters' in ods:
            for p, q in zip(ods['parameters'], nds['parameters']):
                V.ensures('parameter values kept', V.same_but(p, q, 'uncertainty'))
                V.ensures('parameter repaired', was_repaired(V, p, q))
