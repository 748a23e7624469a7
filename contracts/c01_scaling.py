# -*- coding: utf-8 -*-
"""C01: scaling an exchange scales its amount and its whole distribution."""
import math
from copy import deepcopy

from pyvc.engine import UNSPEC
from pyvc.harness import contract, summary, refines
from pyvc.schema import *
from .data import *

from ocelot.transformations.uncertainty import scale_exchange

SCALE = 'ocelot.transformations.uncertainty:scale_exchange'


@summary(SCALE)
def scale_exchange_spec(exchange, factor):
    """What callers may rely on: the amount is multiplied, the distribution is
    some scaled distribution, nothing else changes."""
    if factor == 1:
        return exchange
    exchange['amount'] = exchange['amount'] * factor
    if 'uncertainty' in exchange:
        exchange['uncertainty'] = UNSPEC
    return exchange


X = Dict({'name': Str(), 'amount': Num(), 'type': Str(), 'formula': Maybe(Opaque()), 'variable': Maybe(Str()),
          'pedigree matrix': Maybe(PEDIGREE), 'production volume': Maybe(Dict({'amount': Num()}))})


def common(V, old, exc, out, factor):
    V.ensures('scaling never fails on a valid distribution', out.exc is None)
    if out.exc is not None:
        return False
    V.ensures('the exchange itself is returned', out.value is exc)
    V.ensures('amount is multiplied by the factor', V.eq(exc['amount'], old['amount'] * factor))
    V.ensures('everything except amount and uncertainty is unchanged', V.same_but(old, exc, 'amount', 'uncertainty'))
    if factor == 1:
        V.ensures('factor one changes nothing', V.same(old, exc))
        return False
    return True


@contract('C01', 'scale_exchange: no uncertainty', {'exc': X, 'factor': Num()}, functions=[SCALE])
def scale_plain(V, exc, factor):
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if common(V, old, exc, out, factor):
        V.ensures('no uncertainty is invented', 'uncertainty' not in exc)


@contract('C01', 'scale_exchange: lognormal', {'exc': X.with_({'amount': NonZero(), 'uncertainty': LOGNORMAL}), 'factor': Num()},
          functions=[SCALE, 'ocelot.transformations.uncertainty.distributions:Lognormal.rescale'])
def scale_lognormal(V, exc, factor):
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if not common(V, old, exc, out, factor):
        return
    if factor == 0:
        V.ensures('a zero amount has no lognormal distribution', 'uncertainty' not in exc)
        return
    u, v = old['uncertainty'], exc['uncertainty']
    V.ensures('type kept', v['type'] == 'lognormal')
    V.ensures('median is the absolute scaled amount', V.eq(v['mean'], abs(old['amount'] * factor)))
    V.ensures('mu is the logarithm of the median', V.eq(v['mu'], math.log(abs(old['amount'] * factor))))
    V.ensures('variance kept', V.eq(v['variance'], u['variance']))
    V.ensures('total variance kept', V.eq(v['variance with pedigree uncertainty'], u['variance with pedigree uncertainty']))
    neg = bool(u.get('negative'))
    if factor < 0:
        V.ensures('sign flag flips with the sign', bool(v.get('negative')) != neg)
    else:
        V.ensures('sign flag kept', bool(v.get('negative')) == neg)


@contract('C01', 'scale_exchange: normal', {'exc': X.with_({'uncertainty': NORMAL}), 'factor': Num()},
          functions=[SCALE, 'ocelot.transformations.uncertainty.distributions:Normal.rescale'])
def scale_normal(V, exc, factor):
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if not common(V, old, exc, out, factor):
        return
    if factor == 0:
        V.ensures('scaling by zero leaves no distribution', 'uncertainty' not in exc)
        return
    u, v = old['uncertainty'], exc['uncertainty']
    V.ensures('type kept', v['type'] == 'normal')
    V.ensures('mean scaled', V.eq(v['mean'], u['mean'] * factor))
    V.ensures('variance scaled by the square', V.eq(v['variance'], u['variance'] * factor * factor))
    V.ensures('total variance scaled by the square', V.eq(v['variance with pedigree uncertainty'],
                                                          u['variance with pedigree uncertainty'] * factor * factor))


@contract('C01', 'scale_exchange: undefined', {'exc': X.with_({'uncertainty': UNDEFINED}), 'factor': Num()},
          functions=[SCALE, 'ocelot.transformations.uncertainty.distributions:Undefined.rescale'])
def scale_undefined(V, exc, factor):
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if not common(V, old, exc, out, factor):
        return
    u, v = old['uncertainty'], exc['uncertainty']
    V.ensures('type kept', v['type'] == 'undefined')
    V.ensures('minimum scaled', V.eq(v['minimum'], u['minimum'] * factor))
    V.ensures('maximum scaled', V.eq(v['maximum'], u['maximum'] * factor))


def bounds(V, u, v, exc, factor):
    lo, hi = u['minimum'] * factor, u['maximum'] * factor
    if factor < 0:
        lo, hi = hi, lo
    V.ensures('minimum is the smaller scaled bound', V.eq(v['minimum'], lo))
    V.ensures('maximum is the larger scaled bound', V.eq(v['maximum'], hi))
    V.ensures('amount lies within the bounds', V.le(v['minimum'], exc['amount']) and V.le(exc['amount'], v['maximum']))
    V.ensures('bounds span an interval', v['minimum'] < v['maximum'])


@contract('C01', 'scale_exchange: triangular', {'exc': X.with_({'uncertainty': TRIANGULAR}), 'factor': Num()},
          functions=[SCALE, 'ocelot.transformations.uncertainty.distributions:Triangular.rescale',
                     'ocelot.transformations.uncertainty.distributions:Triangular.repair'])
def scale_triangular(V, exc, factor):
    u0 = exc['uncertainty']
    V.requires(u0['minimum'] <= u0['mode'] and u0['mode'] <= u0['maximum'] and u0['minimum'] < u0['maximum'])
    V.requires(u0['mode'] == exc['amount'])
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if not common(V, old, exc, out, factor):
        return
    if factor == 0:
        V.ensures('scaling by zero leaves no distribution', 'uncertainty' not in exc)
        return
    V.ensures('a scaled valid distribution is kept', 'uncertainty' in exc)
    u, v = old['uncertainty'], exc['uncertainty']
    V.ensures('type kept', v['type'] == 'triangular')
    V.ensures('mode is the amount', V.eq(v['mode'], exc['amount']))
    bounds(V, u, v, exc, factor)


@contract('C01', 'scale_exchange: uniform', {'exc': X.with_({'uncertainty': UNIFORM}), 'factor': Num()},
          functions=[SCALE, 'ocelot.transformations.uncertainty.distributions:Uniform.rescale',
                     'ocelot.transformations.uncertainty.distributions:Uniform.repair'])
def scale_uniform(V, exc, factor):
    u0 = exc['uncertainty']
    V.requires(u0['minimum'] <= exc['amount'] and exc['amount'] <= u0['maximum'] and u0['minimum'] < u0['maximum'])
    old = deepcopy(exc)
    out = V.call(scale_exchange, exc, factor)
    if not common(V, old, exc, out, factor):
        return
    if factor == 0:
        V.ensures('scaling by zero leaves no distribution', 'uncertainty' not in exc)
        return
    V.ensures('a scaled valid distribution is kept', 'uncertainty' in exc)
    u, v = old['uncertainty'], exc['uncertainty']
    V.ensures('uniform, or triangular around an amount off the centre', v['type'] == 'uniform' or v['type'] == 'triangular')
    if v['type'] == 'triangular':
        V.ensures('mode is the amount', V.eq(v['mode'], exc['amount']))
    bounds(V, u, v, exc, factor)


@contract('C01', 'scale_exchange: caller contract',
          {'exc': X.with_({'uncertainty': Maybe(UNCERTAINTY)}), 'factor': Num()}, functions=[SCALE], kind='refinement')
def scale_refines(V, exc, factor):
    if 'uncertainty' in exc:
        u = exc['uncertainty']
        if u['type'] == 'lognormal':
            V.requires(exc['amount'] != 0)
        if u['type'] == 'uniform':
            V.requires(u['minimum'] <= exc['amount'] and exc['amount'] <= u['maximum'] and u['minimum'] < u['maximum'])
    a = deepcopy(exc)
    b = deepcopy(exc)
    ra = V.call(scale_exchange, a, factor)
    rb = V.call(scale_exchange_spec, b, factor)
    V.ensures('no exception', ra.exc is None)
    if ra.exc is None:
        V.ensures('returns its argument', ra.value is a)
        V.ensures('effect as specified to callers', V.same(a, b))
