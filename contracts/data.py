# -*- coding: utf-8 -*-
"""Input schemas shared by the contracts."""
from pyvc.schema import *

EXCHANGE_TYPES = ['reference product', 'byproduct', 'from technosphere', 'from environment',
                  'to environment', 'dropped product']
CLASSES = ['allocatable product', 'waste', 'recyclable']

SCORE = Num(isint=True, axiom=lambda t: Or(*[t == i for i in range(1, 6)]), pool=[1, 2, 3, 4, 5])
from z3 import Or  # noqa: E402

PEDIGREE = Dict({
    'reliability': Maybe(SCORE),
    'completeness': Maybe(SCORE),
    'temporal correlation': Maybe(SCORE),
    'geographical correlation': Maybe(SCORE),
    'further technological correlation': Maybe(SCORE),
    'sample size': Maybe(SCORE),
}, extra=False)

LOGNORMAL = Dict({'type': Const('lognormal'), 'mean': Num(), 'mu': Num(), 'variance': NonNeg(),
                  'variance with pedigree uncertainty': NonNeg(), 'negative': Maybe(Bool())})
NORMAL = Dict({'type': Const('normal'), 'mean': Num(), 'variance': NonNeg(),
               'variance with pedigree uncertainty': NonNeg()})
TRIANGULAR = Dict({'type': Const('triangular'), 'minimum': Num(), 'mode': Num(), 'maximum': Num()})
UNIFORM = Dict({'type': Const('uniform'), 'minimum': Num(), 'maximum': Num()})
UNDEFINED = Dict({'type': Const('undefined'), 'minimum': Num(), 'maximum': Num()})
UNCERTAINTY = OneOf(LOGNORMAL, NORMAL, TRIANGULAR, UNIFORM, UNDEFINED)


def gen_uncertainty(rng):
    """A valid distribution around any amount of moderate size."""
    return rng.choice([
        {'type': 'normal', 'mean': 1., 'variance': 0.5, 'variance with pedigree uncertainty': 0.6},
        {'type': 'undefined', 'minimum': -5., 'maximum': 5.},
        {'type': 'triangular', 'minimum': -2000., 'mode': 0., 'maximum': 3000.},
    ])


def UNC():
    """Uncertainty as seen by code that only passes it on."""
    return Maybe(Opaque(gen_uncertainty))


PROPERTY = Dict({'name': Str(pool=['price', 'true value relation', 'dry mass', 'carbon']), 'amount': Num(), 'unit': Str()})
PV = Dict({'amount': Num()})

EXC = Dict({
    'name': Str(),
    'type': Str(choices=EXCHANGE_TYPES),
    'amount': Num(),
    'unit': Str(),
    'byproduct classification': Maybe(Str(choices=CLASSES)),
    'formula': Maybe(Opaque()),
    'uncertainty': UNC(),
    'production volume': Maybe(PV),
})

DATASET = Dict({
    'name': Str(), 'filepath': Str(), 'location': Str(),
    'exchanges': List(EXC),
})

PROPS = Maybe(List(PROPERTY))
PEXC = EXC.with_({'id': Str(unique=True), 'properties': PROPS})
PDATASET = DATASET.with_({'exchanges': List(PEXC)})


def classified(ds):
    """Byproducts carry a classification (ensured by the extractor)."""
    return all('byproduct classification' in e or e['type'] != 'byproduct' for e in ds['exchanges'])


def allocatable(e):
    return e['type'] == 'reference product' or (
        e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product')


def give_classes(rng, ins, g, key='ds'):
    for e in ins[key]['exchanges']:
        if e['type'] == 'byproduct':
            e.setdefault('byproduct classification', rng.choice(CLASSES + ['allocatable product']))
    return ins


def give_all_classes(rng, ins, g, key='data'):
    for ds in ins[key]:
        give_classes(rng, {'ds': ds}, g)
    return ins
