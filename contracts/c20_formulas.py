# -*- coding: utf-8 -*-
"""C20: recalculation: formulas and variables have the values they say."""
from copy import deepcopy

from pyvc.harness import contract, summary, abstract
from pyvc.schema import *
from .data import *
from .c02_repair import Repairer, gen_raw

from ocelot.transformations.parameterization.recalculation import (
    recalculate, recalculate_all_parameterized_datasets, extract_named_parameters)
from ocelot.transformations.uncertainty import get_uncertainty_class

R = 'ocelot.transformations.parameterization.recalculation:'
value_of = abstract('value of formula', lambda f: float(len(f)))
value_named = abstract('value of variable', lambda n: 100. + len(n))


class Table:
    def __setitem__(self, key, value):
        pass

    def __getitem__(self, key):
        return value_named(key)


class Calculator:
    """Stands for the interpreter, which is external, once it knows all variables."""
    def __init__(self, *args, **kw):
        self.symtable = Table()
        self.error = []

    def __call__(self, formula, **kw):
        return value_of(formula)


class Parameters:
    """Stands for the set of named parameters, evaluated in order (checked on its own below)."""
    def __init__(self, *args, **kw):
        pass

    def evaluate(self):
        return {}


WORLD = ((R + 'Interpreter', Calculator), (R + 'TolerantParameterSet', Parameters), (R + 'get_uncertainty_class', lambda exchange: Repairer))

FORMULA = Maybe(Str(pool=['a + 1', 'b * 2', 'a / b', '3']))
VAR = Maybe(Str(pool=['a', 'b', 'c']))
RAW = Maybe(Opaque(gen_raw))
QPROP = Dict({'name': Str(), 'amount': Num(), 'formula': FORMULA, 'variable': VAR, 'uncertainty': RAW})
QPV = Dict({'amount': Num(), 'formula': FORMULA, 'variable': VAR, 'uncertainty': RAW})
QEXC = Dict({'name': Str(), 'type': Str(), 'amount': Num(), 'formula': FORMULA, 'variable': VAR, 'uncertainty': RAW,
             'production volume': Maybe(QPV), 'properties': Maybe(List(QPROP))})
QDS = Dict({'name': Str(), 'exchanges': List(QEXC), 'parameters': Maybe(List(QPROP))})


def recalculated(V, o, n, what):
    V.ensures(what + ': nothing but amount and distribution changes', V.same_but(o, n, 'amount', 'uncertainty', 'production volume', 'properties'))
    if 'formula' in o:
        V.ensures(what + ': the value of its formula', V.eq(n['amount'], value_of(o['formula'])))
    elif 'variable' in o:
        V.ensures(what + ': the value of its variable', V.eq(n['amount'], value_named(o['variable'])))
    else:
        V.ensures(what + ': otherwise the amount stays', V.eq(n['amount'], o['amount']))
    if 'uncertainty' not in o:
        V.ensures(what + ': no distribution appears', 'uncertainty' not in n)
    elif o['uncertainty']:
        V.ensures(what + ': its distribution is repaired', n['uncertainty'] == 'repaired')


def start(V, ds):
    old = deepcopy(ds)
    out = V.call_in(WORLD, recalculate, ds)
    V.ensures('never fails', out.exc is None)
    V.ensures('the dataset is returned', out.value is ds)
    V.ensures('nothing else of the dataset changes', V.same_but(old, ds, 'exchanges', 'parameters'))
    return old


ALLF = [R + 'recalculate', 'ocelot.transformations.utils:iterate_all_parameters', 'ocelot.transformations.utils:iterate_all_uncertainties']


@contract('C20', 'recalculate: exchanges', {'ds': QDS}, functions=ALLF, budget=150)
def exchanges(V, ds):
    old = start(V, ds)
    for o, n in zip(old['exchanges'], ds['exchanges']):
        recalculated(V, o, n, 'exchange')


@contract('C20', 'recalculate: production volumes', {'ds': QDS}, functions=ALLF, budget=150)
def volumes(V, ds):
    old = start(V, ds)
    for o, n in zip(old['exchanges'], ds['exchanges']):
        V.ensures('volumes are kept', ('production volume' in o) == ('production volume' in n))
        if 'production volume' in o:
            recalculated(V, o['production volume'], n['production volume'], 'volume')


@contract('C20', 'recalculate: properties', {'ds': QDS}, functions=ALLF, budget=150)
def properties(V, ds):
    old = start(V, ds)
    for o, n in zip(old['exchanges'], ds['exchanges']):
        V.ensures('properties are kept', ('properties' in o) == ('properties' in n))
        if 'properties' in o:
            V.ensures('number of properties', len(o['properties']) == len(n['properties']))
            for a, b in zip(o['properties'], n['properties']):
                recalculated(V, a, b, 'property')


@contract('C20', 'recalculate: parameters', {'ds': QDS}, functions=ALLF, budget=150)
def parameters(V, ds):
    old = start(V, ds)
    V.ensures('parameters are kept', ('parameters' in old) == ('parameters' in ds))
    if 'parameters' in old:
        V.ensures('number of parameters', len(old['parameters']) == len(ds['parameters']))
        for a, b in zip(old['parameters'], ds['parameters']):
            recalculated(V, a, b, 'parameter')


# ------------------------------------------- with the real interpreter (bounded)
def python_value(formula, names):
    """What a formula of +, -, *, /, comparisons and conditions is worth; a division by zero makes it zero."""
    try:
        return eval(compile(formula, 'formula', 'eval'), {'__builtins__': {}}, dict(names))
    except ZeroDivisionError:
        return 0


def parameterised(ds):
    """All parameterised objects, listed independently of the code."""
    out = []
    for e in ds['exchanges']:
        for o in [e] + ([e['production volume']] if 'production volume' in e else []) + e.get('properties', []):
            out.append(o)
    out += ds.get('parameters', [])
    return [o for o in out if 'variable' in o or 'formula' in o]


def every_object(ds):
    return [o for e in ds['exchanges'] for o in [e] + ([e['production volume']] if 'production volume' in e else []) + e.get('properties', [])] + ds.get('parameters', [])


NAMES = ['a', 'b2', 'total_mass', 'x_1', 'yield_of_it', 'q', 'r', 'w']


def give_formulas(rng, ins, g, key='ds', products=None):
    """A dataset whose formulas refer to each other without circles, in any order of objects."""
    names = rng.sample(NAMES, rng.randint(1, 6))

    def term(known, depth=0):
        k = rng.random()
        if depth > 2 or k < .35:
            return rng.choice(known) if known and rng.random() < .8 else rng.choice(['2', '0.5', '0', '3', '1e-2', '1000'])
        if k < .9:
            return '%s %s %s' % (term(known, depth + 1), rng.choice('+-**/'), '(%s)' % term(known, depth + 1))
        return '(%s if %s > %s else %s)' % tuple(term(known, depth + 1) for _ in range(4))
    objects = []
    for i, n in enumerate(names):
        o = {'variable': n, 'amount': float(rng.choice([0, 1, 2, -1, .5]))}
        if rng.random() < .6:
            o['formula'] = term(names[:i])
        objects.append(o)
    for _ in range(rng.randint(0, 4)):
        objects.append({'formula': term(names), 'amount': 17.})
    for o in objects:
        if rng.random() < .3:
            o['uncertainty'] = gen_raw(rng)
    rng.shuffle(objects)
    ds = {'name': 'n', 'location': 'l', 'filepath': 'f', 'reference product': 'p', 'exchanges': [], 'parameters': []}
    for i, o in enumerate(objects):
        where = rng.random()
        if where < .4 or not ds['exchanges']:
            ds['exchanges'].append(dict(o, name='e%d' % i, id='i%d' % i, type=rng.choice(EXCHANGE_TYPES)))
        elif where < .6:
            ds['parameters'].append(dict(o, name='p'))
        elif where < .8:
            rng.choice(ds['exchanges']).setdefault('properties', []).append(dict(o, name='p'))
        else:
            rng.choice(ds['exchanges']).setdefault('production volume', dict(o))
    if rng.random() < .3:
        ds['exchanges'].append({'name': 'plain', 'id': 'plain', 'type': 'to environment', 'amount': 4., 'uncertainty': gen_raw(rng)})
    return {key: ds}


def evaluable(ds):
    objs = parameterised(ds)
    named = [o['variable'] for o in objs if 'variable' in o]
    return (len(set(named)) == len(named) and all(n in NAMES for n in named) and
            all('variable' in o or isinstance(o['formula'], str) and o['formula'] for o in objs) and all('amount' in o for o in every_object(ds)))


def expected_values(ds):
    """Values of all variables: dependencies first.  None if there are circles or unknown names."""
    objs = {o['variable']: o for o in parameterised(ds) if 'variable' in o}
    names = {}
    while len(names) < len(objs):
        n = len(names)
        for k, o in objs.items():
            if k not in names:
                if 'formula' not in o:
                    names[k] = o['amount']
                    continue
                used = {t for t in compile(o['formula'], 'f', 'eval').co_names}
                if used <= set(names):
                    names[k] = python_value(o['formula'], names)
        if len(names) == n:
            return None
    return names


def check_values(V, old, ds):
    names = expected_values(old)
    for o, n in zip(every_object(old), every_object(ds)):
        if 'formula' in o:
            V.ensures('a formula has the value of its expression', V.eq(n['amount'], python_value(o['formula'], names)))
        elif 'variable' in o:
            V.ensures('a variable keeps its value', V.eq(n['amount'], o['amount']))
        else:
            V.ensures('other amounts stay', V.eq(n['amount'], o['amount']))
        V.ensures('nothing else changes', V.same_but(o, n, 'amount', 'uncertainty', 'production volume', 'properties'))
        if o.get('uncertainty'):
            again = dict(deepcopy(o), amount=n['amount'])
            get_uncertainty_class(again).repair(again)
            V.ensures('distributions are repaired around the new amount', V.same(again.get('uncertainty'), n.get('uncertainty')))


def moderate(ds):
    try:
        names = expected_values(ds)
        return names is not None and all(isinstance(v, (int, float)) and abs(v) < 1e9 for v in list(names.values()) + [
            python_value(o['formula'], names) for o in parameterised(ds) if 'formula' in o])
    except (NameError, SyntaxError):
        return False


@contract('C20', 'recalculate: values of formulas', {'ds': QDS}, shape=give_formulas, mode='concrete', tries=800,
          functions=[R + 'recalculate', R + 'TolerantParameterSet.evaluate', R + 'extract_named_parameters'], note='the formula interpreter is external')
def values(V, ds):
    V.requires(evaluable(ds) and moderate(ds))
    V.requires(all(o.get('uncertainty') != 'x' for o in every_object(ds)))
    old = deepcopy(ds)
    out = V.call(extract_named_parameters, ds)
    V.ensures('exactly the named parameters are extracted, with formula and amount', out.exc is None and V.same(old, ds) and out.value == {
        o['variable']: {k: o[k] for k in ('amount', 'formula') if k in o} for o in parameterised(old) if 'variable' in o})
    out = V.call(recalculate, ds)
    V.ensures('never fails', out.exc is None and out.value is ds)
    check_values(V, old, ds)


def give_many(rng, ins, g):
    data = []
    for i in range(rng.randint(1, 4)):
        ds = give_formulas(rng, {}, g)['ds']
        if rng.random() < .4:
            k = rng.random()
            if k < .4:
                ds['parameters'] += [{'variable': 'c1', 'formula': 'c2 + 1', 'amount': 1.}, {'variable': 'c2', 'formula': 'c1 * 2', 'amount': 1.}]
            elif k < .7:
                ds['parameters'].append({'variable': 'c1', 'formula': 'nowhere + 1', 'amount': 1.})
            else:
                ds['parameters'].append({'variable': 'sqrt', 'amount': 1.})
        data.append(ds)
    return {'data': data}


@contract('C20', 'recalculate_all_parameterized_datasets', {'data': List(QDS)}, shape=give_many, mode='concrete', tries=300,
          functions=[R + 'recalculate_all_parameterized_datasets'], note='the formula interpreter is external')
def all_values(V, data):
    bad = lambda ds: any(o.get('variable') in ('c1', 'c2', 'sqrt') for o in parameterised(ds))
    V.requires(all(bad(ds) or (evaluable(ds) and moderate(ds)) for ds in data))
    V.requires(all(k in o for ds in data for o in parameterised(ds) for k in ['amount']))
    V.requires(all(not bad(ds) or (any(o.get('variable') == 'sqrt' for o in parameterised(ds)) or expected_values(ds) is None) for ds in data))
    V.requires(all(k in ds for ds in data for k in ('name', 'reference product', 'location')))
    V.requires(all(not bad(ds) or len({o['variable'] for o in parameterised(ds) if 'variable' in o}) == len([o for o in parameterised(ds) if 'variable' in o]) for ds in data))
    old = deepcopy(data)
    out = V.call(recalculate_all_parameterized_datasets, data)
    V.ensures('never fails', out.exc is None and out.value is data)
    for o, n in zip(old, data):
        if bad(o):
            V.ensures('datasets with circles or unusable names are left alone', V.same(o, n))
        else:
            check_values(V, o, n)
