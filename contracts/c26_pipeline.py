# -*- coding: utf-8 -*-
"""C26: a system model applies its functions in order.  C31: log and report account for every step."""
import functools
import itertools
import json
import logging
import os
import pickle
import shutil
import tempfile
from copy import deepcopy
from unittest import mock

import docutils.core

from pyvc.harness import contract, abstract
from pyvc.schema import *
from .data import *

from ocelot import data_dir
from ocelot.collection import Collection, unwrap_functions
from ocelot.errors import InvalidTransformationFunction
from ocelot.model import apply_transformation, system_model
from ocelot.report import HTMLReport
from ocelot.utils import validate_configuration, get_function_meta
from ocelot.wrapper import TransformationWrapper

CHILD = Dict({'name': Str(), 'value': Num()})
PARENT = Dict({'name': Str(), 'value': Num(), 'chosen': Bool(), 'children': List(CHILD)})


def offspring(ds):
    """Some children"""
    return ds['children']


def chosen(ds):
    return ds['chosen']


W = 'ocelot.wrapper:TransformationWrapper.'


@contract('C26', 'TransformationWrapper', {'data': List(PARENT), 'filtered': Bool()}, functions=[W + '__init__', W + '__call__'])
def wrapper(V, data, filtered):
    old = deepcopy(data)
    w = TransformationWrapper(offspring, chosen) if filtered else TransformationWrapper(offspring)
    out = V.call(w, data)
    V.ensures('never fails', out.exc is None)
    V.ensures('the data that come in are not changed', V.same(old, data))
    if filtered:
        want = [c for ds in data for c in (ds['children'] if ds['chosen'] else [ds])]
    else:
        want = [c for ds in data for c in ds['children']]
    V.ensures('each dataset is replaced by the result of the function, in order', V.same(out.value, want))
    V.ensures('name and documentation are those of the function', w.__name__ == 'offspring' and w.__doc__ == 'Some children' and w.__table__ is None)


f = abstract('f', lambda x: ('f', x), sort='opq')
g = abstract('g', lambda x: ('g', x), sort='opq')
h = abstract('h', lambda x: ('h', x), sort='opq')
CL = 'ocelot.collection:Collection.'


@contract('C26', 'Collection: composition', {'data': Opaque()}, functions=[CL + '__init__', CL + 'unwrap', CL + '__call__', CL + '__iter__', 'ocelot.collection:unwrap_functions'])
def composed(V, data):
    out = V.call(Collection('c', f, g, h), data)
    V.ensures('functions are applied from first to last', out.exc is None and out.value == h(g(f(data))))
    out = V.call(Collection('c', h, Collection('d', f, f, h), [g, f]), data)
    V.ensures('nested collections and lists too', out.exc is None and out.value == f(g(h(f(f(h(data)))))))
    out = V.call(Collection('c'), data)
    V.ensures('an empty collection changes nothing', out.exc is None and out.value == data)


# ------------------------------------------------------- bounded: whole runs
class Recorder:
    """Transformation function which leaves a trace."""
    def __init__(self, name, kind, table):
        self.__name__ = name
        self.__doc__ = 'Does *%s*' % name if len(name) % 2 else None
        self.kind = kind
        if table:
            self.__table__ = {'title': 'T ' + name, 'columns': ['A', 'B']}
        self.table = table

    def apply(self, ds):
        return [dict(ds, trace=ds['trace'] + [self.__name__])] * {'split': 2, 'drop': ds['filepath'] == 'b.spold' and 0}.get(self.kind, 1)

    def rows(self, data):
        return [[self.__name__, 'n%d' % (i // 2)] for i in range(len(data))][::-1]     # some of them twice

    def __call__(self, data):
        for row in self.rows(data):
            if self.table:
                logging.getLogger('ocelot').info({'type': 'table element', 'data': row})
            else:
                logging.getLogger('ocelot').info({'type': 'list element', 'data': '<p>%s</p>' % row[1]})
        return [x for ds in data for x in self.apply(ds)]


FUN = Dict({'kind': Str(choices=['plain', 'plain', 'split', 'drop']), 'table': Bool(), 'group': Num(isint=True, pool=[0, 0, 1, 2]),
            'how': Str(choices=['list', 'tuple', 'collection', 'wrapper', 'partial'])})
RUN = {'funs': List(FUN, maxlen=5), 'data': List(Dict({'filepath': Str(choices=['a.spold', 'b.spold'])}), maxlen=3),
       'every': Num(isint=True, pool=[1, 2, 3]), 'follow': Str(choices=['', 'a', 'b.spold', 'zz'])}


def fun_meta(x):
    pass


def build(funs):
    """Nested configuration and the flat list of functions."""
    flat = [Recorder('fun%d%s' % (i, 'x' * (i % 3)), f['kind'], f['table']) for i, f in enumerate(funs)]
    config, i = [], 0
    while i < len(flat):
        n = int(funs[i]['group'])
        how = funs[i]['how']
        if n and how in ('list', 'tuple', 'collection'):
            sub = flat[i:i + n]
            config.append(sub if how == 'list' else tuple(sub) if how == 'tuple' else Collection('sub', *sub))
            i += n
            continue
        x = flat[i]
        if how == 'wrapper':
            fn = functools.partial(lambda r, ds: r.apply(ds), x)
            fn.__name__, fn.__doc__ = x.__name__, x.__doc__
            if x.table:
                fn.__table__ = x.__table__
            x.rows = lambda data: []
            x = TransformationWrapper(fn)
        elif how == 'partial':
            def partial_(data, r):
                return r(data)
            partial_.__name__, partial_.__doc__ = x.__name__, x.__doc__
            if x.table:
                partial_.__table__ = x.__table__
            x = functools.partial(partial_, r=x)
        config.append(x)
        i += 1
    return config, flat


publish = docutils.core.publish_programmatically
published = {}


def publish_once(*args, **kw):
    """The descriptions of functions in the report are the same in each run."""
    k = repr((args, kw))
    if k not in published:
        published[k] = publish(*args, **kw)
    return published[k]


class World:
    """A run in a scratch directory, with its loggers put back."""
    def __enter__(self):
        self.here = tempfile.mkdtemp()
        self.loggers = [(l, list(l.handlers), l.level, l.propagate) for l in map(logging.getLogger, ('ocelot', 'ocelot-detailed'))]
        for l, hs, _, _ in self.loggers:
            for x in hs:
                l.removeHandler(x)
        self.removed = []
        self.stack = [mock.patch.dict(os.environ, {'OCELOT_OUTPUT': self.here}),
                      mock.patch.object(docutils.core, 'publish_programmatically', publish_once),
                      mock.patch.object(shutil, 'rmtree', lambda p, *a, **k: self.removed.append(p))]
        for p in self.stack:
            p.start()
        return self

    def __exit__(self, *a):
        for p in reversed(self.stack):
            p.stop()
        for l, hs, level, prop in self.loggers:
            for x in list(l.handlers):
                x.close()
                l.removeHandler(x)
            for x in hs:
                l.addHandler(x)
            l.setLevel(level)
            l.propagate = prop
        shutil.rmtree(self.here)


def stages(flat, data):
    out = [data]
    for r in flat:
        out.append([x for ds in out[-1] for x in r.apply(ds)])
    return out


def check_run(V, funs, data, every, follow, nested):
    V.requires(all(k in d for d in funs for k in ('kind', 'table', 'group', 'how')) and len(funs) > 0 and every >= 1)
    config, flat = build(funs)
    if nested:
        config = Collection('everything', *config)
    data = [dict(d, id='id%d' % i, trace=[]) for i, d in enumerate(data)]
    want = stages(flat, deepcopy(data))
    with World() as w:
        world = (('ocelot.model:extract_directory', lambda data_path, use_cache=True, use_mp=True: data),)
        out = V.call_in(world, functools.partial(system_model, '/data', config=config, save_strategy=int(every), follow=follow or None))
        V.ensures('never fails', out.exc is None)
        if out.exc is not None:
            return
        manager, result = out.value
        V.ensures('all functions are applied in order, each once', result == want[-1])
        d = manager.directory
        V.ensures('there is a directory for the run', os.path.dirname(d) == w.here and os.path.isdir(d))
        load = lambda p: pickle.load(open(p, 'rb'))
        V.ensures('the final results are saved', load(os.path.join(d, 'final-results.pickle')) == want[-1])
        saved = {}
        for fn in os.listdir(d):
            if fn.endswith('.pickle') and fn != 'final-results.pickle':
                saved[int(fn.split('.')[0])] = load(os.path.join(d, fn))
        V.ensures('exactly the results the strategy asks for are saved', sorted(saved) == [i for i in range(len(flat)) if i % every == 0])
        V.ensures('each as it was after its function', all(saved[i] == want[i + 1] for i in saved))
        if follow:
            found = {}
            for fn in os.listdir(os.path.join(d, 'follow')):
                x = load(os.path.join(d, 'follow', fn))
                found[x['index']] = x
            hits = {i: [ds for ds in want[i + 1] if follow in ds['filepath']] for i in range(len(flat))}
            V.ensures('followed datasets are saved after each function', {i: x['datasets'] for i, x in found.items()} == {i: v for i, v in hits.items() if v})
            V.ensures('with the name of the function', all(x['function name'] == flat[i].__name__ for i, x in found.items()))
        log = [json.loads(line) for line in open(os.path.join(d, 'report.log.json'), encoding='utf-8')]
        V.ensures('the log has one line for each start, in order', [(l['name'], l['index'], l['count']) for l in log if l['type'] == 'function start']
                  == [(r.__name__, i, len(want[i])) for i, r in enumerate(flat)])
        V.ensures('and for each end', [(l['name'], l['index'], l['count']) for l in log if l['type'] == 'function end']
                  == [(r.__name__, i, len(want[i + 1])) for i, r in enumerate(flat)])
        V.ensures('between the start and the end of the report', log[0]['type'] == 'report start' and log[0]['uuid'] == manager.report_id
                  and log[0]['count'] == len(data) and log[-1]['type'] == 'report end')
        V.ensures('a report is written', os.path.isfile(os.path.join(d, 'report.html')) and
                  sorted(os.listdir(os.path.join(d, 'assets'))) == sorted(os.listdir(os.path.join(data_dir, 'assets'))))
        V.ensures('no directory is deleted', w.removed == [])
        with mock.patch.object(logging, 'raiseExceptions', False):
            r = HTMLReport.__new__(HTMLReport)
            report = V.call(r.read_log, os.path.join(d, 'report.log.json'))
        V.ensures('the log can be read', report.exc is None)
        fs = report.value['functions']
        V.ensures('the report lists every function once, in order', [(x['index'], x['name'], x['count']) for x in fs]
                  == [(i, r.__name__, len(want[i + 1])) for i, r in enumerate(flat)])
        V.ensures('and counts datasets before and after each', json.loads(report.value['count_data']) == [len(s) for s in want])
        ok = True
        for i, (x, r) in enumerate(zip(fs, flat)):
            rows = r.rows(want[i])
            if r.table:
                ok = ok and sorted(x['tabledata'] if isinstance(x['tabledata'], list) else json.loads(x['tabledata'])) == sorted(rows)
                ok = ok and x['table']['title'] == r.__table__['title'] and 'listdata' not in x
            else:
                ok = ok and x['listdata'] == ['<p>%s</p>' % row[1] for row in rows] and 'tabledata' not in x
        V.ensures('with exactly its table or list of changes', ok)
        html = open(os.path.join(d, 'report.html'), encoding='utf-8').read()
        V.ensures('the page names every function', all(x['name'] in html for x in fs) and manager.report_id in html)


@contract('C26', 'system_model: a list of functions', RUN, mode='concrete', tries=60,
          functions=['ocelot.model:system_model', 'ocelot.model:apply_transformation', 'ocelot.utils:validate_configuration', 'ocelot.utils:get_function_meta'])
def run_list(V, funs, data, every, follow):
    check_run(V, funs, data, every, follow, False)


@contract('C31', 'report of a run', RUN, mode='concrete', tries=60,
          functions=['ocelot.report:HTMLReport.read_log', 'ocelot.report:HTMLReport.handle_line', 'ocelot.report:jsonize', 'ocelot.logger:create_log',
                     'ocelot.model:apply_transformation'])
def run_collection(V, funs, data, every, follow):
    check_run(V, funs, data, every, follow, True)


NAMES = ['cutoff', 'cutoff_ecoinvent_row', 'consequential']


@contract('C26', 'system_model: by the name of its configuration', {'name': Str(choices=NAMES + [''])}, mode='concrete', tries=8,
          functions=['ocelot.model:system_model'])
def run_name(V, name):
    """Nothing given means cutoff."""
    V.requires(name in NAMES + [''])
    import ocelot.configuration as c
    want = {'consequential': c.consequential_config, 'cutoff_ecoinvent_row': c.cutoff_config_ecoinvent_row}.get(name, c.cutoff_config)
    with World():
        world = (('ocelot.model:extract_directory', lambda data_path, use_cache=True, use_mp=True: []),)
        out = V.call_in(world, functools.partial(system_model, '/data', config=name or None, save_strategy=1000000))
        V.ensures('never fails', out.exc is None)
        if out.exc is not None:
            return
        log = [json.loads(line) for line in open(os.path.join(out.value[0].directory, 'report.log.json'), encoding='utf-8')]
        V.ensures('its functions are applied in order', [l['name'] for l in log if l['type'] == 'function start']
                  == [get_function_meta(f)['name'] for f in unwrap_functions(want)])
