# -*- coding: utf-8 -*-
"""C28: cached data are used only while fresh.  C32: only old reports are deleted."""
import copy
import hashlib
import os
import pickle
import shutil
import tempfile
import time

from pyvc.harness import contract, abstract
from pyvc.schema import *
from .data import *

from ocelot import filesystem
from ocelot.filesystem import check_cache_directory, cache_data, get_from_cache, get_cache_filepath_for_data_path, safe_filename
from ocelot.io import extract_directory
from ocelot.io.cleanup import cleanup_data_directory
import ocelot.io.cleanup as cleanup_module

FS = 'ocelot.filesystem:'
TIMES = {}      # concrete stand-in for the clock of the file system
time_of = abstract('time of path', lambda p: TIMES[p], pure=False)
is_filled = abstract('is filled', lambda p: FOLDERS.get(p, False), sort='bool', pure=False)
is_folder = abstract('is folder', lambda p: FOLDERS.get(p, False), sort='bool', pure=False)
FOLDERS = {}
TIME = Num(pool=[1., 2., 3., 4.])


class Stat:
    def __init__(self, path):
        self.st_mtime = time_of(path)
        self.st_ctime = time_of(path)


def glue(a, b):
    return a + '/' + b


@contract('C28', 'check_cache_directory', {'names': List(Dict({'fn': Str(unique=True), 'time': TIME, 'hidden': Bool(), 'prefix': Str(choices=['', '', '_', '~', 'x.', '-']), 'suffix': Str(choices=['', '.spold', '.xml', '~', '.'])})), 'there': Bool(),
                                           'dir': TIME, 'cached': TIME},
          functions=[FS + 'check_cache_directory'])
def fresh(V, names, there, dir, cached):
    files = [n['fn'] for n in names]
    if not V.symbolic:
        return fresh_really(V, [('.' if n['hidden'] else '') + n['prefix'] + n['fn'] + n['suffix'] for n in names], names, there, dir, cached)
    world = (('os.path:isdir', lambda s: True), ('os.path:exists', lambda path: there if path == '/cache' else True),
             ('os:listdir', lambda path=None: files), ('os.path:join', glue), ('os:stat', Stat), ('os.path:getmtime', time_of),
             ('ocelot.filesystem:get_cache_filepath_for_data_path', lambda data_path: '/cache'))
    out = V.call_in(world, check_cache_directory, '/data')
    V.ensures('never fails', out.exc is None)
    newest = all(time_of('/cache') > time_of(glue('/data', f)) for f in files if not f.startswith('.'))
    V.ensures('fresh means newer than the directory and all its visible files',
              bool(out.value) == (there and time_of('/cache') > time_of('/data') and newest))


def fresh_really(V, files, names, there, dir, cached):
    """The same for real files."""
    V.requires(len(set(files)) == len(files) and not any(f in ('.', '..') or '/' in f or not f for f in files))
    here = tempfile.mkdtemp()
    try:
        data, cache = os.path.join(here, 'data'), os.path.join(here, 'cache')
        os.mkdir(data)
        for f, n in zip(files, names):
            open(os.path.join(data, f), 'w').close()
            os.utime(os.path.join(data, f), (1e6 + n['time'], 1e6 + n['time']))
        os.utime(data, (1e6 + dir, 1e6 + dir))
        if there:
            open(cache, 'w').close()
            os.utime(cache, (1e6 + cached, 1e6 + cached))
        out = V.call_in((('ocelot.filesystem:get_cache_filepath_for_data_path', lambda data_path: cache),), check_cache_directory, data)
    finally:
        shutil.rmtree(here)
    V.ensures('never fails', out.exc is None)
    V.ensures('fresh means newer than the directory and all its visible files',
              bool(out.value) == (there and cached > dir and all(cached > n['time'] for f, n in zip(files, names) if not f.startswith('.'))))


@contract('C28', 'extract_directory', {'fresh': Bool(), 'use': Bool(), 'old': Opaque(), 'new': Opaque()},
          functions=['ocelot.io:extract_directory'])
def extract(V, fresh, use, old, new):
    written = []
    world = (('ocelot.io:check_cache_directory', lambda data_path: fresh), ('ocelot.io:get_from_cache', lambda data_path: old),
             ('ocelot.io:extract_ecospold2_directory', lambda dirpath, use_mp=True: new), ('ocelot.io:cache_data', lambda data, data_path: written.append((data, data_path))),
             ('os.path:abspath', lambda path: '/abs/' + path))
    out = V.call_in(world, extract_directory, 'x', use)
    V.ensures('never fails', out.exc is None)
    if use and fresh:
        V.ensures('fresh data are read from the cache', out.value == old and len(written) == 0)
    else:
        V.ensures('other data are extracted', out.value == new)
        if use:
            V.ensures('and cached for this directory', len(written) == 1 and written[0][0] == new and written[0][1] == '/abs/x')
        else:
            V.ensures('the cache is left alone if it is not used', len(written) == 0)


@contract('C28', 'cache files', {'a': Str(pool=['/x', '/x/', 'x', './x', 'x/../x', '/y/x', 'y', '/X']), 'b': Str(pool=['/x', 'x', 'y', '/y/x', '/X'])},
          mode='concrete', tries=60, functions=[FS + 'get_cache_filepath_for_data_path', FS + 'cache_data', FS + 'get_from_cache'])
def files(V, a, b):
    V.requires(a and b)
    here = tempfile.mkdtemp()
    try:
        world = (('ocelot.filesystem:get_base_directory', lambda: here),)
        p, q = (V.call_in(world, get_cache_filepath_for_data_path, x) for x in (a, b))
        V.ensures('never fails', p.exc is None and q.exc is None)
        V.ensures('one cache for each directory', (p.value == q.value) == (os.path.abspath(a) == os.path.abspath(b)))
        V.ensures('in the cache directory', os.path.dirname(p.value) == os.path.join(here, 'cache'))
        for x in (a, b):
            V.call_in(world, cache_data, [{'path': os.path.abspath(x), 'amount': 1.5}], x)
        for x in (b, a):
            out = V.call_in(world, get_from_cache, x)
            V.ensures('what was cached is read', out.exc is None and out.value == [{'path': os.path.abspath(x), 'amount': 1.5}])
        with_version = filesystem.__io_version__
        other = V.call_in(world + (('ocelot.filesystem:__io_version__', with_version + 'x'),), get_cache_filepath_for_data_path, a)
        V.ensures('another extractor does not use it', other.value != p.value)
    finally:
        shutil.rmtree(here)


@contract('C28', 'safe_filename', {'a': Str(pool=['a b', 'a-b', 'a/b', '../x', 'é', 'e', '', 'a\0', 'x' * 9, 'A']), 'b': Str(pool=['a b', 'a-b', 'a--b', 'ab', 'e', '/'])},
          mode='concrete', tries=300, functions=[FS + 'safe_filename'])
def names(V, a, b):
    p, q = V.call(safe_filename, a), V.call(safe_filename, b)
    V.ensures('never fails', p.exc is None and q.exc is None)
    V.ensures('different names for different strings', (p.value == q.value) == (a == b))
    V.ensures('names stay in their directory', '/' not in p.value and '\0' not in p.value and p.value not in ('.', '..'))


WEEK = 7 * 24 * 60 * 60


def sometimes_many(rng, ins, g):
    if rng.random() < .02:
        ins['entries'] = [{'name': 'r%d' % i, 'folder': True, 'filled': rng.random() < .5, 'age': rng.choice([6., 8., 9.])} for i in range(rng.choice([60, 300, 1200]))]
    return ins


@contract('C32', 'cleanup_data_directory', {'entries': List(Dict({'name': Str(unique=True), 'folder': Bool(), 'filled': Bool(), 'age': Num(pool=[0., 1., 6.9, 7., 7.1, 8., 400.])})),
                                            'now': Num(pool=[1e9])}, shape=sometimes_many,
          functions=['ocelot.io.cleanup:cleanup_data_directory'])
def cleanup(V, entries, now):
    names = [e['name'] for e in entries]
    if not V.symbolic:
        return cleanup_really(V, entries)
    deleted = []
    world = (('ocelot.io.cleanup:get_output_directory', lambda: '/reports'), ('os:listdir', lambda path=None: names if path == '/reports' else ['x'] if is_filled(path) else []), ('os.path:join', glue),
             ('os.path:isdir', lambda s: is_folder(s)), ('os.path:getctime', lambda filename: time_of(filename)), ('os:stat', Stat), ('time:time', lambda: now),
             ('time:ctime', lambda seconds=None: 'then'), ('shutil:rmtree', lambda path, *args, **kwargs: deleted.append(path)))
    out = V.call_in(world, cleanup_data_directory)
    V.ensures('never fails', out.exc is None)
    for n in names:
        p = glue('/reports', n)
        if is_folder(p) and time_of(p) < now - WEEK:
            V.ensures('old reports are deleted', p in deleted)
        else:
            V.ensures('everything else is kept', p not in deleted)
    V.ensures('nothing else is touched', all(any(p == glue('/reports', n) for n in names) for p in deleted))


def cleanup_really(V, entries):
    """The same for real directories: made one after another, some of them before, some after what counts as a week ago."""
    here = tempfile.mkdtemp()
    deleted = []
    paths = [os.path.join(here, e['name']) for e in entries]
    V.requires(all(n == os.path.basename(n) and n not in ('.', '..', '') for n in [e['name'] for e in entries]) and len(set(paths)) == len(paths))
    try:
        times = {}
        for old in (True, False):
            for e, p in zip(entries, paths):
                if (e['age'] > 7) == old:
                    if e['folder']:
                        os.mkdir(p)
                        if e['filled']:
                            open(os.path.join(p, 'x'), 'w').close()
                    else:
                        open(p, 'w').close()
                    times.setdefault(old, []).append(os.stat(p).st_ctime)
            time.sleep(.02)
        now = WEEK + ((times[True][-1] + times[False][0]) / 2 if len(times) == 2 else times[True][-1] + 1 if True in times else times[False][0] - 1 if times else 0)
        want = [p for e, p in zip(entries, paths) if e['folder'] and os.stat(p).st_ctime < now - WEEK]
        clock = time.time
        world = (('ocelot.io.cleanup:get_output_directory', lambda: here), ('time:time', lambda: now), ('shutil:rmtree', lambda path, *args, **kwargs: deleted.append(os.path.abspath(path))))
        world += tuple(('ocelot.io.cleanup:' + k, lambda: now) for k, v in vars(cleanup_module).items() if v is clock)
        out = V.call_in(world, cleanup_data_directory)
        deleted += [p for p in paths if not os.path.exists(p)]
    finally:
        shutil.rmtree(here)
    V.ensures('never fails', out.exc is None)
    V.ensures('old reports are deleted', all(p in deleted for p in want))
    V.ensures('everything else is kept', not any(p in deleted for p in paths if p not in want))
    V.ensures('nothing else is touched', all(p in paths for p in deleted))
