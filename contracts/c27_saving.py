# -*- coding: utf-8 -*-
"""C27: when intermediate results are saved."""
from pyvc.harness import contract, spelled
from pyvc.schema import *

from ocelot.results import SaveStrategy

INT = Num(integral=True, pool=list(range(-3, 13)))
INDEX = Num(integral=True, axiom=lambda t: t >= 0, pool=list(range(0, 16)) + [1000, 2000, 2001])
RS = 'ocelot.results:SaveStrategy.'
F = [RS + '__init__', RS + 'parse', RS + '__call__']


@contract('C27', 'SaveStrategy: every n-th', {'n': INT, 'index': INDEX, 'text': Bool()}, functions=F)
def every(V, n, index, text):
    made = V.call(SaveStrategy, spelled(':', n) if text else n)
    if n < 1:
        V.ensures('numbers below one are refused', made.exc is ValueError)
    else:
        V.ensures('numbers are accepted', made.exc is None)
        out = V.call(made.value, index)
        V.ensures('exactly every n-th result is saved', out.exc is None and bool(out.value) == (index % n == 0))


@contract('C27', 'SaveStrategy: default', {'index': INDEX}, functions=F)
def default(V, index):
    out = V.call(SaveStrategy(), index)
    V.ensures('the default is a number of transformations', bool(out.value) == (index % SaveStrategy.DEFAULT == 0))


@contract('C27', 'SaveStrategy: from a to b', {'a': INT, 'b': INT, 'index': INDEX}, functions=F)
def between(V, a, b, index):
    made = V.call(SaveStrategy, spelled(':', a, b))
    V.ensures('ranges are accepted', made.exc is None)
    out = V.call(made.value, index)
    V.ensures('exactly the results from a to b are saved', out.exc is None and bool(out.value) == (a <= index and index <= b))


@contract('C27', 'SaveStrategy: from a to b in steps', {'a': INT, 'b': INT, 'c': INT, 'index': INDEX}, functions=F)
def steps(V, a, b, c, index):
    V.requires(c >= 0)
    made = V.call(SaveStrategy, spelled(':', a, b, c))
    if c == 0:
        V.ensures('no step is refused', made.exc is ValueError)
    else:
        V.ensures('ranges are accepted', made.exc is None)
        out = V.call(made.value, index)
        V.ensures('exactly each c-th result from a to b is saved',
                  out.exc is None and bool(out.value) == (a <= index and index <= b and (index - a) % c == 0))


@contract('C27', 'SaveStrategy: nonsense', {'text': Str(pool=['a', '1:', ':', '1:b', '1:2:3:4', '1.5', '', 'a:1', '1:2:'])}, mode='concrete', functions=F)
def nonsense(V, text):
    V.requires(text in ['a', '1:', ':', '1:b', '1:2:3:4', '1.5', '', 'a:1', '1:2:'])
    made = V.call(SaveStrategy, text)
    V.ensures('anything else is refused', made.exc is ValueError or made.exc is TypeError)
