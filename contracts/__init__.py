# -*- coding: utf-8 -*-
"""Contracts on the real code in /repo (one module per property group)."""
import importlib
import os

ASSUMPTIONS = [
    'floating point numbers are treated as mathematical reals (decimal literals exactly); concrete runs compare with a relative tolerance of 1e-6',
    'inputs are trees: no object is reachable twice from the arguments (true of freshly extracted data)',
    'logging calls have no effect on the data',
    'python, numpy and pandas behave as modelled in /verif/pyvc/models.py (cross-checked by running every contract concretely on the real code)',
    'math.log and math.sqrt satisfy only the facts stated in /verif/pyvc/models.py',
    'keys outside a contract\'s schema are not read by the code (they are tracked as one opaque remainder)',
]


NOT_LOADED = {}


def load_all():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f[0] == 'c' and f[1].isdigit():
            try:
                importlib.import_module('contracts.' + f[:-3])
            except (ImportError, AttributeError) as e:
                # a renamed function is no verdict about its behaviour
                NOT_LOADED[f] = repr(e)
