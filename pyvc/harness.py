# -*- coding: utf-8 -*-
"""Contracts: registration, symbolic discharge, concrete execution, replay.

A contract is an ordinary python function ``harness(V, **inputs)``.  It is run

* symbolically by the verifier (``SymV``): inputs are arbitrary values of their
  schema, every ``V.ensures`` on every path is a proof obligation;
* concretely on CPython against the real code (``ConV``): used to look for a
  failing input once an obligation fails, to replay it, and as the bounded
  stand-in where the verifier cannot reach the code.
"""
import contextlib
import copy
import io
import importlib
from unittest import mock
import math
import random
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import schema as S
from .engine import (Unsupported, PyExc, Infeasible, SNum, SBool, SStr, SOpq, Ref,
                     Elem, Cond, For, UNSPEC, Engine)
from .interp import Interp, ExcVal
from .logic import Logic, And, Or, Not, is_true, is_false, to_bool
from . import models as M


class Skip(Exception):
    """Precondition not satisfied by a concrete input."""


class Missing(Exception):
    """A function a contract is about does not exist (any more)."""


def locate(path):
    mod, _, name = path.partition(':')
    try:
        obj = importlib.import_module(mod)
        for part in name.split('.'):
            obj = getattr(obj, part)
    except (ImportError, AttributeError):
        raise Missing(path)
    return obj


class Outcome:
    """Result of V.call: .exc is the exception class or None, .value the result."""
    def __init__(self, exc, value):
        self.exc, self.value = exc, value

    def pyvc_getattr(self, I, name):
        if name in ('exc', 'value'):
            return getattr(self, name)
        raise PyExc(AttributeError, (name,))

    def pyvc_subst(self, I, pairs):
        return Outcome(self.exc, I.subst(self.value, pairs))


# ------------------------------------------------------------------ registry
class Contract:
    def __init__(self, fn, prop, name, inputs, uses=(), functions=(), shape=None, tries=None,
                 max_paths=3000, budget=60, mode='U', kind='contract', also=(), note=None,
                 native=False):
        self.fn, self.prop, self.name, self.inputs = fn, prop, name, inputs
        self.uses, self.functions, self.shape = tuple(uses), tuple(functions), shape
        self.tries = tries
        self.max_paths, self.budget, self.mode = max_paths, budget, mode
        self.kind = kind
        self.also = also
        self.note = note
        self.native = native


class Summary:
    """Executable contract of a callee: used instead of its body at call sites."""
    def __init__(self, path, spec, trusted=None):
        self.path, self.spec, self.trusted = path, spec, trusted


CONTRACTS = []
SUMMARIES = {}


def contract(prop, name, inputs, **kw):
    def deco(fn):
        c = Contract(fn, prop, name, inputs, **kw)
        CONTRACTS.append(c)
        return fn
    return deco


def summary(path, trusted=None):
    def deco(fn):
        SUMMARIES[path] = Summary(path, fn, trusted)
        return fn
    return deco


def refines(prop, path, inputs, name=None, ignore=(), **kw):
    """Contract: the real function behaves as its summary for all inputs."""
    def harness(V, **ins):
        real = V.fn(path)
        spec = V.spec(path)
        a = V.copy(ins)
        b = V.copy(ins)
        ra = V.callkw(real, a)
        rb = V.callkw(spec, b)
        V.ensures('raises exactly when its contract says', ra.exc is rb.exc)
        if ra.exc is None and rb.exc is None:
            V.ensures('result equals its contract', V.same(V.result(ra.value), V.result(rb.value)))
            V.ensures('arguments are changed exactly as its contract says', V.same(V.listing(a), V.listing(b)))
    kw.setdefault('functions', [path])
    CONTRACTS.append(Contract(harness, prop, name or 'refine ' + path.partition(':')[2], inputs, kind='refinement', native=True, **kw))


# ------------------------------------------------------------- concrete run
def close(a, b, rel=1e-6, ab=1e-9):
    if a == b:
        return True
    try:
        if math.isnan(a) or math.isnan(b):
            return False
    except TypeError:
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or type(x).__module__ == 'numpy' and hasattr(x, 'dtype') and x.shape == ()


def same(a, b):
    if a is UNSPEC or b is UNSPEC:
        return True
    if isnum(a) and isnum(b):
        return close(float(a), float(b))
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {k for k, v in a.items() if v is not UNSPEC}
        kb = {k for k, v in b.items() if v is not UNSPEC}
        ua, ub = set(a) - ka, set(b) - kb
        if (ka - ub) != (kb - ua):
            return False
        return all(same(a[k], b[k]) for k in ka & kb)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class ConV:
    symbolic = False

    def __init__(self, rng=None):
        self.failed = []
        self.checked = 0
        self.calls = 0
        self.rng = rng
        self.trace = []

    def requires(self, c):
        if not c:
            raise Skip()

    def ensures(self, name, c):
        self.checked += 1
        if not c:
            self.failed.append(name)

    def call(self, fn, *args, **kw):
        self.calls += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*args, **kw)
                if hasattr(r, '__next__'):
                    r = list(r)
            return Outcome(None, r)
        except Skip:
            raise
        except Exception as e:
            self.trace.append('%s: %s' % (type(e).__name__, str(e)[:300]))
            return Outcome(type(e), None)

    def callkw(self, fn, kw):
        return self.call(fn, *kw.values())

    def call_in(self, world, fn, *args):
        """Call with stand-ins for external functions: ((path, stand-in), ...)."""
        with contextlib.ExitStack() as stack:
            for path, f in world:
                mod, _, name = path.partition(':')
                locate(path)
                stack.enter_context(mock.patch.object(importlib.import_module(mod), name, f))
            return self.call(fn, *args)

    def fn(self, path):
        return locate(path)

    def spec(self, path):
        return SUMMARIES[path].spec

    def copy(self, x):
        return copy.deepcopy(x)

    def same(self, a, b):
        return same(a, b)

    def eq(self, a, b):
        return same(a, b)

    def same_but(self, a, b, *keys):
        return same({k: v for k, v in a.items() if k not in keys}, {k: v for k, v in b.items() if k not in keys})

    def le(self, a, b):
        return a <= b or close(a, b)

    def lt(self, a, b):
        return a < b or close(a, b)

    def result(self, r):
        return r

    def listing(self, d):
        return list(d.values())

    def implies(self, a, b):
        return (not a) or b

    def nonvacuous(self, name):
        pass


# ------------------------------------------------------------- symbolic run
class _SVM:
    def __init__(self, v, name):
        self.v, self.name = v, name

    def pyvc_call(self, I, args, kw):
        return getattr(self.v, 'm_' + self.name)(I, *args, **kw)


class Obligation:
    __slots__ = ('name', 'status', 'paths', 'time', 'why', 'models')

    def __init__(self, name):
        self.name, self.status, self.paths, self.time, self.why, self.models = name, 'discharged', 0, 0.0, None, []


class SymV:
    symbolic = True

    def __init__(self, contract_, obligations, missing):
        self.c = contract_
        self.obl = obligations
        self.missing = missing
        self.reached = 0

    def pyvc_getattr(self, I, name):
        if name == 'symbolic':
            return True
        return _SVM(self, name)

    def m_requires(self, I, c):
        I.assume(I.truth(c))

    def m_nonvacuous(self, I, name):
        self.reached += 1

    def m_implies(self, I, a, b):
        return SBool(Or(Not(to_bool(I.truth(a))), to_bool(I.truth(b))))

    def m_ensures(self, I, name, c):
        o = self.obl.setdefault(name, Obligation(name))
        o.paths += 1
        self.reached += 1
        t = I.truth(c)
        if t is True or is_true(t):
            return
        t = to_bool(t)
        if is_false(t):
            goals = [t]
        else:
            goals = split(t)
        t0 = time.time()
        for g in goals:
            tag = '%s/%s#%d' % (self.c.name, name, o.paths)
            r, m = I.L.check(I.pc + [Not(g)], timeout_ms=I.L.goal_timeout, tag=tag)
            if r == 'unsat':
                continue
            if r == 'unknown':
                if o.status == 'discharged':
                    o.status = 'unknown'
                    o.why = 'solver gave up on: %s' % str(g)[:300]
                continue
            if o.status != 'refuted' or len(o.models) < 4:
                r, m = I.L.check(I.pc + [Not(g)], timeout_ms=I.L.goal_timeout, want_model=True)
                o.status = 'refuted'
                o.why = 'not provable: %s' % str(z3.simplify(g))[:400]
                if m is not None:
                    o.models.append((m, list(I.pc)))
        o.time += time.time() - t0

    def m_call(self, I, fn, *args, **kw):
        return self.run_call(I, fn, args, kw)

    def run_call(self, I, fn, args, kw):
        depth = len(I.frames)
        try:
            r = I.call(fn, args, kw)
            if isinstance(r, Ref) and r.kind == 'gen':
                r = I.new_list(I.iter_tree(r))
            return Outcome(None, r)
        except PyExc as e:
            del I.frames[depth:]
            return Outcome(e.cls, None)

    def m_call_in(self, I, world, fn, *args):
        saved = I.contracts
        I.contracts = dict(saved)
        try:
            for path, f in [I.force(w) for w in I.flatten_tree(I.iter_tree(world))]:
                I.contracts[id(locate(path))] = f
            return self.run_call(I, fn, args, {})
        finally:
            I.contracts = saved

    def m_callkw(self, I, fn, kw):
        return self.run_call(I, fn, [v for v in kw.values()], {})

    def m_fn(self, I, path):
        return locate(path)

    def m_spec(self, I, path):
        return SUMMARIES[path].spec

    def m_copy(self, I, x):
        if isinstance(x, dict):
            return {k: M._deepcopy(I, v) for k, v in x.items()}
        return M._deepcopy(I, x)

    def m_same(self, I, a, b):
        I.unspec_ok = True
        try:
            return self.eqv(I, a, b)
        finally:
            I.unspec_ok = False

    m_eq = m_same

    def m_same_but(self, I, a, b, *keys):
        I.unspec_ok = True
        try:
            r = M.dict_eq(I, I.force(a), I.force(b), ignore=keys)
            return r if isinstance(r, bool) else SBool(r)
        finally:
            I.unspec_ok = False

    def eqv(self, I, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return SBool(And([to_bool(I.truth(self.eqv(I, x, y))) for x, y in zip(a, b)]))
        r = M.eq(I, a, b)
        return r if isinstance(r, bool) else SBool(r)

    def m_le(self, I, a, b):
        return SBool(I.num(I.force(a)) <= I.num(I.force(b)))

    def m_lt(self, I, a, b):
        return SBool(I.num(I.force(a)) < I.num(I.force(b)))

    def m_result(self, I, r):
        return r

    def m_listing(self, I, d):
        return list(d.values())


def split(t):
    t = z3.simplify(t)
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack.extend(x.children())
        elif z3.is_not(x) and z3.is_or(x.arg(0)):
            stack.extend(z3.Not(c) for c in x.arg(0).children())
        else:
            out.append(x)
    return out


class Result:
    def __init__(self, c):
        self.contract = c
        self.status = None          # proved | refuted | undecided | missing
        self.obligations = {}
        self.why = None
        self.functions = {}
        self.paths = 0
        self.loops = 0
        self.solver_time = 0.0
        self.queries = 0
        self.wall = 0.0
        self.failing = None         # concrete failing input
        self.tried = 0
        self.satisfied = 0
        self.goals = []
        self.cons = 0


def verify(c, timeout_ms=4000, goal_timeout=15000, log_goals=False, mode=None, maxlen=2, budget=None):
    """Discharge one contract symbolically."""
    res = Result(c)
    t0 = time.time()
    L = Logic(timeout_ms)
    L.goal_timeout = goal_timeout
    L.log_goals = log_goals
    L.deadline = t0 + (budget or c.budget)
    I = Interp(L, mode=mode or c.mode, maxlen=maxlen, max_paths=c.max_paths)
    res.interp = I
    missing = []
    for path in c.uses:
        try:
            fn = locate(path)
        except Missing:
            missing.append(path)
            continue
        I.contracts[id(fn)] = SUMMARIES[path].spec
        M._KEEP.append(fn)
    V = SymV(c, res.obligations, missing)

    def thunk():
        ins = {}
        for nm, sch in c.inputs.items():
            alts = I.base_alts(sch, nm, ())
            neg = z3.BoolVal(True)
            excl = []
            for cc, v in alts:
                excl.append((And(neg, cc), v))
                neg = And(neg, Not(cc))
            ins[nm] = I.resolve(excl)
        if c.native:
            return c.fn(_PyV(V, I), **ins)
        return I.call(c.fn, [V], ins)
    try:
        paths = I.explore(thunk)
        for p in paths:
            if p.kind == 'exc':
                o = res.obligations.setdefault('harness runs', Obligation('harness runs'))
                # after an obligation that was not settled, the path need not exist
                o.status = 'unknown' if any(x.status == 'unknown' for x in res.obligations.values()) else 'refuted'
                o.why = 'exception in contract: %s' % p.val
        res.paths = len(paths)
        if not V.reached or not paths:
            res.status, res.why = 'undecided', 'vacuous: no path reaches a postcondition'
        elif any(o.status == 'refuted' for o in res.obligations.values()):
            res.status = 'refuted'
        elif any(o.status == 'unknown' for o in res.obligations.values()):
            res.status = 'undecided'
            res.why = '; '.join('%s: %s' % (o.name, o.why) for o in res.obligations.values() if o.status == 'unknown')
        else:
            res.status = 'proved'
    except Missing as e:
        res.status, res.why = 'missing', str(e)
    except Unsupported as e:
        res.status, res.why = 'undecided', 'outside the verified subset: %s' % e
        res.tb = traceback.format_exc()
    except (TimeoutError, RecursionError, MemoryError) as e:
        res.status, res.why = 'undecided', '%s: %s' % (type(e).__name__, e)
    except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
        # a defect of the verifier is never reported as a violation of the code
        res.status, res.why = 'undecided', 'internal: %s: %s' % (type(e).__name__, e)
        res.tb = traceback.format_exc()
    if res.status == 'undecided' and any(o.status == 'refuted' for o in res.obligations.values()):
        res.status = 'refuted'
    res.functions = dict(I.functions)
    res.loops = I.loops_summarised
    res.solver_time, res.queries = L.stats.time, L.stats.queries
    res.goals = L.goal_log
    res.wall = time.time() - t0
    return res


class _PyV:
    """SymV for harnesses executed natively (refinement harness)."""
    symbolic = True

    def __init__(self, v, I):
        self.v, self.I = v, I

    def __getattr__(self, name):
        f = getattr(self.v, 'm_' + name)
        return lambda *a, **k: f(self.I, *a, **k)


# ----------------------------------------------------- concrete counterexamples
class Concretiser:
    """Input values from a solver model."""
    def __init__(self, I, m, limit=6):
        self.I, self.m, self.limit = I, m, limit
        self.L = I.L
        self.strs = {}
        for s, c in self.L.strings.items():
            v = m.eval(c, model_completion=True)
            self.strs.setdefault(str(v), s)
        self.vals = {}

    def ev(self, e):
        return self.m.eval(e, model_completion=True)

    def boolean(self, prefix, path, args):
        e, _ = self.I.uf(prefix, path, args, z3.BoolSort())
        return z3.is_true(self.ev(e))

    def number(self, e, isint):
        v = self.ev(e)
        if z3.is_algebraic_value(v):
            v = v.approx(12)
        f = v.as_fraction() if hasattr(v, 'as_fraction') else Fraction(0)
        if f.denominator == 1 and abs(f) < 10 ** 15:
            return int(f) if isint else float(f)
        return float(f)

    def value(self, sch, path, args):
        I, L = self.I, self.L
        if isinstance(sch, S.Opt):
            if self.boolean('none', path, args):
                return None
            return self.value(sch.inner, path, args)
        if isinstance(sch, S.OneOf):
            for i, alt in enumerate(sch.alts[:-1]):
                if self.boolean('alt%d' % i, path, args):
                    return self.value(alt, path + '|%d' % i, args)
            n = len(sch.alts) - 1
            return self.value(sch.alts[-1], path + '|%d' % n, args)
        if isinstance(sch, S.Const):
            return sch.value
        if isinstance(sch, S.Num):
            e, _ = I.uf('v', path, args, z3.IntSort() if sch.integral else z3.RealSort())
            return self.number(e, sch.isint)
        if isinstance(sch, S.Str):
            if sch.unique and args:
                return '%s-%s' % (path, '-'.join(map(str, args)))
            e, _ = I.uf('v', path, args, L.Str)
            k = str(self.ev(e))
            if k not in self.strs:
                if sch.choices:
                    return sch.choices[0]
                self.strs[k] = 'str%d' % len(self.strs)
            return self.strs[k]
        if isinstance(sch, S.Bool):
            e, _ = I.uf('v', path, args, z3.BoolSort())
            return z3.is_true(self.ev(e))
        if isinstance(sch, S.Opaque):
            e, _ = I.uf('v', path, args, L.Val)
            k = (str(self.ev(e)), path.split('.')[-1])
            if k not in self.vals:
                self.vals[k] = sch.gen(random.Random(len(self.vals))) if sch.gen else 'opaque%d' % len(self.vals)
            return copy.deepcopy(self.vals[k])
        if isinstance(sch, S.Dict):
            out = {}
            for k, f in sch.fields.items():
                p = '%s.%s' % (path, k)
                if f.optional and not self.boolean('has', p, args):
                    continue
                out[k] = self.value(f.schema, p, args)
            return out
        if isinstance(sch, S.List):
            return self.listing(sch, path, args)
        raise Unsupported('concretise')

    def listing(self, sch, path, args):
        I, L = self.I, self.L
        epath = path + '[]'
        if I.mode == 'U' and not sch.fixed:
            ints = tuple(a for a in args if isinstance(a, int))
            zs = [a for a in args if not isinstance(a, int)]
            srt = L.sort('%s%s' % (epath, list(ints) if ints else ''))
            uni = self.m.get_universe(srt) or []
            if zs:
                par = z3.Function('par:%s' % srt.name(), srt, zs[-1].sort())
                uni = [u for u in uni if z3.is_true(self.ev(par(u) == zs[-1]))]
            rk = L.rank(srt)
            uni = sorted(uni, key=lambda u: self.ev(rk(u)).as_long())
            return [self.value(sch.elem, epath, ints + (u,)) for u in uni[:self.limit]]
        n = sch.fixed or min(I.maxlen, sch.maxlen or I.maxlen)
        out = []
        for k in range(n):
            if not sch.fixed and k >= sch.minlen:
                c, _ = I.uf('len>%d' % k, path, args, z3.BoolSort())
                if not z3.is_true(self.ev(c)):
                    break
            out.append(self.value(sch.elem, epath, args + (k,)))
        return out

    def inputs(self, c):
        return {nm: self.value(sch, nm, ()) for nm, sch in c.inputs.items()}


# ------------------------------------------------------------ random generation
def has_unique(sch):
    return isinstance(sch, S.Dict) and any(isinstance(f.schema, S.Str) and f.schema.unique for f in sch.fields.values())


class Gen:
    NUMS = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -0.25, 10.0, 0.1, 4.0, -5.0, 100.0, 1e-3, 7.5]
    ODD = [1e-12, -1e-12, 1e-8, 1e-5, -1e-5, 1e9, 4321.0, 0.99999, 1e-16]
    STRS = ['a', 'b', 'c', 'GLO', 'RoW', 'kg', 'A', 'zz']

    def __init__(self, rng, strings=()):
        self.rng = rng
        self.strings = list(strings)
        self.few = None
        self.serial = 0
        self.reset()

    def reset(self):
        r = self.rng
        k = r.choice([1, 2, 2, 3])
        base = self.STRS[:3] + ([r.choice(self.strings)] if self.strings else [])
        self.few = [r.choice(base) for _ in range(k)]
        self.wild = r.random()
        self.odd = r.random() < 0.08
        self.zeros = r.random() < 0.15
        self.optp = r.choice([0.1, 0.5, 0.5, 0.9])
        self.maxlen = r.choice([1, 2, 2, 3, 4])

    def num(self, s):
        r = self.rng
        if isinstance(s.pool, (list, tuple)):
            return r.choice(s.pool)
        for _ in range(40):
            if self.zeros and r.random() < 0.3:
                v = 0.0
            elif self.odd and r.random() < 0.3:
                v = r.choice(self.ODD)
            elif r.random() < 0.6:
                v = r.choice(self.NUMS)
            else:
                v = round(r.uniform(-10, 10), 3)
            if s.isint:
                v = int(v)
            if s.pool == 'pos':
                v = abs(v) or 1
            elif s.pool == 'nonneg':
                v = abs(v)
            elif s.pool == 'nonzero':
                v = v or 1
            if s.axiom is not None and s.pool is None:
                if not z3.is_true(z3.simplify(s.axiom(z3.RealVal(repr(v))))):
                    continue
            return v
        return 1.0

    def string(self, s):
        r = self.rng
        if s.unique:
            self.serial += 1
            return 'id%d' % self.serial
        if s.choices:
            return r.choice(s.choices)
        if s.pool:
            if r.random() < 0.85:
                v = r.choice(s.pool)
                return self.twist(v) if r.random() < 0.06 else v
        x = r.random()
        if x < 0.75:
            v = r.choice(self.few)
        elif x < 0.9:
            v = r.choice(self.STRS)
        else:
            v = r.choice(self.strings) if self.strings else r.choice(self.STRS)
        if s.nonempty and not v:
            v = 'a'
        return self.twist(v) if r.random() < 0.03 else v

    def twist(self, v):
        """A string much like another."""
        if not v:
            return v
        return self.rng.choice([v + ' x', 'x ' + v, v.upper(), v.lower(), v.capitalize(), v + ' '])

    def value(self, s):
        r = self.rng
        if isinstance(s, S.Opt):
            return None if r.random() < 0.3 else self.value(s.inner)
        if isinstance(s, S.OneOf):
            return self.value(r.choice(s.alts))
        if isinstance(s, S.Const):
            return copy.deepcopy(s.value)
        if isinstance(s, S.Num):
            return self.num(s)
        if isinstance(s, S.Str):
            return self.string(s)
        if isinstance(s, S.Bool):
            return r.random() < 0.5
        if isinstance(s, S.Opaque):
            return s.gen(r) if s.gen else 'opaque%d' % r.randrange(3)
        if isinstance(s, S.Dict):
            return {k: self.value(f.schema) for k, f in s.fields.items()
                    if not f.optional or r.random() < self.optp}
        if isinstance(s, S.List):
            n = s.fixed if s.fixed is not None else r.randint(s.minlen, max(s.minlen, min(s.maxlen or 9, self.maxlen)))
            out = [self.value(s.elem) for _ in range(n)]
            if len(out) > 1 and r.random() < 0.1 and not has_unique(s.elem):
                out[r.randrange(len(out))] = copy.deepcopy(r.choice(out))
            return out
        raise ValueError(s)


def run_concrete(c, inputs):
    """-> ('skip'|'ok'|'fail', [failed names], V)"""
    V = ConV()
    ins = copy.deepcopy(inputs)
    try:
        c.fn(V, **ins)
    except Skip:
        return 'skip', [], V
    except Missing:
        return 'skip', [], V
    except Exception as e:
        if V.failed:
            return 'fail', V.failed, V
        if V.calls:
            # what the code returned or left behind is not even of the form the contract speaks about
            V.trace.append('%s: %s' % (type(e).__name__, str(e)[:300]))
            return 'fail', ['the result has the form which the contract describes'], V
        return 'error', ['%s: %s' % (type(e).__name__, e)], V
    return ('fail' if V.failed else 'ok'), V.failed, V


def accept(c, inputs):
    """Do numeric axioms of the schema hold for an input?  (solver models respect
    them, random inputs are drawn accordingly)"""
    return True


def search(c, seed, tries, seconds, strings=(), stop=True, progress=None):
    """Look for an input on which the contract fails."""
    rng = random.Random(seed)
    g = Gen(rng, strings)
    t0 = time.time()
    tried = ok = 0
    errors = {}
    for i in range(tries):
        if time.time() - t0 > seconds:
            break
        g.reset()
        ins = {nm: g.value(s) for nm, s in c.inputs.items()}
        if c.shape is not None and rng.random() < 0.85:
            ins = c.shape(rng, ins, g)
            if ins is None:
                continue
        tried += 1
        st, failed, V = run_concrete(c, ins)
        if st == 'ok':
            ok += 1
        elif st == 'error':
            errors[failed[0][:200]] = errors.get(failed[0][:200], 0) + 1
        elif st == 'fail':
            return {'inputs': ins, 'failed': failed, 'tried': tried, 'satisfied': ok, 'errors': errors, 'trace': V.trace[:5]}
    return {'inputs': None, 'tried': tried, 'satisfied': ok, 'errors': errors}


def minimise(c, ins, failed, seconds=5):
    """Greedy removal of list elements and optional keys."""
    t0 = time.time()

    def fails(x):
        st, f, _ = run_concrete(c, x)
        return st == 'fail' and set(f) & set(failed)

    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for path, kind, key, sch in list(sites(c, ins)):
            if time.time() - t0 > seconds:
                break
            cand = copy.deepcopy(ins)
            obj = cand
            try:
                for p in path:
                    obj = obj[p]
                del obj[key]
            except (KeyError, IndexError, TypeError):
                continue
            try:
                if fails(cand):
                    ins = cand
                    changed = True
                    break
            except Exception:
                continue
    return ins


def sites(c, ins):
    def rec(sch, v, path):
        if isinstance(sch, S.Opt):
            sch = sch.inner
        if v is None or isinstance(sch, S.OneOf):
            return
        if isinstance(sch, S.Dict) and isinstance(v, dict):
            for k, f in sch.fields.items():
                if k in v:
                    if f.optional:
                        yield path, 'key', k, f
                    yield from rec(f.schema, v[k], path + [k])
        elif isinstance(sch, S.List) and isinstance(v, list):
            for i in range(len(v)):
                if len(v) > sch.minlen and not sch.fixed:
                    yield path, 'item', i, sch
            for i, x in enumerate(v):
                yield from rec(sch.elem, x, path + [i])
    for nm, sch in c.inputs.items():
        yield from rec(sch, ins[nm], [nm])


def from_models(res, c):
    """Try the solver's counterexamples on the real code."""
    for o in res.obligations.values():
        for m, pc in o.models:
            try:
                ins = Concretiser(res.interp, m).inputs(c)
            except (Unsupported, z3.Z3Exception, KeyError, AttributeError, ValueError, OverflowError):
                continue
            try:
                st, failed, V = run_concrete(c, ins)
            except Exception:
                continue
            if st == 'fail':
                return {'inputs': ins, 'failed': failed, 'source': 'solver model', 'trace': V.trace[:5]}
    return None


# --------------------------------------------------------------- ghost functions
def abstract(name, fn, sort='num', axiom=None, arity=1, pure=True):
    """An uninterpreted function of opaque values.  Concretely it is ``fn``; the
    verifier knows nothing about it but ``axiom``."""
    def ghost(*args):
        return fn(*args)

    def model_(I, *args):
        args = [I.force(a) for a in args]
        if pure and I.all_concrete(args):
            return fn(*args)
        es = []
        for a in args:
            if isinstance(a, SOpq):
                es.append(a.e)
            elif isinstance(a, SNum):
                es.append(a.e)
            elif isinstance(a, (str, SStr)):
                es.append(I.str(a))
            else:
                return I.call(fn, args, {})
        srt = {'num': z3.RealSort(), 'bool': z3.BoolSort(), 'str': I.L.Str, 'opq': I.L.Val}[sort]
        f = z3.Function('ghost:' + name, *([e.sort() for e in es] + [srt]))
        t = f(*es)
        if axiom is not None:
            I.assume(axiom(t))
        return {'num': SNum, 'bool': SBool, 'str': SStr, 'opq': SOpq}[sort](t)
    M.REG[id(ghost)] = model_
    M._KEEP.append(ghost)
    return ghost


def spelled(sep, *numbers):
    """Integers written in decimal, joined by ``sep``."""
    return sep.join(str(int(n)) for n in numbers)


def _spelled(I, sep, *numbers):
    from .ints import Spelled
    return Spelled(sep, [I.force(n) for n in numbers])


M.REG[id(spelled)] = _spelled
