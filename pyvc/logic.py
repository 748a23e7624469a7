# -*- coding: utf-8 -*-
"""Logic layer of pyvc: terms, defined predicates (bounded quantifiers, sums,
counts, first witnesses) and their discharge by z3.

All verification conditions are quantifier free over uninterpreted index sorts.
Quantified sub-formulas appear only as *defined symbols*; their defining axioms
are instantiated over the ground terms of each query (``Logic.ground``).  An
``unsat`` answer is therefore a proof: only valid instances were added.
"""
import sys
import time
import itertools
from fractions import Fraction

import z3


class _LIB:
    """The solver's own term accessors, without the per-call error check."""


for _n in ('Z3_get_ast_id', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_app_decl', 'Z3_get_decl_kind'):
    setattr(_LIB, _n, staticmethod(getattr(z3.z3core, _n).__defaults__[0].f))


class SolverStats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.cvc5_checked = 0
        self.cvc5_agree = 0


def T():
    return z3.BoolVal(True)


def is_true(e):
    return e is True or (isinstance(e, z3.ExprRef) and z3.is_true(e))


def is_false(e):
    return e is False or (isinstance(e, z3.ExprRef) and z3.is_false(e))


def to_bool(e):
    if e is True or e is False:
        return z3.BoolVal(e)
    return e


def And(*xs):
    flat = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            flat.extend(x)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if is_true(x):
            continue
        if is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    flat = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            flat.extend(x)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if is_false(x):
            continue
        if is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if is_true(x):
        return z3.BoolVal(False)
    if is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def real(v):
    """Exact-decimal z3 real for a python number."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        fr = Fraction(repr(v))
    else:
        fr = Fraction(v)
    return z3.RealVal(str(fr.numerator)) if fr.denominator == 1 else \
        z3.Q(fr.numerator, fr.denominator)


class Counter:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n - 1


class Def:
    """A defined symbol family (an exists-predicate with witnesses, or a sum)."""
    __slots__ = ('kind', 'k', 'params', 'x', 'guard', 'body', 'ex', 'w', 'wl',
                 'S', 'ordf', 'w2', 'gdef', 'pari')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Logic:
    MAXDEPTH = 5

    def __init__(self, timeout_ms=4000):
        self.timeout_ms = timeout_ms
        self.Str = z3.DeclareSort('Str')
        self.Val = z3.DeclareSort('Val')
        self.sorts = {}
        self.parents = {}
        self.binders = set()          # names of binder constants
        self.counter = Counter()      # rewound by explore(): names are reused on sibling paths
        self.serial = Counter()       # never rewound: symbols with a global definition
        self._exapps, self._parents = {}, {}
        self.scan_as = {}             # formula -> what to look for terms in
        self.defs = {}                # canonical key -> Def
        self.by_symbol = {}           # decl name -> Def
        self.strings = {}             # python str -> const
        self.str_of = {}              # const name -> python str
        self.opq = {}
        self.defs_mac = {}
        self._exsig = {}
        self._haspar = {}
        self._sk_orphan = set()
        self.ranks = {}
        self.field_axioms = {}        # decl name -> [(fn args -> formula)]
        self.order_axioms = {}        # sorted-rank name -> (key fn, reverse)
        self.stats = SolverStats()
        self.cache = {}
        self._keep = []
        self._appcache = {}
        self._depths = {}
        self._inst = {}
        self._consts = {}
        self._sk = {}
        self.cross = None             # optional second solver
        self.goal_log = []            # (smt2, result) of proof queries kept for cross-checking
        self.log_goals = False
        self.deadline = None
        self.truncated = False

    # ---------------------------------------------------------------- terms
    def unique(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.serial)), sort)

    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    def binder(self, name, sort):
        c = self.fresh(name, sort)
        self.binders.add(c.decl().name())
        return c

    def sort(self, name):
        if name not in self.sorts:
            self.sorts[name] = z3.DeclareSort(name)
        return self.sorts[name]

    def string(self, s):
        if s not in self.strings:
            c = z3.Const('s:%d:%s' % (len(self.strings), ''.join(ch if ch.isalnum() else '_' for ch in s)[:24]), self.Str)
            self.strings[s] = c
            self.str_of[c.decl().name()] = s
        return self.strings[s]

    def rank(self, sort):
        n = sort.name()
        if n not in self.ranks:
            self.ranks[n] = z3.Function('rank:' + n, sort, z3.IntSort())
        return self.ranks[n]

    def free_consts(self, e, acc=None, seen=None):
        """Binder constants of ``e`` in depth-first order."""
        if acc is None and seen is None:
            r = self._consts.get(e.get_id())
            if r is None:
                r = self._consts[e.get_id()] = (e, tuple(self.free_consts(e, [], set())))
            return list(r[1])
        acc = [] if acc is None else acc
        seen = set() if seen is None else seen
        lib, ctx = _LIB, e.ctx.ref()
        getid, nargs, getarg = lib.Z3_get_ast_id, lib.Z3_get_app_num_args, lib.Z3_get_app_arg
        stack = [e.as_ast()]
        while stack:
            a = stack.pop()
            i = getid(ctx, a)
            if i in seen:
                continue
            seen.add(i)
            n = nargs(ctx, a)
            if n == 0:
                t = z3.z3._to_expr_ref(a, e.ctx)
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.binders:
                    acc.append(t)
            else:
                for k in range(n - 1, -1, -1):
                    stack.append(getarg(ctx, a, k))
        return acc

    def contains(self, e, const):
        lib, ctx = _LIB, e.ctx.ref()
        getid, nargs, getarg = lib.Z3_get_ast_id, lib.Z3_get_app_num_args, lib.Z3_get_app_arg
        ci = const.get_id()
        seen = set()
        stack = [e.as_ast()]
        while stack:
            a = stack.pop()
            i = getid(ctx, a)
            if i == ci:
                return True
            if i in seen:
                continue
            seen.add(i)
            for k in range(nargs(ctx, a)):
                stack.append(getarg(ctx, a, k))
        return False

    def contains_any(self, e, names):
        return any(n in names for _, _, n, _ in self._apps(e))

    # ---------------------------------------------------- defined predicates
    def _canon(self, x, *exprs):
        """Exprs with ``x`` and their maximal x-free subterms abstracted."""
        cx = z3.Const('cx:' + x.sort().name(), x.sort())
        terms, cps, index, memo = [], [], {}, {}

        def go(e):
            i = e.get_id()
            if i in memo:
                return memo[i][1]
            if e.eq(x):
                r = cx
            elif not self.contains(e, x):
                if all(n in self.str_of for _, _, n, _ in self._apps(e)):
                    r = e
                elif i in index:
                    r = index[i]
                else:
                    n = 'cp%d:%s' % (len(cps), e.sort().name())
                    self.binders.add(n)
                    r = index[i] = z3.Const(n, e.sort())
                    terms.append(e)
                    cps.append(r)
            else:
                r = e.decl()(*[go(c) for c in e.children()])
            memo[i] = (e, r)
            return r
        canon = [z3.simplify(go(z3.simplify(e))) for e in exprs]
        return terms, cps, cx, canon

    def order(self, sort, ordf=None):
        return self.rank(sort) if ordf is None else ordf

    def exists_def(self, x, phi, ordf=None):
        phi = to_bool(phi)
        params, cps, cx, (cphi,) = self._canon(x, phi)
        ordf = self.order(x.sort(), ordf)
        key = ('ex', cphi.get_id(), tuple(p.sort().name() for p in cps), ordf.name())
        d = self.defs.get(key)
        if d is None:
            d = self._equal_exists(cps, cx, cphi, ordf)
            if d is not None:
                self.defs[key] = d
                self._keep.append(cphi)
        if d is None:
            k = len(self.defs)
            srts = [p.sort() for p in cps]
            d = Def(kind='exists', k=k, params=cps, x=cx, guard=cphi, ordf=ordf,
                    ex=z3.Function('ex:%d' % k, *srts, z3.BoolSort()) if srts else z3.Bool('ex:%d' % k),
                    w=z3.Function('w:%d' % k, *srts, x.sort()) if srts else z3.Const('w:%d' % k, x.sort()),
                    wl=z3.Function('wl:%d' % k, *srts, x.sort()) if srts else z3.Const('wl:%d' % k, x.sort()),
                    w2=z3.Function('w2:%d' % k, *srts, x.sort()) if srts else z3.Const('w2:%d' % k, x.sort()))
            self.defs[key] = d
            self._exsig.setdefault((cx.get_id(), tuple(p.get_id() for p in cps), ordf.name()), []).append(
                (d, {t[2] for t in self._apps(cphi)}))
            d.pari = {}
            for c in (cphi.children() if z3.is_and(cphi) else [cphi]):
                if z3.is_eq(c):
                    for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        for i, q in enumerate(cps):
                            if q.eq(r) and i not in d.pari and not any(self.contains(l, q2) for q2 in cps):
                                d.pari[i] = l
            self._keep.append(cphi)
            for s in ('ex:%d', 'w:%d', 'wl:%d', 'w2:%d'):
                self.by_symbol[s % k] = d
        return d, params

    def _equal_exists(self, cps, cx, cphi, ordf):
        """An existing definition with an equivalent condition."""
        sig = (cx.get_id(), tuple(p.get_id() for p in cps), ordf.name())
        pool = self._exsig.setdefault(sig, [])
        syms = {t[2] for t in self._apps(cphi)}
        for d, dsyms in pool:
            if not (syms <= dsyms or dsyms <= syms):
                continue
            s = z3.Solver()
            s.set('timeout', 200)
            s.add(d.guard != cphi)
            cs = [self.strings[self.str_of[n]] for n in syms | dsyms if n in self.str_of]
            if len(cs) > 1:
                s.add(z3.Distinct(*cs))
            if str(s.check()) == 'unsat':
                return d
        return None

    def determined(self, d, t):
        k = (d.k, t.get_id())
        r = self._parents.get(k)
        if r is None:
            r = self._parents[k] = (t, [(i, z3.substitute(l, (d.x, t))) for i, l in d.pari.items()])
        return r[1]

    def ex_app(self, d, args):
        deep = any(self.depth(x) > self.MAXDEPTH for x in args)
        return (list(zip(d.params, args)), tuple(x.get_id() for x in args), args, deep) + tuple(
            self.app(f, args) for f in (d.ex, d.w, d.wl, d.w2))

    def _up(self, d, args, p, t):
        args2 = list(args)
        for i, q in p:
            args2[i] = q
        self._keep.extend(args2)
        pre = list(zip(d.params, args2))
        return pre, args2, z3.simplify(z3.substitute(d.guard, *pre, (d.x, t)))

    def a2(self, d, args, p, t):
        pre, args2, g = self._up(d, args, p, t)
        f = z3.Implies(g, And(self.app(d.ex, args2), d.ordf(self.app(d.w, args2)) <= d.ordf(t)))
        self.scan_as[f.get_id()] = (f, g)
        return f

    def a22(self, d, args, p, t):
        pre, args2, g = self._up(d, args, p, t)
        w, w2 = self.app(d.w, args2), self.app(d.w2, args2)
        f = z3.Implies(And(g, t != w), And(z3.substitute(d.guard, *pre, (d.x, w2)), w2 != w))
        self.scan_as[f.get_id()] = (f, z3.BoolVal(True))
        return f

    def a2l(self, d, args, p, t):
        pre, args2, g = self._up(d, args, p, t)
        f = z3.Implies(g, d.ordf(t) <= d.ordf(self.app(d.wl, args2)))
        self.scan_as[f.get_id()] = (f, z3.BoolVal(True))
        return f

    def macro(self, formula, tag='mac'):
        """A predicate symbol defined by the formula (unfolded when grounding)."""
        formula = to_bool(formula)
        ps = self.free_consts(formula)
        sub, cps = [], []
        for i, p in enumerate(ps):
            n = 'cp%d:%s' % (i, p.sort().name())
            self.binders.add(n)
            cps.append(z3.Const(n, p.sort()))
            sub.append((p, cps[-1]))
        canon = z3.substitute(formula, *sub) if sub else formula
        key = (tag, canon.get_id(), tuple(p.sort().name() for p in ps))
        f = self.defs_mac.get(key)
        if f is None:
            name = '%s:%d' % (tag, len(self.defs_mac))
            srts = [p.sort() for p in ps]
            f = self.defs_mac[key] = (z3.Function(name, *srts, z3.BoolSort()) if srts else z3.Bool(name), canon)
            self.define(f[0] if srts else f[0].decl(), cps, canon)
        return self.app(f[0], ps)

    def define(self, decl, params, body):
        self.field_axioms.setdefault(decl.name(), []).append(
            lambda *a: decl(*a) == (z3.substitute(body, *zip(params, a)) if a else body))

    @staticmethod
    def app(f, params):
        return f(*params) if params else f

    def exists(self, x, phi, ordf=None):
        """(z3 Bool 'some x satisfies phi', first witness, last witness)."""
        phi = to_bool(phi)
        if is_false(phi):
            return z3.BoolVal(False), None, None
        d, ps = self.exists_def(x, phi, ordf)
        if is_false(d.guard):
            return z3.BoolVal(False), None, None
        return self.app(d.ex, ps), self.app(d.w, ps), self.app(d.wl, ps)

    # ------------------------------------------------------------------ sums
    def lift_ite(self, e, limit=64):
        """e -> list of (guard, ite-free numeric expr)."""
        out = []

        def find_ite(t):
            stack = [t]
            seen = set()
            while stack:
                u = stack.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_app_of(u, z3.Z3_OP_ITE) and u.sort() == z3.RealSort():
                    if find_ite_strict(u.children()[1:]) is None:
                        return u
                if u.sort() == z3.BoolSort():
                    continue
                stack.extend(u.children())
            return None

        def find_ite_strict(ts):
            for t in ts:
                r = find_ite(t)
                if r is not None:
                    return r
            return None

        work = [(z3.BoolVal(True), e)]
        while work:
            g, t = work.pop()
            ite = find_ite(t)
            if ite is None or len(out) + len(work) > limit:
                out.append((g, t))
                continue
            c = ite.arg(0)
            work.append((And(g, c), z3.simplify(z3.substitute(t, (ite, ite.arg(1))))))
            work.append((And(g, Not(c)), z3.simplify(z3.substitute(t, (ite, ite.arg(2))))))
        return out

    def monomials(self, e):
        """Expand a numeric expression into [(coef-product list)] monomials: a
        list of lists of factors (sum of products)."""
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            return [m for c in e.children() for m in self.monomials(c)]
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            out = self.monomials(ch[0])
            for c in ch[1:]:
                out += [[z3.RealVal(-1)] + m for m in self.monomials(c)]
            return out
        if k == z3.Z3_OP_UMINUS:
            return [[z3.RealVal(-1)] + m for m in self.monomials(e.arg(0))]
        if k == z3.Z3_OP_MUL:
            parts = [self.monomials(c) for c in e.children()]
            out = [[]]
            for p in parts:
                out = [a + b for a in out for b in p]
                if len(out) > 64:
                    return [[e]]
            return out
        if k == z3.Z3_OP_DIV:
            num = self.monomials(e.arg(0))
            den = z3.RealVal(1) / e.arg(1)
            return [m + [den] for m in num]
        return [[e]]

    def sum(self, x, guard, body):
        """Sum over x (all elements of its sort satisfying guard) of body."""
        guard = to_bool(guard)
        total = []
        for gg, piece in self._merge_pieces(
                [(z3.simplify(And(guard, g)), p) for g, p in self.lift_ite(z3.simplify(body))]):
            for mono in self.monomials(piece):
                coef, dep = [], []
                zero = False
                for f in mono:
                    if z3.is_rational_value(f) and f.numerator_as_long() == 0:
                        zero = True
                    (dep if self.contains(f, x) else coef).append(f)
                if zero:
                    continue
                d = z3.RealVal(1)
                for f in dep:
                    d = f if z3.is_rational_value(d) and d.numerator_as_long() == 1 and d.denominator_as_long() == 1 else d * f
                t = self._flat_sum(x, gg, dep)
                if t is None:
                    t = self._sum_atom(x, gg, d)
                for f in coef:
                    t = f * t
                total.append(t)
        if not total:
            return z3.RealVal(0)
        r = total[0]
        for t in total[1:]:
            r = r + t
        return z3.simplify(r)

    def equal_under(self, g, v, w):
        if v.eq(w):
            return True
        if z3.is_rational_value(v) and z3.is_rational_value(w):
            return False
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(to_bool(g), v != w)
        return s.check() == z3.unsat

    def _merge_pieces(self, pieces):
        """Join cases whose value is that of another case anyway."""
        pieces = [p for p in pieces if not is_false(p[0])]
        if not 2 <= len(pieces) <= 8:
            return pieces
        i = 0
        while i < len(pieces):
            g, v = pieces[i]
            for j, (h, w) in enumerate(pieces):
                if j == i or z3.is_rational_value(v):
                    continue
                if self.equal_under(g, v, w):
                    pieces[j] = (z3.simplify(z3.Or(g, h)), w)
                    del pieces[i]
                    break
            else:
                i += 1
        return pieces

    def _flat_sum(self, x, guard, factors):
        """sum(c(x) * sum(b(y, x) for y if par(y) == x and h) for x if g)
        == sum(c(par(y)) * b(y, par(y)) for y if g(par(y)) and h), or None."""
        inner = [f for f in factors if z3.is_app(f) and f.decl().name().startswith('S:')]
        if len(inner) != 1:
            return None
        a = inner[0]
        d = self.by_symbol[a.decl().name()]
        i = next((i for i, t in enumerate(a.children()) if t.eq(x)), None)
        if i is None:
            return None
        for c in (d.guard.children() if z3.is_and(d.guard) else [d.guard]):
            if not z3.is_eq(c):
                continue
            for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if r.eq(d.params[i]) and self.contains(l, d.x) and not any(self.contains(l, q) for q in d.params):
                    y = self.binder('y', d.x.sort())
                    ly = z3.substitute(l, (d.x, y))
                    pre = [(q, ly if t.eq(x) else z3.substitute(t, (x, ly))) for q, t in zip(d.params, a.children())]
                    g = And(z3.substitute(guard, (x, ly)), z3.substitute(d.guard, *pre, (d.x, y)))
                    b = z3.substitute(d.body, *pre, (d.x, y))
                    for f in factors:
                        if f is not a:
                            b = z3.substitute(f, (x, ly)) * b
                    return self.sum(y, z3.simplify(g), b)
        return None

    def _sum_atom(self, x, guard, body):
        g = z3.simplify(guard)
        if z3.is_and(g):
            out = [c for c in g.children() if not self.contains(c, x)]
            if out:     # conditions on other things
                return z3.If(And(out), self._sum_atom(x, And([c for c in g.children() if self.contains(c, x)]), body),
                             z3.RealVal(0))
        params, cps, cx, (cg, cb) = self._canon(x, guard, body)
        key = ('sum', cg.get_id(), cb.get_id(), tuple(p.sort().name() for p in cps))
        d = self.defs.get(key)
        if d is None:
            d = self._equal_sum(cps, cx, cg, cb)
            if d is not None:
                self.defs[key] = d
                self._keep.extend([cg, cb])
        if d is None:
            gd, gps = self.exists_def(cx, cg)   # shares the guard's witnesses
            k = len(self.defs)
            srts = [p.sort() for p in cps]
            d = Def(kind='sum', k=k, params=cps, x=cx, guard=cg, body=cb,
                    S=z3.Function('S:%d' % k, *srts, z3.RealSort()) if srts else z3.Real('S:%d' % k))
            self.defs[key] = d
            self._keep.extend([cg, cb])
            self.by_symbol['S:%d' % k] = d
        return self.app(d.S, params)

    def _equal_sum(self, cps, cx, cg, cb, limit=12):
        """An existing sum that provably has the same guard and summand."""
        pairs = None
        for d in [d for d in self.defs.values() if d.kind == 'sum'][-limit:]:
            if not d.x.eq(cx) or len(d.params) != len(cps) or not all(a.eq(b) for a, b in zip(d.params, cps)):
                continue
            if pairs is None:
                pairs = [(c, self.unique('eqs', c.sort())) for c in [cx] + list(cps)]
            sub = lambda e: z3.substitute(e, *pairs)
            same_body = d.body.eq(cb)
            if not same_body and not self.shared(d.body, cb):
                continue
            if self.check([sub(d.guard) != sub(cg)], timeout_ms=500)[0] != 'unsat':
                continue
            if same_body or self.check([sub(cg), sub(d.body) != sub(cb)], timeout_ms=500)[0] == 'unsat':
                return d
        return None

    def shared(self, a, b):
        fa = {t[2] for t in self._apps(a)}
        fb = {t[2] for t in self._apps(b)}
        return bool(fa & fb)

    # -------------------------------------------------------------- grounding
    def _apps(self, f):
        """Uninterpreted applications inside ``f`` (memoised; keeps them alive)."""
        i = f.get_id()
        r = self._appcache.get(i)
        if r is not None:
            return r[1]
        lib, ctx = _LIB, f.ctx.ref()
        out, seen, stack = [], set(), [f.as_ast()]
        getid, nargs, getarg, getdecl, dkind = (lib.Z3_get_ast_id, lib.Z3_get_app_num_args, lib.Z3_get_app_arg,
                                                lib.Z3_get_app_decl, lib.Z3_get_decl_kind)
        cache = self._appcache
        while stack:
            a = stack.pop()
            j = getid(ctx, a)
            if j in seen:
                continue
            seen.add(j)
            sub = cache.get(j)
            if sub is not None:
                out.extend(sub[1])
                continue
            if dkind(ctx, getdecl(ctx, a)) == z3.Z3_OP_UNINTERPRETED:
                t = z3.z3._to_expr_ref(a, f.ctx)
                s = t.sort()
                sn = None
                if s.kind() == z3.Z3_UNINTERPRETED_SORT and s.name() not in ('Str', 'Val'):
                    if self.depth(t) <= self.MAXDEPTH and not self._redundant(t):
                        sn = s.name()
                out.append((j, t, t.decl().name(), sn))
            for k in range(nargs(ctx, a)):
                stack.append(getarg(ctx, a, k))
        uniq = {}
        for x in out:
            uniq.setdefault(x[0], x)
        out = list(uniq.values())
        self._appcache[i] = (f, out)
        return out

    def has_parent(self, d):
        """Does the condition of d fix the parent of its elements?"""
        r = self._haspar.get(d.k)
        if r is None:
            r = False
            for c in (d.guard.children() if z3.is_and(d.guard) else [d.guard]):
                if z3.is_eq(c) and any(l.num_args() == 1 and l.decl().name().startswith('par:') and l.arg(0).eq(d.x)
                                       and not self.contains(r2, d.x) for l, r2 in (c.children(), c.children()[::-1])):
                    r = True
            self._haspar[d.k] = r
        return r

    def _redundant(self, t):
        """par(witness): equal to a term at hand whenever the witness is one, so
        it is no useful instance (and would start a matching loop)."""
        if t.num_args() == 1 and t.decl().name().startswith('par:'):
            n = t.arg(0).decl().name()
            if n.startswith(('w:', 'w2:', 'wl:')):
                return self.has_parent(self.by_symbol[n])
            return n.startswith('sk!') and n not in self._sk_orphan
        return t.decl().name().startswith('inv:')

    def _scan(self, fs, seen, syms, terms):
        for f in fs:
            i = ('f', f.get_id())
            if i in seen:
                continue
            seen[i] = f
            for j, t, n, sn in self._apps(f):
                if j in seen:
                    continue
                seen[j] = t
                syms.setdefault(n, {})[j] = t
                if sn is not None:
                    terms.setdefault(sn, {})[j] = t

    def depth(self, t):
        if t.num_args() == 0:
            return 0
        i = t.get_id()
        r = self._depths.get(i)
        if r is None:
            srt = t.sort()
            own = srt.kind() == z3.Z3_UNINTERPRETED_SORT and srt.name() not in ('Str', 'Val')
            r = self._depths[i] = (t, own + max(self.depth(c) for c in t.children()))
        return r[1]

    def sk(self, key, sort, *keep):
        if key not in self._sk:
            self._keep.extend(keep)     # ids in the key must stay alive
            self._sk[key] = z3.Const('sk!%d' % len(self._sk), sort)
            if not all(self.has_parent(self.by_symbol[a.decl().name()]) for a in keep):
                self._sk_orphan.add(self._sk[key].decl().name())
        return self._sk[key]

    def ground(self, formulas, rounds=6, cap=6000):
        formulas = [to_bool(f) for f in formulas]
        seen, syms, terms = {}, {}, {}
        out = list(formulas)
        done = set()
        new = formulas
        for r in range(rounds):
            self._scan([self.scan_as.get(f.get_id(), (f, f))[1] for f in new], seen, syms, terms)
            new = []

            def add(key, thunk):
                if key in done:
                    return
                done.add(key)
                f = self._inst.get(key)
                if f is None:
                    f = self._inst[key] = thunk()
                if is_true(f):
                    return
                new.append(f)

            sums = []
            for n in list(syms):
                d = self.by_symbol.get(n)
                apps = list(syms[n].values())
                if n.startswith('rank:') or n.startswith('srank:'):
                    for a in apps:      # injective
                        def inv(a=a, n=n):
                            f = z3.Function('unrank:' + n, z3.IntSort(), a.arg(0).sort())
                            return f(a) == a.arg(0)
                        add(('rk', a.get_id()), inv)
                    if n in self.order_axioms:
                        keyf, rev, base = self.order_axioms[n]
                        for a, b in itertools.permutations(apps, 2):
                            def th(a=a, b=b):
                                ka, kb = keyf(a.arg(0)), keyf(b.arg(0))
                                lt = (ka > kb) if rev else (ka < kb)
                                if base is None:
                                    return z3.Implies(lt, a < b)
                                return And(z3.Implies(lt, a < b),
                                           z3.Implies(And(ka == kb, base(a.arg(0)) < base(b.arg(0))), a < b))
                            add(('srk', n, a.get_id(), b.get_id()), th)
                    continue
                if n in self.field_axioms:
                    for a in apps:
                        if self.depth(a) > self.MAXDEPTH + 1:
                            continue
                        for j, fn in enumerate(self.field_axioms[n]):
                            add(('fa', n, j, a.get_id()), lambda a=a, fn=fn: to_bool(fn(*a.children())))
                if d is None:
                    continue
                if d.kind == 'exists':
                    sort = d.x.sort()
                    usesl = 'wl:%d' % d.k in syms
                    uses2 = 'w2:%d' % d.k in syms
                    for a in apps:
                        E = self._exapps.get(a.get_id())
                        if E is None:
                            args = a.children()
                            E = self._exapps[a.get_id()] = self.ex_app(d, args) + (a,)
                        pre, akey, args, deep, ex, w, wl, w2, _ = E
                        if deep:
                            continue
                        add(('a1', d.k, akey), lambda pre=pre, ex=ex, w=w, d=d: z3.Implies(ex, z3.substitute(d.guard, *pre, (d.x, w))))
                        if usesl:
                            add(('a1l', d.k, akey), lambda pre=pre, ex=ex, wl=wl, d=d:
                                z3.Implies(ex, z3.substitute(d.guard, *pre, (d.x, wl))))
                        wi, w2i, wli = w.get_id(), w2.get_id(), wl.get_id()
                        for ti, t in list(terms.get(sort.name(), {}).items()):
                            if d.pari:
                                # only for the arguments t determines: others follow by congruence
                                p = self.determined(d, t)
                                ak2 = list(akey)
                                for i, q in p:
                                    ak2[i] = q.get_id()
                                ak2 = tuple(ak2)
                                if ak2 != akey:
                                    if ('a2', d.k, ak2, ti) not in done:
                                        add(('a2', d.k, ak2, ti), lambda: self.a2(d, args, p, t))
                                    if uses2 and ('a22', d.k, ak2, ti) not in done:
                                        add(('a22', d.k, ak2, ti), lambda: self.a22(d, args, p, t))
                                    if usesl and ('a2l', d.k, ak2, ti) not in done:
                                        add(('a2l', d.k, ak2, ti), lambda: self.a2l(d, args, p, t))
                                    continue

                            def a2(pre=pre, ex=ex, w=w, t=t):
                                g = z3.substitute(d.guard, *pre, (d.x, t))
                                if t.eq(w):
                                    return z3.Implies(g, ex)
                                return z3.Implies(g, And(ex, d.ordf(w) <= d.ordf(t)))
                            add(('a2', d.k, akey, ti), a2)
                            if usesl and ti != wli:
                                add(('a2l', d.k, akey, ti), lambda pre=pre, wl=wl, t=t:
                                    z3.Implies(z3.substitute(d.guard, *pre, (d.x, t)), d.ordf(t) <= d.ordf(wl)))
                            if uses2 and ti != wi and ti != w2i:
                                # w2 is a second element whenever there is one
                                add(('a22', d.k, akey, ti), lambda pre=pre, w=w, w2=w2, t=t:
                                    z3.Implies(And(z3.substitute(d.guard, *pre, (d.x, t)), t != w),
                                               And(z3.substitute(d.guard, *pre, (d.x, w2)), w2 != w)))
                elif d.kind == 'sum':
                    for a in apps:
                        sums.append((d, a))
            # ----- lemmas about sums
            for d, a in sums:
                args = a.children()
                if any(self.depth(x) > self.MAXDEPTH for x in args):
                    continue
                pre = list(zip(d.params, args))
                akey = (d.k,) + tuple(x.get_id() for x in args)
                gd, gps = self.exists_def(d.x, d.guard)
                # gd params are the canonical params used inside d.guard, in order
                gargs = [z3.substitute(p, *pre) if pre else p for p in gps]
                ex, w, w2 = (self.app(f, gargs) for f in (gd.ex, gd.w, gd.w2))

                def at(t, pre=pre, d=d):
                    return z3.If(z3.substitute(d.guard, *pre, (d.x, t)),
                                 z3.substitute(d.body, *pre, (d.x, t)), z3.RealVal(0))
                isc = z3.is_rational_value(d.body) and d.body.as_fraction() == 1
                s1 = s2 = None
                if not isc:
                    s1 = self.sk(('sneg',) + akey, d.x.sort(), a)
                    s2 = self.sk(('spos',) + akey, d.x.sort(), a)

                def base(a=a, ex=ex, w=w, w2=w2, at=at, s1=s1, s2=s2, isc=isc, pre=pre, d=d):
                    second = And(z3.substitute(d.guard, *pre, (d.x, w2)), w2 != w)
                    fs = [z3.Implies(Not(ex), a == 0),
                          z3.Implies(And(ex, Not(second)), a == at(w))]
                    if not isc:
                        fs += [Or(a >= 0, at(s1) < 0), Or(a <= 0, at(s2) > 0)]
                    if isc:
                        fs += [z3.Implies(ex, a >= 1), z3.Implies(second, a >= 2), a >= 0]
                    return And(*fs)
                add(('sum',) + akey, base)
                for ti, t in ([] if isc else list(terms.get(d.x.sort().name(), {}).items())):
                    if t.decl().name().startswith('sk!'):
                        continue
                    add(('sumel',) + akey + (ti,), lambda a=a, at=at, s1=s1, s2=s2, t=t:
                        And(Or(at(s1) < 0, a >= at(t)), Or(at(s2) > 0, a <= at(t))))
            if len(sums) <= 14:
                for (d1, a1), (d2, a2) in itertools.permutations(sums, 2):
                    if d1.x.sort() != d2.x.sort() or a1.eq(a2):
                        continue
                    key = ('sle', a1.get_id(), a2.get_id())

                    def le(d1=d1, a1=a1, d2=d2, a2=a2, key=key):
                        s = self.sk(key, d1.x.sort(), a1, a2)
                        return Or(a1 <= a2, self._sat(d1, a1, s) > self._sat(d2, a2, s))
                    add(key, le)
            if 2 <= len(sums) <= 4:
                for (d1, a1), (d2, a2) in itertools.permutations(sums, 2):
                    if d1.x.sort() != d2.x.sort() or a1.eq(a2):
                        continue
                    key = ('sle', a1.get_id(), a2.get_id())
                    for ti, t in list(terms.get(d1.x.sort().name(), {}).items()):
                        if t.decl().name().startswith('sk!'):
                            continue

                        def gap(d1=d1, a1=a1, d2=d2, a2=a2, key=key, t=t):
                            s = self.sk(key, d1.x.sort(), a1, a2)
                            return Or(a1 + self._sat(d2, a2, t) - self._sat(d1, a1, t) <= a2,
                                      self._sat(d1, a1, s) > self._sat(d2, a2, s))
                        add(('sgap', a1.get_id(), a2.get_id(), ti), gap)
            if 3 <= len(sums) <= 9:
                for (d1, a1), (d2, a2), (d3, a3) in itertools.permutations(sums, 3):
                    if a2.get_id() > a3.get_id() or len({d1.x.sort().name(), d2.x.sort().name(), d3.x.sort().name()}) > 1:
                        continue
                    if len({d1.body.get_id(), d2.body.get_id(), d3.body.get_id()}) > 1:
                        continue
                    key = ('s3', a1.get_id(), a2.get_id(), a3.get_id())

                    def tri(d1=d1, a1=a1, d2=d2, a2=a2, d3=d3, a3=a3, key=key):
                        s = self.sk(key, d1.x.sort(), a1, a2, a3)
                        return Or(a1 == a2 + a3, self._sat(d1, a1, s) != self._sat(d2, a2, s) + self._sat(d3, a3, s))
                    add(key, tri)
            out.extend(new)
            self.last_done, self.last_terms, self.last_syms = done, terms, syms
            self.truncated = bool(new) and len(out) > cap
            if not new or len(out) > cap:
                break
        # distinct strings
        cs = [self.strings[self.str_of[n]] for n in syms if n in self.str_of]
        if len(cs) > 1:
            out.append(z3.Distinct(*cs))
        out.extend(self.string_facts(syms))
        return out

    def _sat(self, d, a, t):
        pre = list(zip(d.params, a.children()))
        return z3.If(z3.substitute(d.guard, *pre, (d.x, t)),
                     z3.substitute(d.body, *pre, (d.x, t)), z3.RealVal(0))

    def string_facts(self, syms):
        """Evaluate uninterpreted string functions on constants."""
        out = []
        import pyvc.strings as S
        for n, apps in syms.items():
            if not n.startswith('str.'):
                continue
            for t in apps.values():
                f = S.fact(self, n, t)
                if f is not None:
                    out.append(f)
        return out

    # ---------------------------------------------------------------- solving
    def check(self, formulas, timeout_ms=None, want_model=False, tag=None):
        fs = [to_bool(f) for f in formulas]
        fs = [f for f in fs if not is_true(f)]
        if any(is_false(f) for f in fs):
            return ('unsat', None)
        key = (tuple(sorted({f.get_id() for f in fs})), timeout_ms)
        if not want_model and key in self.cache:
            return (self.cache[key], None)
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('time budget of this contract exhausted')
        t0 = time.time()
        tmo = timeout_ms or self.timeout_ms
        r, s, size = 'unknown', None, -1
        # instantiate little first: unsat then is final, sat only at the end
        for rounds in (((2, 3, 6) if tag or want_model else (2, 4))):
            if not tag and not want_model and rounds == 4 and size > 100:
                # path pruning only: not worth a large query
                g = self.ground(fs, rounds=3, cap=2500)
                if len(g) > 3000:
                    break
                tmo = min(tmo, 1500)
            else:
                g = self.ground(fs, rounds=rounds)
            if len(g) == size:
                break
            size = len(g)
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(*g)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = 'unknown'
            if r == 'unsat':
                break
        if r == 'sat' and tag and self.truncated and not want_model:
            # a goal that needs many instances
            g = self.ground(fs, rounds=4, cap=40000)
            s = z3.Solver()
            s.set('timeout', 10 * tmo)
            s.add(*g)
            r = str(s.check())
        if r == 'unknown' and tag:
            s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s2.set('timeout', tmo)
            s2.add(*g)
            try:
                r = str(s2.check())
                if r != 'unknown':
                    s = s2
            except z3.Z3Exception:
                r = 'unknown'
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == 'unknown':
            self.stats.unknown += 1
        if tag and self.log_goals:
            self.goal_log.append((tag, s.to_smt2(), r))
        self._keep.extend(fs)
        self.cache[key] = r
        m = None
        if want_model and r == 'sat':
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return (r, m)
