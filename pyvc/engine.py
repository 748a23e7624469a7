# -*- coding: utf-8 -*-
"""pyvc engine: symbolic values, families of heap objects, path exploration and
loop summarisation (inferred inductive invariants).

See /verif/DESIGN.md for the soundness argument.
"""
import itertools
import z3

from .logic import And, Or, Not, Ite, is_true, is_false, to_bool, real


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation)."""


class PyExc(Exception):
    """A python exception raised by the interpreted program."""
    def __init__(self, cls, args=(), obj=None):
        self.cls = cls
        self.pyargs = args
        self.obj = obj

    def __str__(self):
        return '%s%r' % (self.cls.__name__, tuple(self.pyargs))


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


class _Absent:
    def __repr__(self):
        return '<absent>'


ABSENT = _Absent()


class _Poison:
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return '<poison %s>' % self.why


class _Unspec:
    """A value a contract leaves unspecified."""
    def __repr__(self):
        return '<unspecified>'


UNSPEC = _Unspec()


# ------------------------------------------------------------------- values
class SNum:
    __slots__ = ('e', 'isint')

    def __init__(self, e, isint=False):
        self.e = e
        self.isint = isint

    def __repr__(self):
        return 'SNum(%s)' % self.e


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SBool(%s)' % self.e


class SStr:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SStr(%s)' % self.e


class SOpq:
    """Opaque value (uninterpreted)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SOpq(%s)' % self.e


class Ref:
    """Reference to heap object: family + index arguments."""
    __slots__ = ('fam', 'args')

    def __init__(self, fam, args=()):
        self.fam = fam
        self.args = tuple(args)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.fam.name, list(self.args))

    @property
    def kind(self):
        return self.fam.kind


class Family:
    """All objects allocated at one place, indexed by the binders in scope."""
    _ids = itertools.count()

    def __init__(self, name, kind, ctx=(), schema=None, origin='new', src=None,
                 thunk=None, cls=None):
        self.id = next(Family._ids)
        self.name = '%s#%d' % (name, self.id) if origin != 'base' else name
        self.kind = kind            # dict | list | map | set | gen | obj
        self.ctx = tuple(ctx)       # binder constants in scope at allocation
        self.schema = schema
        self.origin = origin        # new | base | copy
        self.src = src
        self.thunk = thunk
        self.cls = cls


# --------------------------------------------------------- list content trees
class Elem:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Elem(%r)' % (self.v,)


class Cond:
    __slots__ = ('c', 'kids')

    def __init__(self, c, kids):
        self.c = c
        self.kids = tuple(kids)

    def __repr__(self):
        return 'Cond(%s, %r)' % (self.c, self.kids)


class For:
    """for x in <elements of x's sort satisfying guard>, in `ordf` order."""
    __slots__ = ('x', 'guard', 'kids', 'ordf')

    def __init__(self, x, guard, kids, ordf=None):
        self.x = x
        self.guard = guard
        self.kids = tuple(kids)
        self.ordf = ordf

    def __repr__(self):
        return 'For(%s | %s: %r)' % (self.x, self.guard, self.kids)


class Update:
    __slots__ = ('kind', 'qvars', 'args', 'alts')

    def __init__(self, kind, qvars, args, alts):
        self.kind = kind        # set | append | add
        self.qvars = tuple(qvars)
        self.args = tuple(args)
        self.alts = tuple(alts)  # ((guard, value), ...)

    def __repr__(self):
        return 'U(%s %s %s %s)' % (self.kind, self.qvars, self.args, self.alts)


class Path:
    __slots__ = ('cond', 'kind', 'val', 'heap', 'vars', 'reads', 'appends', 'pc', 'frames')


class Frame:
    def __init__(self, func_name, globs, parent=None, vars=None):
        self.name = func_name
        self.globs = globs
        self.parent = parent
        self.vars = vars if vars is not None else {}
        self.node = None
        self.yields = None


class Engine:
    def __init__(self, logic, mode='U', maxlen=2, max_paths=3000):
        self.L = logic
        self.mode = mode          # 'U' unbounded lists, 'B' lists of at most maxlen
        self.maxlen = maxlen
        self.heap = {}
        self.pc = []
        self.ctx = []
        self.frames = []
        self.readlog = None
        self.lazylog = None
        self.ghosts = []
        self.mem_items = {}
        self.applog = None
        self.trails = []
        self.base_fams = {}
        self.max_paths = max_paths
        self.npaths = 0
        self.branches = 0
        self.functions = {}       # functions executed: qualname -> 'inlined' | 'contract'
        self.summaries = {}
        self.loops_summarised = 0
        self.obligations = []     # filled by the harness
        self.gentrees = {}
        self.bguard = {}          # binder name -> its domain guard
        self.famkeys = {}
        self.unspec_ok = False
        self.fam_by_id = {}

    # -------------------------------------------------------------- base data
    def base_family(self, path, kind, schema, cls=None):
        k = (path, kind)
        if k not in self.base_fams:
            self.base_fams[k] = Family(path, kind, schema=schema, origin='base', cls=cls)
        return self.base_fams[k]

    def uf(self, prefix, path, args, sort):
        ints = tuple(a for a in args if isinstance(a, int))
        zs = [a for a in args if not isinstance(a, int)]
        name = '%s:%s%s' % (prefix, path, list(ints) if ints else '')
        if zs:
            return z3.Function(name, *[a.sort() for a in zs], sort)(*zs), name
        return z3.Const(name, sort), name

    def base_alts(self, schema, path, args):
        """Alternatives [(cond, value)] of an input value of the given schema."""
        from . import schema as S
        L = self.L
        if isinstance(schema, S.Opt):
            c, _ = self.uf('none', path, args, z3.BoolSort())
            return [(c, None)] + self.base_alts(schema.inner, path, args)
        if isinstance(schema, S.OneOf):
            out = []
            for i, alt in enumerate(schema.alts[:-1]):
                c, _ = self.uf('alt%d' % i, path, args, z3.BoolSort())
                out.append((c, self.base_alts(alt, path + '|%d' % i, args)))
            out.append((z3.BoolVal(True), self.base_alts(schema.alts[-1], path + '|%d' % (len(schema.alts) - 1), args)))
            flat = []
            for c, alts in out:
                for c2, v in alts:
                    flat.append((And(c, c2), v))
            return flat
        return [(z3.BoolVal(True), self.base_value(schema, path, args))]

    def base_value(self, schema, path, args):
        from . import schema as S
        L = self.L
        if isinstance(schema, S.Const):
            return schema.value
        if isinstance(schema, S.Num):
            e, name = self.uf('v', path, args, z3.IntSort() if schema.integral else z3.RealSort())
            if schema.axiom and name not in L.field_axioms:
                f = e.decl()
                L.field_axioms[name] = [lambda *a: schema.axiom(f(*a) if a else f())]
            return SNum(z3.ToReal(e) if schema.integral else e, schema.isint)
        if isinstance(schema, S.Str):
            if schema.unique and args and isinstance(args[-1], int):
                return '%s-%s' % (path, '-'.join(map(str, args)))
            e, name = self.uf('v', path, args, L.Str)
            if schema.unique and args and name not in L.field_axioms:
                f, x = e.decl(), args[-1]
                pn = 'par:%s' % x.sort().name()
                parent = z3.Function(pn, x.sort(), L.sorts[L.parents[pn]]) if pn in L.parents else None
                dom = [L.Str] + ([parent.range()] if parent is not None else [])
                inv = z3.Function('inv:' + name, *dom, x.sort())
                L.field_axioms[name] = [lambda *a: inv(f(*a), *([parent(a[-1])] if parent is not None else [])) == a[-1]]
            elif schema.choices and name not in L.field_axioms:
                f = e.decl()
                L.field_axioms[name] = [lambda *a: Or([(f(*a) if a else f()) == L.string(c) for c in schema.choices])]
            elif schema.nonempty and name not in L.field_axioms:
                f = e.decl()
                L.field_axioms[name] = [lambda *a: (f(*a) if a else f()) != L.string('')]
            return SStr(e)
        if isinstance(schema, S.Bool):
            e, _ = self.uf('v', path, args, z3.BoolSort())
            return SBool(e)
        if isinstance(schema, S.Opaque):
            e, _ = self.uf('v', path, args, L.Val)
            return SOpq(e)
        if isinstance(schema, S.Dict):
            return Ref(self.base_family(path, 'dict', schema), args)
        if isinstance(schema, S.List):
            return Ref(self.base_family(path, 'list', schema), args)
        raise Unsupported('schema %r' % (schema,))

    def base_content(self, fam, args):
        """Content tree of an input list."""
        sch = fam.schema
        path = fam.name
        epath = path + '[]'
        if self.mode == 'U' and not sch.fixed:
            ints = tuple(a for a in args if isinstance(a, int))
            zs = [a for a in args if not isinstance(a, int)]
            srt = self.L.sort('%s%s' % (epath, list(ints) if ints else ''))
            x = self.L.binder('b', srt)
            guard = z3.BoolVal(True)
            if zs:
                par = z3.Function('par:%s' % srt.name(), srt, zs[-1].sort())
                self.L.parents['par:%s' % srt.name()] = zs[-1].sort().name()
                guard = par(x) == zs[-1]
            alts = self.base_alts(sch.elem, epath, ints + (x,))
            kids = self.alts_to_nodes(alts)
            return (For(x, guard, kids),)
        n = sch.fixed or min(self.maxlen, sch.maxlen or self.maxlen)
        out = []
        prev = z3.BoolVal(True)
        for k in range(n):
            alts = self.base_alts(sch.elem, epath, args + (k,))
            nodes = self.alts_to_nodes(alts)
            if sch.fixed or k < sch.minlen:
                out.extend(nodes)
            else:
                c, _ = self.uf('len>%d' % k, path, args, z3.BoolSort())
                prev = And(prev, c)
                out.append(Cond(prev, nodes))
        return tuple(out)

    def alts_to_nodes(self, alts):
        if len(alts) == 1 and is_true(alts[0][0]):
            return (Elem(alts[0][1]),)
        out = []
        neg = z3.BoolVal(True)
        for c, v in alts:
            out.append(Cond(And(neg, c), (Elem(v),)))
            neg = And(neg, Not(c))
        return tuple(out)

    # ------------------------------------------------------------ substitution
    def subst(self, v, pairs):
        if not pairs:
            return v
        t = type(v)
        if t is SNum:
            return SNum(z3.substitute(v.e, *pairs), v.isint)
        if t is SBool:
            return SBool(z3.substitute(v.e, *pairs))
        if t is SStr:
            return SStr(z3.substitute(v.e, *pairs))
        if t is SOpq:
            return SOpq(z3.substitute(v.e, *pairs))
        if t is Ref:
            return Ref(v.fam, [self.subst_arg(a, pairs) for a in v.args])
        if t is tuple:
            return tuple(self.subst(a, pairs) for a in v)
        if t is Elem:
            return Elem(self.subst(v.v, pairs))
        if t is Cond:
            return Cond(z3.substitute(to_bool(v.c), *pairs), [self.subst(k, pairs) for k in v.kids])
        if t is For:
            pp = [p for p in pairs if not p[0].eq(v.x)]
            if not pp:
                return v
            return For(v.x, z3.substitute(to_bool(v.guard), *pp), [self.subst(k, pp) for k in v.kids], v.ordf)
        if hasattr(v, 'pyvc_subst'):
            return v.pyvc_subst(self, pairs)
        if isinstance(v, z3.ExprRef):
            return z3.substitute(v, *pairs)
        return v

    @staticmethod
    def subst_arg(a, pairs):
        return a if isinstance(a, int) else z3.substitute(a, *pairs)

    # ------------------------------------------------------------------- heap
    def arg_eq(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return z3.BoolVal(isinstance(a, int) and isinstance(b, int) and a == b)
        if a.sort() != b.sort():
            return z3.BoolVal(False)
        if a.eq(b):
            return z3.BoolVal(True)
        return a == b

    def args_eq(self, xs, ys):
        if len(xs) != len(ys):
            return z3.BoolVal(False)
        return And([self.arg_eq(a, b) for a, b in zip(xs, ys)])

    def match(self, u, args):
        """-> (eqs, sub, unresolved qvars)"""
        sub = []
        bound = set()
        rest = []
        for p, a in zip(u.args, args):
            if not isinstance(p, int) and p.num_args() == 0:
                nm = p.decl().name()
                if nm not in bound and any(p.eq(q) for q in u.qvars):
                    if isinstance(a, int) or a.sort() != p.sort():
                        return z3.BoolVal(False), [], []
                    sub.append((p, a))
                    bound.add(nm)
                    continue
            rest.append((p, a))
        eqs = And([self.arg_eq(self.subst_arg(p, sub) if sub else p, a) for p, a in rest])
        unresolved = [q for q in u.qvars if q.decl().name() not in bound]
        return eqs, sub, unresolved

    def _rd_alts(self, heap, fam, key, args):
        """Alternatives in priority order: [(cond, value)], last cond True."""
        ups = heap.get((fam.id, key), ())
        out = []
        for i in range(len(ups) - 1, -1, -1):
            u = ups[i]
            eqs, sub, unres = self.match(u, args)
            if is_false(eqs):
                continue
            if u.kind == 'add':
                older = self._rd_alts({**heap, (fam.id, key): ups[:i]}, fam, key, args)
                s = z3.RealVal(0)
                m = z3.BoolVal(False)
                for g, v in u.alts:
                    g = to_bool(z3.substitute(to_bool(g), *sub) if sub else g)
                    v = self.subst(v, sub)
                    cond = And(eqs, g)
                    m1 = cond
                    t = z3.If(cond, self.num(v), z3.RealVal(0)) if not is_true(cond) else self.num(v)
                    for q in reversed(unres):
                        t = self.L.sum(q, z3.BoolVal(True), t)
                        m1 = self.L.exists(q, m1)[0]
                    s = s + t
                    m = Or(m, m1)
                res = []
                for c, v in older:
                    if v is ABSENT:
                        res.append((And(c, m), SNum(z3.simplify(s))))
                        res.append((c, ABSENT))
                    else:
                        res.append((c, SNum(z3.simplify(self.num(v) + s))))
                return out + res
            if u.kind != 'set':
                raise Unsupported('append to a non-list location')
            if unres:
                phi = And(eqs, Or([to_bool(g) for g, v in u.alts]))
                if sub:
                    phi = z3.substitute(phi, *sub)
                wsub = []
                for q in reversed(unres):
                    ex, w, wl = self.L.exists(q, phi)
                    if is_false(ex):
                        phi = ex
                        break
                    wsub = [(a, z3.substitute(b, (q, wl))) for a, b in wsub] + [(q, wl)]
                    phi = ex
                if is_false(phi):
                    continue
                full = phi
                for g, v in u.alts:
                    gg = to_bool(g)
                    gg = z3.substitute(z3.substitute(gg, *sub) if sub else gg, *wsub)
                    vv = self.subst(self.subst(v, sub), wsub)
                    out.append((And(full, gg), vv))
                continue
            stop = False
            for g, v in u.alts:
                c = And(eqs, z3.substitute(to_bool(g), *sub) if sub else to_bool(g))
                c = z3.simplify(c)
                if is_false(c):
                    continue
                out.append((c, self.subst(v, sub)))
                if is_true(c):
                    stop = True
                    break
            if stop:
                return out
        out.extend(self._base_alts_field(heap, fam, key, args))
        return out

    def _base_alts_field(self, heap, fam, key, args):
        if fam.origin == 'base' and fam.kind == 'dict':
            fld = fam.schema.fields.get(key)
            if fld is None:
                if key == '*rest*' and not fam.schema.extra:
                    from .models import const_opq
                    return [(z3.BoolVal(True), SOpq(const_opq(self, '*no other keys*')))]
                if key == '*rest*':
                    e, _ = self.uf('rest', fam.name, args, self.L.Val)
                    return [(z3.BoolVal(True), SOpq(e))]
                return [(z3.BoolVal(True), ABSENT)]
            path = '%s.%s' % (fam.name, key)
            alts = self.base_alts(fld.schema, path, args)
            if fld.optional:
                has, _ = self.uf('has', path, args, z3.BoolSort())
                return [(Not(has), ABSENT)] + alts
            return alts
        if fam.origin == 'copy':
            return self._copy_alts(fam, key, args)
        return [(z3.BoolVal(True), ABSENT)]

    # --- deep copies share the structure of a heap snapshot
    def _copy_alts(self, fam, key, args):
        space = fam.src['space']
        n = len(space['ctx'])
        src = fam.src['fam']
        sub = [(c, a) for c, a in zip(space['ctx'], args[:n]) if not isinstance(a, int) and not c.eq(a)]
        alts = self._rd_alts(space['heap'], src, key, args[n:])
        out = []
        for c, v in alts:
            c = z3.substitute(to_bool(c), *sub) if sub else to_bool(c)
            v = self.subst(v, sub)
            out.append((c, self._to_copy(space, v, args[:n])))
        return out

    def _to_copy(self, space, v, ctxargs):
        if isinstance(v, Ref):
            if v.fam.kind == 'gen' or v.fam.kind == 'obj':
                raise Unsupported('deepcopy of %s' % v.fam.kind)
            f = space['fams'].get(v.fam.id)
            if f is None:
                f = Family('copy(%s)' % v.fam.name.split('#')[0], v.fam.kind,
                           ctx=space['ctx'], schema=v.fam.schema, origin='copy',
                           src={'space': space, 'fam': v.fam})
                space['fams'][v.fam.id] = f
            return Ref(f, tuple(ctxargs) + v.args)
        if isinstance(v, tuple):
            return tuple(self._to_copy(space, a, ctxargs) for a in v)
        if isinstance(v, Elem):
            return Elem(self._to_copy(space, v.v, ctxargs))
        if isinstance(v, Cond):
            return Cond(v.c, [self._to_copy(space, k, ctxargs) for k in v.kids])
        if isinstance(v, For):
            return For(v.x, v.guard, [self._to_copy(space, k, ctxargs) for k in v.kids], v.ordf)
        return v

    def deepcopy(self, v):
        ctx = list(self.ctx)
        space = {'ctx': tuple(ctx), 'heap': self.heap, 'fams': {}}
        self._log_deep(v)
        return self._to_copy(space, v, tuple(ctx))

    def _log_deep(self, v):
        """A deep copy reads every location below v."""
        if self.readlog is not None and isinstance(v, Ref):
            self.readlog.append((v.fam, '*deep*', v.args, tuple(self.pc)))
        if self.lazylog is not None and isinstance(v, Ref):
            self.lazylog.append((v.fam, '*deep*', v.args, tuple(self.ctx)))

    def log_read(self, fam, key, args):
        if self.readlog is not None:
            self.readlog.append((fam, key, args, tuple(self.pc)))
        if self.lazylog is not None:
            self.lazylog.append((fam, key, args, tuple(self.ctx)))

    def field_alts(self, ref, key):
        self.log_read(ref.fam, key, ref.args)
        alts = []
        neg = z3.BoolVal(True)
        for c, v in self._rd_alts(self.heap, ref.fam, key, ref.args):
            alts.append((c, v))
        return alts

    def has(self, ref, key):
        """z3 Bool / python bool: key in dict."""
        alts = self.field_alts(ref, key)
        res = z3.BoolVal(False)
        for c, v in reversed(alts):
            res = Ite(c, z3.BoolVal(v is not ABSENT), res) if not is_true(c) else z3.BoolVal(v is not ABSENT)
        return z3.simplify(res)

    def getitem(self, ref, key):
        """Value of a present key; forks/raises KeyError as needed."""
        p = self.has(ref, key)
        if not self.branch(p):
            raise PyExc(KeyError, (key,))
        return self.value_of(ref, key)

    def value_of(self, ref, key):
        alts = [(c, v) for c, v in self.field_alts(ref, key)]
        # absent alternatives keep their priority: exclude them
        neg = z3.BoolVal(True)
        out = []
        for c, v in alts:
            cc = And(neg, c)
            neg = And(neg, Not(c))
            if v is ABSENT:
                continue
            out.append((z3.simplify(cc), v))
        return self.resolve(out)

    def resolve(self, alts):
        """Merge exclusive alternatives into one value, forking if necessary."""
        alts = [(c, v) for c, v in alts if not is_false(c)]
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            return alts[0][1]
        vals = [v for c, v in alts]
        m = self.merge_values(alts)
        if m is not None:
            return m[0]
        # group by mergeability: fork on each alternative
        for c, v in alts[:-1]:
            if self.branch(c):
                return v
        self.assume(alts[-1][0])
        return alts[-1][1]

    def merge_values(self, alts):
        """(value,) or None; alts exclusive, last one is the default."""
        vals = [v for _, v in alts]
        first = vals[0]
        if all(self.same(first, v) for v in vals[1:]):
            return (first,)
        if all(isinstance(v, (bool, SBool)) for v in vals):
            e = self.boo(vals[-1])
            for c, v in reversed(alts[:-1]):
                e = Ite(c, self.boo(v), e)
            return (SBool(e),)
        if all(self.is_num(v) for v in vals):
            e = self.num(vals[-1])
            for c, v in reversed(alts[:-1]):
                e = Ite(c, self.num(v), e)
            return (SNum(e, all(self.is_int(v) for v in vals)),)
        if all(isinstance(v, (str, SStr)) for v in vals):
            e = self.str(vals[-1])
            for c, v in reversed(alts[:-1]):
                e = Ite(c, self.str(v), e)
            return (SStr(e),)
        if all(isinstance(v, SOpq) for v in vals):
            e = vals[-1].e
            for c, v in reversed(alts[:-1]):
                e = Ite(c, v.e, e)
            return (SOpq(e),)
        return None

    def write(self, ref, key, value):
        k = (ref.fam.id, key)
        h = dict(self.heap)
        h[k] = h.get(k, ()) + (Update('set', (), ref.args, ((z3.BoolVal(True), value),)),)
        self.heap = h
        self.note_key(ref.fam, key)

    def note_key(self, fam, key):
        self.famkeys.setdefault(fam.id, {})[key] = True
        self.fam_by_id[fam.id] = fam

    def keys_of(self, fam):
        """Every key objects of this family may hold."""
        out = {}
        if fam.origin == 'base' and fam.schema is not None and fam.kind == 'dict':
            for k in fam.schema.fields:
                out[k] = True
        if fam.origin == 'copy':
            for k in self.keys_of(fam.src['fam']):
                out[k] = True
        for k in (self.famkeys or {}).get(fam.id, {}):
            out[k] = True
        out.pop('$c', None)
        out.pop('*rest*', None)
        return list(out)

    # ---------------------------------------------------------- list contents
    def new_ref(self, name, kind):
        fam = Family(name, kind, ctx=self.ctx)
        return Ref(fam, tuple(self.ctx))

    def new_list(self, nodes=(), kind='list', name='list'):
        r = self.new_ref(name, kind)
        if nodes:
            self.append_nodes(r, tuple(nodes))
        return r

    def append_nodes(self, ref, nodes):
        k = (ref.fam.id, '$c')
        h = dict(self.heap)
        ups = h.get(k, ())
        h[k] = ups + (Update('append', (), ref.args, ((z3.BoolVal(True), tuple(nodes)),)),)
        self.heap = h
        self.note_key(ref.fam, '$c')
        if self.applog is not None:
            self.applog.append((ref.fam, ref.args))

    def set_content(self, ref, nodes):
        k = (ref.fam.id, '$c')
        h = dict(self.heap)
        h[k] = h.get(k, ()) + (Update('set', (), ref.args, ((z3.BoolVal(True), tuple(nodes)),)),)
        self.heap = h
        self.note_key(ref.fam, '$c')

    # ------------------------------------------- collections grown in a loop
    def ghosts_of(self, ref):
        return [g for g in self.ghosts if g['fam'].id == ref.fam.id and is_true(to_bool(self.args_eq(g['args'], ref.args)))]

    def item_terms(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return [t for x in v for t in self.item_terms(x)]
        if isinstance(v, (str, SStr)):
            return [self.str(v)]
        if isinstance(v, SOpq):
            return [v.e]
        if self.is_num(v) and not isinstance(v, (bool, SBool)):
            return [self.num(v)]
        if hasattr(v, 'term'):
            return [v.term]
        raise Unsupported('membership of %r in a collection that grows in the loop' % (v,))

    def ghost_member(self, ref, ghosts, item):
        """item in ref, where earlier iterations of enclosing loops have added elements."""
        self.log_read(ref.fam, '$m', ref.args)
        terms = self.item_terms(item)
        key = (lambda v: v[0]) if ref.fam.kind == 'map' else (lambda v: v)
        now = self.tree_any(self._content(self.heap, ref.fam, ref.args),
                            lambda v: to_bool(self.M.eq(self, key(v), item)))
        parts = [now]
        for g in ghosts:
            args = list(g['ctx']) + [g['x']] + terms
            sig = tuple(t.sort().name() for t in terms)
            if sig not in g['syms']:
                g['syms'][sig] = (z3.Function('grown!%d' % next(self.L.serial), *[a.sort() for a in args], z3.BoolSort()), item)
            parts.append(g['syms'][sig][0](*args))
        m = self.L.macro(Or(parts), tag='member')
        self.mem_items[m.get_id()] = (m, ref.fam.id, terms)
        return m

    def define_ghost(self, g, node, normal, heap0, x):
        """What earlier iterations have added: per path, the values it adds under the
        conditions that tell it from other paths.  Literals whose complement occurs on
        no normal path hold in every normal iteration that gets there; 'w is not in it
        yet' makes no difference to the membership of w after adding w."""
        L = self.L
        k = (g['fam'].id, '$c')
        have = set()
        for p in normal:
            for c in p.cond:
                have.add(z3.simplify(to_bool(c)).get_id())
        g['conds'] = {}
        adds = []
        key = (lambda v: v[0]) if g['fam'].kind == 'map' else (lambda v: v)
        for p in normal:
            base = heap0.get(k, ())
            tail = [u for u in p.heap.get(k, ())[len(base):]]
            nodes = []
            for u in tail:
                if u.kind != 'append' or u.qvars:
                    raise Unsupported('collection is read and changed in the same loop')
                eqs = to_bool(self.args_eq(u.args, g['args']))
                if is_false(eqs):
                    continue
                if not is_true(eqs):
                    raise Unsupported('collection is read and changed in the same loop')
                for gd, ns in u.alts:
                    nodes.extend(ns if is_true(to_bool(gd)) else (Cond(gd, tuple(ns)),))
            lits = []
            for c in p.cond:
                c = z3.simplify(to_bool(c))
                comp = z3.simplify(Not(c))
                if comp.get_id() not in have:
                    continue
                a = c.arg(0) if z3.is_not(c) else None
                info = self.mem_items.get(a.get_id()) if a is not None else None
                if info is not None and info[1] == g['fam'].id and len(nodes) == 1 and isinstance(nodes[0], Elem):
                    w = self.item_terms(key(nodes[0].v))
                    if len(w) == len(info[2]) and all(s.eq(t) for s, t in zip(w, info[2])):
                        continue
                lits.append(c)
            g['conds'][id(p)] = lits
            if nodes:
                adds.append((And(lits), nodes))
        for sig, (fn, item) in g['syms'].items():
            n0 = len(g['ctx']) + 1
            ps = [L.binder('gp', fn.domain(i)) for i in range(fn.arity())]

            def rebuild(v, it):
                v = self.force(v)
                if isinstance(v, tuple):
                    return tuple(rebuild(y, it) for y in v)
                if isinstance(v, (str, SStr)):
                    return SStr(next(it))
                if isinstance(v, SOpq):
                    return SOpq(next(it))
                if hasattr(v, 'term'):
                    return _TermView(v, next(it))
                return SNum(next(it))
            val = rebuild(item, iter(ps[n0:]))
            phi = Or([And(c, self.tree_any(tuple(ns), lambda v: to_bool(self.M.eq(self, key(v), val)))) for c, ns in adds])
            y = L.binder('y', x.sort())
            ordf = L.order(x.sort(), node.ordf)
            sub = list(zip(g['ctx'], ps[:n0 - 1]))
            body = z3.substitute(to_bool(And(node.guard, phi)), *(sub + [(x, y)]))
            formula = L.exists(y, And(body, ordf(y) < ordf(ps[n0 - 1])), node.ordf)[0]
            L.define(fn, ps, formula)

    def content(self, ref, log=True):
        if self.ghosts and self.ghosts_of(ref):
            raise Unsupported('list is read and appended to in the same loop')
        if log:
            self.log_read(ref.fam, '$c', ref.args)
        return self._content(self.heap, ref.fam, ref.args)

    def _content(self, heap, fam, args):
        ups = heap.get((fam.id, '$c'), ())
        tree = self._base_tree(heap, fam, args)
        for u in ups:
            eqs, sub, unres = self.match(u, args)
            if is_false(eqs):
                continue
            if u.kind == 'append':
                for g, nodes in u.alts:
                    c = And(eqs, to_bool(g))
                    if sub:
                        c = z3.substitute(c, *sub)
                        nodes = tuple(self.subst(n, sub) for n in nodes)
                    c = z3.simplify(c)
                    if is_false(c):
                        continue
                    if not is_true(c):
                        nodes = (Cond(c, nodes),)
                    for q in reversed(unres):
                        nodes = (For(q, z3.BoolVal(True), nodes),)
                    tree = tree + tuple(nodes)
            else:
                if unres:
                    # overwritten by some iteration: last writer wins
                    phi = And(eqs, Or([to_bool(g) for g, v in u.alts]))
                    if sub:
                        phi = z3.substitute(phi, *sub)
                    wsub = []
                    for q in reversed(unres):
                        ex, w, wl = self.L.exists(q, phi)
                        phi = ex
                        if is_false(ex):
                            break
                        wsub = [(a, z3.substitute(b, (q, wl))) for a, b in wsub] + [(q, wl)]
                    if is_false(phi):
                        continue
                    for g, v in u.alts:
                        gg = And(phi, z3.substitute(z3.substitute(to_bool(g), *sub) if sub else to_bool(g), *wsub))
                        if self.branch(gg):
                            tree = tuple(self.subst(self.subst(n, sub), wsub) for n in v)
                            break
                    continue
                for g, v in u.alts:
                    c = And(eqs, to_bool(g))
                    if sub:
                        c = z3.substitute(c, *sub)
                    if self.branch(z3.simplify(c)):
                        tree = tuple(self.subst(n, sub) for n in v)
                        break
        return tree

    def _base_tree(self, heap, fam, args):
        if fam.origin == 'base':
            return self.base_content(fam, args)
        if fam.origin == 'copy':
            space = fam.src['space']
            n = len(space['ctx'])
            sub = [(c, a) for c, a in zip(space['ctx'], args[:n]) if not isinstance(a, int) and not c.eq(a)]
            tree = self._content(space['heap'], fam.src['fam'], args[n:])
            return tuple(self._to_copy(space, self.subst(t, sub), args[:n]) for t in tree)
        return ()

    # ---------------------------------------------------------------- scalars
    def is_num(self, v):
        return isinstance(v, (int, float, SNum)) and not isinstance(v, bool) or isinstance(v, (bool, SBool))

    def is_int(self, v):
        return isinstance(v, int) or (isinstance(v, SNum) and v.isint)

    def num(self, v):
        if isinstance(v, SNum):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                raise Unsupported('nan/inf')
            return real(v)
        if type(v).__module__ == 'numpy':
            return real(float(v))
        raise Unsupported('number expected, got %r' % (v,))

    def boo(self, v):
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.BoolRef):
            return v
        raise Unsupported('truth of %r' % (type(v).__name__,))

    def str(self, v):
        if isinstance(v, SStr):
            return v.e
        return self.L.string(v)

    def same(self, a, b):
        """Syntactic identity of two values (sound, incomplete)."""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is not tb:
            return False
        if ta in (SNum, SBool, SStr, SOpq):
            return a.e.eq(b.e)
        if ta is Ref:
            return a.fam is b.fam and len(a.args) == len(b.args) and all(
                (x == y) if isinstance(x, int) or isinstance(y, int) else x.eq(y) for x, y in zip(a.args, b.args))
        if ta is tuple:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if ta in (int, float, str, bool, type(None)):
            return a == b
        return False

    # ------------------------------------------------------------- exploration
    def assume(self, c):
        c = to_bool(c)
        c = z3.simplify(c)
        if is_true(c):
            return
        if is_false(c):
            raise Infeasible()
        self.pc.append(c)
        if self.L.check(self.pc)[0] == 'unsat':
            raise Infeasible()

    def entailed(self, c):
        c = to_bool(c)
        if is_true(c):
            return True
        return self.L.check(self.pc + [Not(c)])[0] == 'unsat'

    def branch(self, c):
        """Decide a condition; forks the current exploration if both are feasible."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        self.branches += 1
        tr = self.trails[-1]
        if tr['pos'] < len(tr['trail']):
            d, forced = tr['trail'][tr['pos']]
            tr['pos'] += 1
            if not forced:
                self.pc.append(c if d else Not(c))
            return d
        nc = Not(c)
        sat_f = self.L.check(self.pc + [nc])[0] != 'unsat'
        if not sat_f:
            tr['trail'].append((True, True))
            tr['pos'] += 1
            return True
        sat_t = self.L.check(self.pc + [c])[0] != 'unsat'
        if not sat_t:
            tr['trail'].append((False, True))
            tr['pos'] += 1
            return False
        tr['pending'].append(tr['trail'][:tr['pos']] + [(False, False)])
        tr['trail'].append((True, False))
        tr['pos'] += 1
        self.pc.append(c)
        return True

    def explore(self, thunk, limit=None):
        """Run thunk on every feasible path from the current state."""
        heap0, pc0, ctx0 = self.heap, list(self.pc), list(self.ctx)
        frames0 = [(f, dict(f.vars), list(f.yields) if f.yields is not None else None) for f in self.frames]
        nframes = len(self.frames)
        reads0, apps0 = self.readlog, self.applog
        paths = []
        work = [[]]
        self.trails.append(None)
        n0 = top = self.L.counter.n
        try:
            while work:
                trail = work.pop()
                top = max(top, self.L.counter.n)
                self.L.counter.n = n0
                self.heap, self.pc, self.ctx = heap0, list(pc0), list(ctx0)
                del self.frames[nframes:]
                for f, vs, ys in frames0:
                    f.vars = dict(vs)
                    f.yields = ys if ys is None else list(ys)
                self.readlog, self.applog = [], []
                tr = {'trail': trail, 'pos': 0, 'pending': []}
                self.trails[-1] = tr
                p = Path()
                p.val = None
                ok = True
                try:
                    p.val = thunk()
                    p.kind = 'ok'
                except PyExc as e:
                    p.kind, p.val = 'exc', e
                except ReturnEx as e:
                    p.kind, p.val = 'return', e.value
                except BreakEx:
                    p.kind = 'break'
                except ContinueEx:
                    p.kind = 'ok'
                except Infeasible:
                    ok = False
                work.extend(tr['pending'])
                if ok:
                    p.cond = self.pc[len(pc0):]
                    p.pc = list(self.pc)
                    p.heap = self.heap
                    p.vars = dict(self.frames[nframes - 1].vars) if nframes else {}
                    p.frames = [dict(f.vars) for f in self.frames[:nframes]]
                    p.reads, p.appends = self.readlog, self.applog
                    paths.append(p)
                self.npaths += 1
                if self.npaths > self.max_paths or (limit and len(paths) > limit):
                    raise Unsupported('too many paths')
        finally:
            self.L.counter.n = max(top, self.L.counter.n)
            self.trails.pop()
            self.heap, self.pc, self.ctx = heap0, pc0, ctx0
            del self.frames[nframes:]
            for f, vs, ys in frames0:
                f.vars = dict(vs)
                f.yields = ys
            self.readlog, self.applog = reads0, apps0
        if reads0 is not None:
            for p in paths:
                reads0.extend(p.reads)
        if apps0 is not None:
            for p in paths:
                apps0.extend(p.appends)
        return paths

    def pure_merge(self, thunk, assumption=True):
        """Evaluate thunk under an assumption without forking the caller.
        Returns a merged scalar value in a 1-tuple, or None if not mergeable."""
        def run():
            self.assume(assumption)
            return thunk()
        h = self.heap
        mark = next(Family._ids)
        try:
            paths = self.explore(run, limit=24)
        except Unsupported as e:
            if 'too many paths' in str(e):
                return None
            raise
        if not paths:
            return ('infeasible',)
        for p in paths:
            if p.kind != 'ok':
                return None
            for k, u in p.heap.items():
                if k[0] <= mark and u is not h.get(k):
                    return None
        alts = []
        for p in paths:
            c = And(p.cond)
            alts.append((c, p.val))
        return self.merge_values(alts)

    # --------------------------------------------------------------- iteration
    def walk(self, tree, f):
        """Run f(value) for each element of a content tree, in order."""
        for node in tree:
            if isinstance(node, Elem):
                try:
                    f(node.v)
                except ContinueEx:
                    pass
            elif isinstance(node, Cond):
                if self.branch(node.c):
                    self.walk(node.kids, f)
            else:
                self.summarise(node, f)

    @staticmethod
    def temps_of(f):
        return getattr(f, 'pyvc_temps', ())

    def nonempty(self, tree):
        return self.tree_any(tree, lambda v: z3.BoolVal(True))

    def tree_any(self, tree, pred):
        out = []
        for n in tree:
            if isinstance(n, Elem):
                out.append(to_bool(pred(n.v)))
            elif isinstance(n, Cond):
                out.append(And(n.c, self.tree_any(n.kids, pred)))
            else:
                # pred may speak of a value under a binder of the same name
                n = self.freshen(n)
                phi = And(n.guard, self.tree_any(n.kids, pred))
                out.append(self.L.exists(n.x, phi, n.ordf)[0])
        return Or(out)

    def tree_sum(self, tree, val):
        total = None
        for n in tree:
            if isinstance(n, Elem):
                t = val(n.v)
            elif isinstance(n, Cond):
                inner = self.tree_sum(n.kids, val)
                t = z3.If(n.c, inner, z3.RealVal(0)) if not is_true(n.c) else inner
            else:
                t = self.for_sum(n, val)
            total = t if total is None else total + t
        return z3.RealVal(0) if total is None else total

    def for_sum(self, n, val):
        n = self.freshen(n)
        leaves = []

        def collect(nodes, c):
            for k in nodes:
                if isinstance(k, Elem):
                    leaves.append((c, val(k.v)))
                elif isinstance(k, Cond):
                    collect(k.kids, And(c, k.c))
                else:
                    leaves.append((c, self.for_sum(k, val)))
        collect(n.kids, z3.BoolVal(True))
        groups = []
        for c, v in leaves:
            v = z3.simplify(v)
            for g in groups:
                to = v if self.L.equal_under(And(n.guard, Or(g[1])), g[0], v) else \
                    g[0] if self.L.equal_under(And(n.guard, c), v, g[0]) else None
                if to is not None and all(self.L.check([to_bool(n.guard), to_bool(c), to_bool(d)])[0] == 'unsat' for d in g[1]):
                    g[0] = to
                    g[1].append(c)
                    break
            else:
                groups.append([v, [c]])
        total = None
        for v, cs in groups:
            t = self.L.sum(n.x, And(n.guard, Or(cs)), v)
            total = t if total is None else total + t
        return z3.RealVal(0) if total is None else total

    def tree_map(self, tree, f):
        out = []
        for n in tree:
            if isinstance(n, Elem):
                out.append(Elem(f(n.v)))
            elif isinstance(n, Cond):
                out.append(Cond(n.c, self.tree_map(n.kids, f)))
            else:
                out.append(For(n.x, n.guard, self.tree_map(n.kids, f), n.ordf))
        return tuple(out)

    def tree_filter(self, tree, pred):
        """pred: value -> z3 Bool (pure)."""
        out = []
        for n in tree:
            if isinstance(n, Elem):
                c = to_bool(pred(n.v))
                if is_false(c):
                    continue
                out.append(n if is_true(c) else Cond(c, (n,)))
            elif isinstance(n, Cond):
                out.append(Cond(n.c, self.tree_filter(n.kids, pred)))
            else:
                # pred may speak of a value under a binder of the same name
                m = self.freshen(n)
                kids = self.tree_filter(m.kids, pred)
                if any(self.mentions(k, {n.x.decl().name()}) for k in kids):
                    out.append(For(m.x, m.guard, kids, n.ordf))
                else:
                    out.append(For(n.x, n.guard, [self.subst(k, [(m.x, n.x)]) for k in kids], n.ordf))
        return tuple(out)

    def freshen(self, n):
        """Rename the binder of a For node."""
        x = self.L.binder('b', n.x.sort())
        pairs = [(n.x, x)]
        self.bguard[x.decl().name()] = z3.substitute(to_bool(n.guard), *pairs)
        return For(x, z3.substitute(to_bool(n.guard), *pairs), [self.subst(k, pairs) for k in n.kids], n.ordf)

    def find(self, tree, pred, last=False):
        """First (last) element satisfying pred; forks. (True, v) or (False, None)."""
        nodes = reversed(tree) if last else tree
        for n in nodes:
            if isinstance(n, Elem):
                if self.branch(pred(n.v)):
                    return True, n.v
            elif isinstance(n, Cond):
                if self.branch(n.c):
                    ok, v = self.find(n.kids, pred, last)
                    if ok:
                        return ok, v
            else:
                n = self.freshen(n)
                phi = And(n.guard, self.tree_any(n.kids, pred))
                ex, w, wl = self.L.exists(n.x, phi, n.ordf)
                if self.branch(ex):
                    pt = wl if last else w
                    kids = [self.subst(k, [(n.x, pt)]) for k in n.kids]
                    # facts about the witness
                    self.assume(z3.substitute(to_bool(phi), (n.x, pt)))
                    ok, v = self.find(kids, pred, last)
                    if ok:
                        return ok, v
                    raise Infeasible()
        return False, None

    # ---------------------------------------------------- loop summarisation
    def born_inside(self, fam, x):
        return any(c.eq(x) for c in fam.ctx)

    def summarise(self, node, f, temps=()):
        """Execute ``for x in node: f(...)`` for an unbounded domain.

        The body is explored once for a generic element from the pre-loop state.
        Supported loop-carried effects: writes to objects owned by the element,
        writes of a last value, appends, additive accumulators; everything else
        is rejected (Unsupported).  Early exits split at the first exiting
        element, which is then executed concretely."""
        L = self.L
        node = self.freshen(node)
        x = node.x
        self.loops_summarised += 1
        frame = self.frames[-1] if self.frames else None
        vars0 = dict(frame.vars) if frame else {}
        heap0 = self.heap
        carried = {nm: _Poison(nm) for nm in self.temps_of(f) if nm not in vars0}
        hcarried = {}      # (fam id, key) -> (fam, phv, php)

        ghosts = []
        octx = tuple(self.ctx)
        nreads = len(self.readlog) if self.readlog is not None else 0

        for attempt in range(8):
            for g in ghosts:
                g['syms'] = {}

            def thunk():
                self.ghosts = outer_ghosts + ghosts
                self.ctx.append(x)
                self.assume(node.guard)
                for nm, ph in carried.items():
                    frame.vars[nm] = ph
                for (fid, key), (fam, phv, php, nargs) in hcarried.items():
                    h = dict(self.heap)
                    qs = [L.binder('q', s) for s in phv['sorts']]
                    pat = tuple(q if isinstance(q, z3.ExprRef) else q for q in qs)
                    ups = h.get((fid, key), ())
                    alts = ((php['f'](*qs) if qs else php['f'], SNum(phv['f'](*qs) if qs else phv['f'])),
                            (z3.BoolVal(True), ABSENT))
                    h[(fid, key)] = ups + (Update('set', qs, pat, alts),)
                    self.heap = h
                self.walk(node.kids, f)

            outer_ghosts = self.ghosts
            try:
                paths = self.explore(thunk)
            finally:
                self.ghosts = outer_ghosts
            normal = [p for p in paths if p.kind == 'ok']
            exits = [p for p in paths if p.kind != 'ok']
            again = False
            # --- collections that are read (membership) and grow
            for p in normal:
                for k, ups in p.heap.items():
                    fam = self.fam_by_id.get(k[0])
                    if k[1] != '$c' or self.born_inside(fam, x) or any(g['fam'].id == fam.id for g in ghosts):
                        continue
                    for u in ups[len(heap0.get(k, ())):]:
                        if u.kind == 'append' and not u.qvars and not self.owned_by(u, x) and any(
                                rf.id == fam.id and rk in ('$c', '$m') for q in paths for rf, rk, _, _ in q.reads):
                            ghosts.append({'fam': fam, 'args': u.args, 'x': x, 'ctx': octx, 'syms': {}})
                            again = True
                            break
            if again:
                continue
            # --- locals
            if frame is not None:
                for p in normal:
                    for nm in set(p.vars) | set(vars0):
                        if nm in carried:
                            continue
                        a, b = vars0.get(nm, ABSENT), p.vars.get(nm, ABSENT)
                        if a is b or self.same(a, b):
                            continue
                        again = True
                        if isinstance(a, (int, float, SNum)) and not isinstance(a, bool):
                            c = L.unique('acc_' + nm, z3.RealSort())
                            L.binders.add(c.decl().name())
                            carried[nm] = SNum(c, self.is_int(a))
                        else:
                            carried[nm] = _Poison(nm)
            # enclosing frames (closures) must not be changed
            for p in paths:
                for f0, vs in zip(self.frames[:-1], p.frames[:-1]):
                    for nm in set(vs) | set(f0.vars):
                        a, b = f0.vars.get(nm, ABSENT), vs.get(nm, ABSENT)
                        if not (a is b or self.same(a, b)):
                            raise Unsupported('loop changes a variable of an enclosing function: %s' % nm)
            # --- heap
            for p in normal:
                for k, ups in p.heap.items():
                    base = heap0.get(k, ())
                    tail = ups[len(base) + (1 if k in hcarried else 0):]
                    if not tail or k in hcarried:
                        continue
                    fam = self.fam_by_id[k[0]]
                    if self.born_inside(fam, x):
                        continue
                    for u in tail:
                        if u.kind != 'set' or self.owned_by(u, x):
                            continue
                        if k[1] == '$c':
                            continue
                        if self.conflicts(fam, k[1], u, p, x, node, paths):
                            # additive accumulator in the heap?
                            sorts = [a.sort() for a in u.args if not isinstance(a, int)]
                            if any(isinstance(a, int) for a in u.args):
                                raise Unsupported('accumulator in object with fixed index')
                            kk = next(L.serial)
                            phv = {'sorts': sorts, 'f': z3.Function('phv!%d' % kk, *sorts, z3.RealSort()) if sorts else z3.Real('phv!%d' % kk)}
                            php = {'f': z3.Function('php!%d' % kk, *sorts, z3.BoolSort()) if sorts else z3.Bool('php!%d' % kk)}
                            hcarried[k] = (fam, phv, php, len(u.args))
                            again = True
                            break
                    if again:
                        break
            if not again:
                break
        else:
            raise Unsupported('loop-carried state does not stabilise')

        if not paths:
            return
        gconds = {}
        for g in ghosts:
            self.define_ghost(g, node, normal, heap0, x)
            if g['fam'].kind == 'set':
                gconds[g['fam'].id] = g['conds']
        ghosted = {g['fam'].id for g in ghosts}
        phnames = {ph.e.decl().name() for ph in carried.values() if isinstance(ph, SNum)}
        hnames = {}
        for k, (fam, phv, php, n) in hcarried.items():
            hnames[k] = ((phv['f'].name() if phv['sorts'] else phv['f'].decl().name()),
                         (php['f'].name() if phv['sorts'] else php['f'].decl().name()))
        allh = {n for t in hnames.values() for n in t}
        for p in paths:
            for c in p.cond:
                if L.contains_any(c, phnames):
                    raise Unsupported('loop condition depends on an accumulated value')

        if hcarried and self.readlog is not None:
            # reads of an accumulator only feed its own increments (checked below)
            self.readlog[nreads:] = [r for r in self.readlog[nreads:] if (r[0].id, r[1]) not in hcarried]

        # dependence between iterations through the heap
        self.check_independence(heap0, normal, paths, x, node, hcarried, ghosted)

        def strip(conds):
            """drop literals about heap placeholders"""
            if not allh:
                return list(conds), []
            keep, dropped = [], []
            for c in conds:
                (dropped if L.contains_any(c, allh) else keep).append(c)
            return keep, dropped

        ncond = {}
        lconds = {}
        for p in paths:
            keep, dropped = strip(p.cond)
            ncond[id(p)] = z3.simplify(And(keep))
            lconds[id(p)] = keep
            for d in dropped:
                a = d.arg(0) if z3.is_not(d) else d
                if not any(a.num_args() == 0 and a.decl().name() == t[1] or a.decl().name() == t[1] for t in hnames.values()):
                    raise Unsupported('loop condition depends on an accumulated heap value')

        if exits:
            if allh and any(L.contains_any(c, allh) for p in exits for c in p.cond):
                raise Unsupported('loop exit depends on an accumulated heap value')
            E = Or([ncond[id(p)] for p in exits])
            ex, w, wl = L.exists(x, And(node.guard, E), node.ordf)
            if self.branch(ex):
                ordf = L.order(x.sort(), node.ordf)
                before = ordf(x) < ordf(w)
                self.assume(z3.substitute(to_bool(And(node.guard, E)), (x, w)))
                self.apply_effects(node, x, normal, ncond, lconds, vars0, heap0, carried, hcarried, hnames, before, gconds)
                kids = [self.subst(k, [(x, w)]) for k in node.kids]
                self.walk(kids, f)
                raise Infeasible()      # the body must exit at its first exiting element
        self.apply_effects(node, x, normal, ncond, lconds, vars0, heap0, carried, hcarried, hnames, None, gconds)

    def conflicts(self, fam, key, u, p_w, x, node, paths):
        """May a write of one iteration hit a location read in another one?"""
        seen = set()
        for p in paths:
            for rf, rk, rargs, rpc in p.reads:
                if rk == '*deep*':
                    if not self.below(rf, fam, p.heap):
                        continue
                    if rf.id != fam.id:
                        # an ancestor of the written object is copied as a whole: the
                        # objects of different elements are disjoint subtrees
                        if any(not isinstance(a, int) and a.eq(x) for a in rargs) and self.owned_by(u, x):
                            continue
                        return True
                elif rf.id != fam.id or rk != key and not (rk == '$m' and key == '$c'):
                    continue
                k = (rk, tuple(a if isinstance(a, int) else a.get_id() for a in rargs),
                     tuple(c.get_id() for c in rpc))
                if k in seen:
                    continue
                seen.add(k)
                if self.may_alias(u, p_w, rargs, rpc, x, node):
                    return True
        return False

    def owned_by(self, u, x):
        """Does the written object belong to the element x?"""
        if any(not isinstance(a, int) and a.eq(x) for a in u.args):
            return True
        if not u.qvars:
            return False
        for g, v in u.alts:
            t = self.solve_for(x, g, u.qvars)
            if t is None:
                return False
        return True

    def solve_for(self, x, guard, others):
        """A term t over the other binders with guard => x == t, or None."""
        guard = to_bool(guard)
        conj = []
        stack = [guard]
        while stack:
            c = stack.pop()
            if z3.is_and(c):
                stack.extend(c.children())
            else:
                conj.append(c)
        for c in conj:
            if z3.is_eq(c):
                a, b = c.children()
                for l, r in ((a, b), (b, a)):
                    if l.eq(x) and not self.L.contains(r, x):
                        if all(any(f.eq(o) for o in others) for f in self.L.free_consts(r)) and self.L.free_consts(r):
                            return r
        return None

    def below(self, top, fam, heap=None):
        """May an object of ``fam`` be reachable from one of ``top``?"""
        if top.id == fam.id:
            return True
        if fam.origin == 'base' and top.origin == 'base' and fam.name.startswith(top.name):
            return True
        if fam.origin == 'copy' and top.origin == 'copy':
            if fam.src['space'] is top.src['space']:
                return self.below(top.src['fam'], fam.src['fam'], fam.src['space']['heap'])
        if heap is None:
            heap = self.heap
        reach, todo = {top.id}, [top]
        stored = {}
        for (fid, key), ups in heap.items():
            for u in ups:
                for g, v in u.alts:
                    out = []
                    if not self.families_in(v, out):
                        return True
                    if out:
                        stored.setdefault(fid, []).extend(out)
        while todo:
            t = todo.pop()
            nxt = list(stored.get(t.id, ()))
            for fid in stored:
                f = self.fam_by_id[fid]
                if f.origin == 'base' and t.origin == 'base' and f.name.startswith(t.name):
                    nxt.append(f)
                elif f.origin == 'copy' and t.origin == 'copy' and f.src['space'] is t.src['space']:
                    nxt.append(f)
            for f in nxt:
                if f.id == fam.id:
                    return True
                if f.origin == 'base' and fam.origin == 'base' and fam.name.startswith(f.name):
                    return True
                if f.origin == 'copy' and fam.origin == 'copy' and f.src['space'] is fam.src['space']:
                    return True
                if f.id not in reach:
                    reach.add(f.id)
                    todo.append(f)
        return False

    def families_in(self, v, out):
        """Collect the object families a value refers to; False if unknown."""
        t = type(v)
        if t is Ref:
            out.append(v.fam)
            return True
        if t is tuple or t is list or t is set or t is frozenset:
            return all(self.families_in(a, out) for a in v)
        if t is dict:
            return all(self.families_in(a, out) for a in v.values())
        if t is Elem:
            return self.families_in(v.v, out)
        if t is Cond or t is For:
            return all(self.families_in(a, out) for a in v.kids)
        if t in (SNum, SBool, SStr, SOpq, str, int, float, bool, type(None)) or v is ABSENT or v is UNSPEC:
            return True
        return False

    def mentions(self, v, names):
        """Does a value contain one of the named symbols?"""
        t = type(v)
        if isinstance(v, z3.ExprRef):
            return self.L.contains_any(v, names)
        if t in (SNum, SBool, SStr, SOpq):
            return self.L.contains_any(v.e, names) if isinstance(v.e, z3.ExprRef) else False
        if t is Ref:
            return any(isinstance(a, z3.ExprRef) and self.L.contains_any(a, names) for a in v.args)
        if t in (tuple, list, set, frozenset):
            return any(self.mentions(a, names) for a in v)
        if t is dict:
            return any(self.mentions(a, names) for a in v.values())
        if t is Elem:
            return self.mentions(v.v, names)
        if t is Cond:
            return self.mentions(to_bool(v.c), names) or self.mentions(v.kids, names)
        if t is For:
            return self.mentions(to_bool(v.guard), names) or self.mentions(tuple(v.kids), names)
        if hasattr(v, 'pyvc_mentions'):
            return v.pyvc_mentions(self, names)
        return False

    def binder_facts(self, terms, ren=()):
        """Domain guards of the binders occurring in terms (closed transitively)."""
        out, todo, seen = [], list(terms), set()
        while todo:
            t = todo.pop()
            if isinstance(t, int):
                continue
            for c in self.L.free_consts(t):
                n = c.decl().name()
                if n in seen:
                    continue
                seen.add(n)
                g = self.bguard.get(n)
                if g is not None:
                    out.append(g)
                    todo.append(g)
        if ren:
            out = [z3.substitute(to_bool(g), *ren) for g in out]
        return out

    def may_alias(self, u, p_w, rargs, rpc, x, node):
        L = self.L
        wargs = u.args
        if len(wargs) != len(rargs):
            return True
        for a, b in zip(wargs, rargs):
            if isinstance(a, int) and isinstance(b, int) and a != b:
                return False
        for a, b in zip(wargs, rargs):
            if not isinstance(a, int) and not isinstance(b, int) and a.eq(x) and b.eq(x):
                return False
        # two iterations x != x2: rename every inner binder of the writer
        ren = [(x, L.binder('o', x.sort()))]
        x2 = ren[0][1]
        pool = [a for a in wargs if not isinstance(a, int)] + [to_bool(g) for g, v in u.alts] + list(p_w.cond if p_w else [])
        for a in pool:
            for c in L.free_consts(a):
                if not any(c.eq(k) for k in self.ctx) and not any(c.eq(r[0]) for r in ren):
                    ren.append((c, L.binder('o', c.sort())))
        eqs = And([self.arg_eq(self.subst_arg(a, ren), b) for a, b in zip(wargs, rargs)])
        if is_false(eqs):
            return False
        facts = self.binder_facts(pool, ren) + self.binder_facts(list(rargs))
        facts.append(z3.substitute(to_bool(Or([to_bool(g) for g, v in u.alts])), *ren))
        facts += [node.guard, z3.substitute(to_bool(node.guard), *ren), x != x2, eqs]
        if L.check(self.pc + facts)[0] == 'unsat':
            return False
        facts += [z3.substitute(to_bool(c), *ren) for c in (p_w.cond if p_w else [])]
        return L.check(list(rpc) + facts)[0] != 'unsat'

    def check_independence(self, heap0, normal, paths, x, node, hcarried, ghosted=()):
        for p in normal:
            for k, ups in p.heap.items():
                base = heap0.get(k, ())
                if k in hcarried:
                    continue
                tail = ups[len(base):]
                if not tail:
                    continue
                fam = self.fam_by_id[k[0]]
                if self.born_inside(fam, x):
                    continue
                for u in tail:
                    if u.kind == 'append':
                        if self.owned_by(u, x):
                            continue
                        # content must not be read in the loop
                        for q in paths:
                            for rf, rk, rargs, rpc in q.reads:
                                if rf.id == fam.id and (rk in ('$c', '*deep*') or rk == '$m' and fam.id not in ghosted):
                                    raise Unsupported('list is read and appended to in the same loop')
                                if rk == '*deep*' and self.below(rf, fam, q.heap):
                                    raise Unsupported('list is deep-copied and appended to in the same loop')
                        continue
                    if self.conflicts(fam, k[1], u, p, x, node, paths):
                        raise Unsupported('iterations depend on each other through %s[%r]' % (fam.name, k[1]))

    @staticmethod
    def merge_conds(lists):
        """Conditions (conjunctions of literals) of exclusive paths with the same
        effect -> fewer conjunctions, resolving a branch both sides of which occur."""
        keep = {}
        sets = []
        for l in lists:
            cur = set()
            for c in l:
                c = to_bool(c)
                if is_true(c):
                    continue
                sgn = True
                a = c
                while z3.is_not(a):
                    a, sgn = a.arg(0), not sgn
                keep[a.get_id()] = a
                cur.add((a.get_id(), sgn))
            sets.append(frozenset(cur))
        sets = list(dict.fromkeys(sets))
        changed = True
        while changed:
            changed = False
            have = set(sets)
            for A in sets:
                for (i, sgn) in A:
                    B = (A - {(i, sgn)}) | {(i, not sgn)}
                    if B in have:
                        sets = [S for S in sets if S != A and S != B]
                        new = A - {(i, sgn)}
                        if new not in sets:
                            sets.append(new)
                        changed = True
                        break
                if changed:
                    break
        return [And([keep[i] if sgn else Not(keep[i]) for i, sgn in sorted(S)]) for S in sets]

    def same_nodes(self, a, b):
        if len(a) != len(b):
            return False
        for m, n in zip(a, b):
            if type(m) is not type(n):
                return False
            if isinstance(m, Elem):
                if not (m.v is n.v or self.same(m.v, n.v)):
                    return False
            elif isinstance(m, Cond):
                if not to_bool(m.c).eq(to_bool(n.c)) or not self.same_nodes(m.kids, n.kids):
                    return False
            else:
                if not (m.x.eq(n.x) and to_bool(m.guard).eq(to_bool(n.guard)) and m.ordf is n.ordf
                        and self.same_nodes(m.kids, n.kids)):
                    return False
        return True

    def same_update(self, u, w):
        if u.kind != w.kind or len(u.qvars) != len(w.qvars) or len(u.alts) != len(w.alts):
            return False
        if not all(a.eq(b) for a, b in zip(u.qvars, w.qvars)) or not self.same(tuple_ref(u.args), tuple_ref(w.args)):
            return False
        for (g, v), (h, v2) in zip(u.alts, w.alts):
            if not to_bool(g).eq(to_bool(h)):
                return False
            if u.kind == 'append':
                if not self.same_nodes(tuple(v), tuple(v2)):
                    return False
            elif not (v is v2 or self.same(v, v2)):
                return False
        return True

    def apply_effects(self, node, x, normal, ncond, lconds, vars0, heap0, carried, hcarried, hnames, extra, gconds=()):
        L = self.L
        dom = to_bool(node.guard) if extra is None else And(node.guard, extra)
        frame = self.frames[-1] if self.frames else None
        heap = dict(self.heap)
        if hcarried:
            leak = {n for t in hnames.values() for n in t}
            for p in normal:
                for k, ups in p.heap.items():
                    if k not in hcarried and any(self.mentions(v, leak) or self.mentions(g, leak)
                                                 for u in ups[len(heap0.get(k, ())):] for g, v in u.alts):
                        raise Unsupported('an accumulated value is used elsewhere in the loop')
                if any(self.mentions(p.vars[nm], leak) for nm in p.vars if nm in vars0):
                    raise Unsupported('an accumulated value is used elsewhere in the loop')
        # locals
        for nm, ph in carried.items():
            old = vars0.get(nm, ABSENT)
            if isinstance(ph, SNum):
                deltas = []
                overw = []
                for p in normal:
                    v = p.vars.get(nm, ABSENT)
                    if v is ph:
                        continue
                    if isinstance(v, (int, float, SNum)) and not isinstance(v, bool):
                        d = z3.simplify(self.num(v) - ph.e, som=True)
                        if not L.contains(d, ph.e):
                            deltas.append((ncond[id(p)], d))
                            continue
                        if isinstance(v, SNum) and L.contains(v.e, ph.e):
                            raise Unsupported('accumulator %s is not additive' % nm)
                    overw.append((ncond[id(p)], v))
                if overw and deltas:
                    raise Unsupported('accumulator %s both added to and overwritten' % nm)
                if overw:
                    frame.vars[nm] = self.last_value(x, dom, overw, old, nm, node)
                else:
                    body = z3.RealVal(0)
                    for c, d in deltas:
                        body = body + z3.If(c, d, z3.RealVal(0))
                    s = L.sum(x, dom, body)
                    frame.vars[nm] = SNum(z3.simplify(self.num(old) + s), ph.isint)
            else:
                overw = []
                for p in normal:
                    v = p.vars.get(nm, ABSENT)
                    if v is ph:
                        continue
                    overw.append((ncond[id(p)], v))
                frame.vars[nm] = self.last_value(x, dom, overw, old, nm, node)
                if frame.vars[nm] is ABSENT:
                    del frame.vars[nm]
        # heap
        keys = {}
        for p in normal:
            for k, ups in p.heap.items():
                base = heap0.get(k, ())
                tail = ups[len(base) + (1 if k in hcarried else 0):]
                if tail:
                    keys.setdefault(k, []).append((p, tail))
        for k, plist in keys.items():
            fam = self.fam_by_id[k[0]]
            if k in hcarried:
                phvn, phpn = hnames[k]
                _, phv, php, _ = hcarried[k]
                groups = []
                for p, tail in plist:
                    if len(tail) != 1 or tail[0].kind != 'set' or tail[0].qvars:
                        # keep only the last write to the very same location
                        la = tail[-1]
                        if any(t.kind != 'set' or t.qvars or not self.same(tuple_ref(t.args), tuple_ref(la.args)) for t in tail):
                            raise Unsupported('complex accumulator in the heap')
                        tail = (la,)
                    u = tail[0]
                    g, v = u.alts[0]
                    if v is ABSENT:
                        raise Unsupported('accumulator deleted')
                    za = [a for a in u.args]
                    here = phv['f'](*za) if za else phv['f']
                    hp = php['f'](*za) if za else php['f']
                    absent = any(z3.is_not(c) and c.arg(0).eq(hp) for c in p.cond)
                    e = self.num(v)
                    d = z3.simplify(e - here, som=True)
                    d1 = z3.simplify(z3.substitute(e, (hp, z3.BoolVal(True))) - here, som=True)
                    d2 = z3.simplify(z3.substitute(e, (hp, z3.BoolVal(False))), som=True)
                    if d1.eq(d2) and not L.contains_any(d1, {phvn, phpn}):
                        # the same whether or not it was there (d.get(k, 0) + amount)
                        d = d1
                    elif L.contains_any(d, {phvn, phpn}):
                        d = z3.simplify(e, som=True)
                        if not absent or L.contains_any(d, {phvn, phpn}):
                            raise Unsupported('heap accumulator is not additive')
                    elif absent:
                        raise Unsupported('heap accumulator read while absent')
                    groups.append((ncond[id(p)], d, u.args))
                # the absent / present variants must add the same amount
                uniq = []
                for c, d, a in groups:
                    if any(c.eq(c2) and self.same(tuple_ref(a), tuple_ref(a2)) for c2, d2, a2 in uniq):
                        c2, d2, a2 = next(t for t in uniq if c.eq(t[0]))
                        if L.check(self.pc + [dom, c, d != d2])[0] != 'unsat':
                            raise Unsupported('heap accumulator starts from a non-zero default')
                        continue
                    uniq.append((c, d, a))
                # paths on which nothing is written add nothing; every path with the
                # presence literal dropped must be covered consistently
                for c, d, a in uniq:
                    for p in normal:
                        if not any(q is p for q, _ in plist) and ncond[id(p)].eq(c):
                            raise Unsupported('accumulation depends on presence')
                for c, d, a in uniq:
                    heap[k] = heap.get(k, ()) + (Update('add', (x,), a, ((And(dom, c), SNum(d)),)),)
                continue
            owned = self.born_inside(fam, x)
            direct = []
            inv = []
            for p, tail in plist:
                for u in tail:
                    if not any((not isinstance(a, int)) and a.eq(x) for a in u.args) and u.qvars and self.owned_by(u, x):
                        # the written object determines x (its parent): eliminate x
                        alts = []
                        for g, v in u.alts:
                            t = self.solve_for(x, g, u.qvars)
                            sb = [(x, t)]
                            alts.append((z3.substitute(to_bool(And(dom, ncond[id(p)], g)), *sb), self.subst(v, sb)))
                            if any(not isinstance(a, int) and L.contains(a, x) for a in u.args):
                                raise Unsupported('computed target')
                        direct.append((None, Update(u.kind, u.qvars, u.args, alts)))
                        continue
                    if any((not isinstance(a, int)) and a.eq(x) for a in u.args):
                        direct.append((p, u))
                    else:
                        inv.append((p, u))
            if direct and inv:
                raise Unsupported('mixed writes to %s[%r]' % (fam.name, k[1]))
            if direct:
                count = {}
                for p, u in direct:
                    count[id(p)] = count.get(id(p), 0) + 1
                done = set()
                for i, (p, u) in enumerate(direct):
                    if i in done:
                        continue
                    if p is None:
                        heap[k] = heap.get(k, ()) + (u,)
                        continue
                    c = ncond[id(p)]
                    if count[id(p)] == 1:
                        cl = [j for j in range(i, len(direct)) if j not in done and direct[j][0] is not None
                              and count[id(direct[j][0])] == 1 and self.same_update(u, direct[j][1])]
                        if len(cl) > 1:
                            done.update(cl)
                            c = Or(self.merge_conds([lconds[id(direct[j][0])] for j in cl]))
                    c = And(dom, c)
                    heap[k] = heap.get(k, ()) + (Update(u.kind, (x,) + u.qvars, u.args,
                                                        tuple((And(c, g), v) for g, v in u.alts)),)
                continue
            if not inv:
                continue
            kinds = {u.kind for p, u in inv}
            if kinds == {'append'}:
                groups = []
                for p, u in inv:
                    for gr in groups:
                        if self.same(tuple_ref(gr[0]), tuple_ref(u.args)):
                            break
                    else:
                        gr = (u.args, [])
                        groups.append(gr)
                    gr[1].append((p, u))
                if len(groups) > 1:
                    # distinct targets: fine only if each target is loop invariant
                    pass
                for args, pus in groups:
                    if any((not isinstance(a, int)) and L.contains(a, x) for a in args):
                        raise Unsupported('append to a computed target')
                    kids = []
                    perpath = {}
                    order = []
                    for p, u in pus:
                        if id(p) not in perpath:
                            perpath[id(p)] = []
                            order.append(p)
                        for g, nodes in u.alts:
                            nn = tuple(nodes)
                            if not is_true(to_bool(g)):
                                nn = (Cond(g, nn),)
                            for q in reversed(u.qvars):
                                nn = (For(q, z3.BoolVal(True), nn),)
                            perpath[id(p)].extend(nn)
                    classes = []
                    for p in order:
                        for cl in classes:
                            if self.same_nodes(perpath[id(cl[0])], perpath[id(p)]):
                                cl.append(p)
                                break
                        else:
                            classes.append([p])
                    for cl in classes:
                        nodes = perpath[id(cl[0])]
                        if k[0] in gconds:
                            gc = gconds[k[0]]
                            c = z3.simplify(Or(self.merge_conds([gc[id(p)] for p in cl])))
                        else:
                            c = Or(self.merge_conds([lconds[id(p)] for p in cl])) if len(cl) > 1 else ncond[id(cl[0])]
                        if is_true(c):
                            kids.extend(nodes)
                        else:
                            kids.append(Cond(c, nodes))
                    heap[k] = heap.get(k, ()) + (Update('append', (), args, ((z3.BoolVal(True),
                                                 (For(x, dom, kids, node.ordf),)),)),)
                continue
            if kinds == {'add'}:
                for p, u in inv:
                    c = And(dom, ncond[id(p)])
                    heap[k] = heap.get(k, ()) + (Update('add', (x,) + u.qvars, u.args,
                                                        tuple((And(c, g), v) for g, v in u.alts)),)
                continue
            if kinds != {'set'}:
                raise Unsupported('mixed updates of %s[%r] in a loop' % (fam.name, k[1]))
            # plain overwrites, possibly of a common location: one combined update
            perpath = {}
            for p, u in inv:
                perpath.setdefault(id(p), []).append((p, u))
            targets = []
            for pid, us in perpath.items():
                last = {}
                seq = []
                for p, u in us:
                    seq.append(u)
                # several writes on one path: later ones to the same location win
                final = []
                for i, u in enumerate(seq):
                    if any(self.same(tuple_ref(u.args), tuple_ref(w.args)) and not u.qvars and not w.qvars for w in seq[i + 1:]):
                        continue
                    final.append(u)
                for u in final:
                    targets.append((us[0][0], u))
            pats = []
            for p, u in targets:
                for gr in pats:
                    if self.same(tuple_ref(gr[0].args), tuple_ref(u.args)) and len(gr[0].qvars) == len(u.qvars) and \
                       all(a.eq(b) for a, b in zip(gr[0].qvars, u.qvars)):
                        gr[1].append((p, u))
                        break
                else:
                    pats.append((u, [(p, u)]))
            if len(pats) > 1 and not self.disjoint_patterns(pats, x, dom, ncond):
                raise Unsupported('several computed write targets in one loop: %s[%r]' % (fam.name, k[1]))
            for u0, pus in pats:
                alts = []
                for p, u in pus:
                    for g, v in u.alts:
                        alts.append((And(dom, ncond[id(p)], g), v))
                heap[k] = heap.get(k, ()) + (Update('set', (x,) + u0.qvars, u0.args, alts),)
        self.heap = heap

    def disjoint_patterns(self, pats, x, dom, ncond):
        L = self.L
        for (u1, pu1), (u2, pu2) in itertools.combinations(pats, 2):
            for p1, a in pu1:
                for p2, b in pu2:
                    ren = []
                    for t in list(b.args):
                        if isinstance(t, int):
                            continue
                        for c in L.free_consts(t):
                            if not any(c.eq(k) for k in self.ctx) and not any(c.eq(r[0]) for r in ren):
                                ren.append((c, L.binder('o', c.sort())))
                    if not any(r[0].eq(x) for r in ren):
                        ren.append((x, L.binder('o', x.sort())))
                    eqs = self.args_eq(a.args, [self.subst_arg(t, ren) for t in b.args])
                    fs = self.pc + [dom, ncond[id(p1)], z3.substitute(to_bool(dom), *ren),
                                    z3.substitute(to_bool(ncond[id(p2)]), *ren), eqs]
                    if L.check(fs)[0] != 'unsat':
                        return False
        return True

    def last_value(self, x, dom, overw, old, nm, node):
        """Value of an overwritten variable after the loop."""
        if not overw:
            return old
        first = overw[0][1]
        L = self.L
        some = Or([c for c, _ in overw])
        ex, w, wl = L.exists(x, And(dom, some), node.ordf)
        if all(self.same(first, v) for _, v in overw) and isinstance(first, (bool, str, int, float, type(None))):
            if old is not ABSENT:
                m = self.merge_values([(ex, first), (z3.BoolVal(True), old)])
                if m:
                    return m[0]
            return Late(self, ex, [(z3.BoolVal(True), first)], old)
        alts = []
        for c, v in overw:
            if isinstance(v, _Poison) or callable(getattr(v, 'pyvc_nosubst', None)):
                return _Poison(nm)
            if not isinstance(v, (SNum, SBool, SStr, SOpq, Ref, tuple, int, float, str, bool, type(None))):
                return _Poison(nm)
            if wl is None:
                return old
            alts.append((z3.substitute(to_bool(c), (x, wl)), self.subst(v, [(x, wl)])))
        return Late(self, ex, alts, old)


class _TermView:
    """Stands for a value that is compared through its term."""
    def __init__(self, like, term):
        self.like, self.term = like, term

    def pyvc_eq(self, I, other):
        if hasattr(other, 'term'):
            return self.term == other.term
        raise Unsupported('comparison of a sorted view')


def tuple_ref(args):
    """wrap an argument tuple for Engine.same"""
    return tuple(a if isinstance(a, int) else SOpq(a) for a in args)


class Late:
    """A variable last assigned inside a summarised loop (resolved when read)."""
    __slots__ = ('eng', 'ex', 'alts', 'old')

    def __init__(self, eng, ex, alts, old):
        self.eng, self.ex, self.alts, self.old = eng, ex, alts, old

    def force(self):
        e = self.eng
        if e.branch(self.ex):
            for c, v in self.alts[:-1]:
                if e.branch(c):
                    return v
            e.assume(self.alts[-1][0])
            return self.alts[-1][1]
        return self.old

    def pyvc_subst(self, eng, pairs):
        return Late(eng, z3.substitute(to_bool(self.ex), *pairs),
                    [(z3.substitute(to_bool(c), *pairs), eng.subst(v, pairs)) for c, v in self.alts],
                    eng.subst(self.old, pairs))

    def pyvc_mentions(self, eng, const):
        return True
