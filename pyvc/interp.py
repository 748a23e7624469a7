# -*- coding: utf-8 -*-
"""Symbolic interpreter for the python subset used by the code under contract.

The text interpreted is the source of the very function objects imported from
/repo (found through their code objects), re-parsed on every run."""
import ast
import builtins
import functools
import inspect
import types
import z3

from .engine import (Engine, Unsupported, PyExc, ReturnEx, BreakEx, ContinueEx,
                     Infeasible, ABSENT, _Poison, SNum, SBool, SStr, SOpq, Ref,
                     Family, Elem, Cond, For, Frame, Late, UNSPEC)
from .logic import And, Or, Not, Ite, is_true, is_false, to_bool, real

_ASTS = {}


def module_ast(filename):
    if filename not in _ASTS:
        with open(filename, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault(line, []).append(n)
        _ASTS[filename] = idx
    return _ASTS[filename]


def func_node(fn):
    code = fn.__code__
    try:
        idx = module_ast(code.co_filename)
    except (OSError, SyntaxError):
        raise Unsupported('no source for %r' % fn)
    cands = idx.get(code.co_firstlineno, [])
    if fn.__name__ == '<lambda>':
        c = [n for n in cands if isinstance(n, ast.Lambda)]
        if len(c) > 1:
            pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[3]]
            c2 = []
            for n in c:
                b = n.body
                if any((p[0], p[2]) >= (b.lineno, b.col_offset) and (p[1], p[3]) <= (b.end_lineno, b.end_col_offset)
                       and p[3] > p[2] for p in pos):
                    c2.append(n)
            c = c2 or c
        if len(c) == 1:
            return c[0]
    else:
        c = [n for n in cands if isinstance(n, ast.FunctionDef) and n.name == fn.__name__]
        if len(c) == 1:
            return c[0]
        c = [n for n in cands if isinstance(n, ast.FunctionDef) and n.name == code.co_name]
        if len(c) == 1:
            return c[0]
    raise Unsupported('cannot locate source of %r' % fn)



def own_read(args, ctx):
    """A read of the element the innermost loop is at (and of no other one)."""
    zs = [a for a in args if not isinstance(a, int)]
    if not zs or not any(zs[-1].eq(c) for c in ctx):
        return False
    return sum(1 for c in ctx if c.sort().eq(zs[-1].sort())) == 1


def eqarg(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
    return a.eq(b)


class FuncVal:
    """A function or lambda created by interpreted code."""
    def __init__(self, node, frame, globs, defaults, kwdefaults, name):
        self.node, self.frame, self.globs = node, frame, globs
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name

    def pyvc_subst(self, eng, pairs):
        return self

    def __repr__(self):
        return '<FuncVal %s>' % self.name


class Method:
    """Bound method of a symbolic value."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class BoundFn:
    """Real python function bound to an interpreted/real object."""
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class ExcVal:
    """An exception instance."""
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(stmts):
    out = []
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.append(n.name)
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


SCALARS = (int, float, str, bool, type(None))


class Interp(Engine):
    def __init__(self, logic, models=None, **kw):
        super().__init__(logic, **kw)
        from . import models as M
        self.M = M
        self.contracts = {}        # id(real function) -> summary (python function)
        self.inline_only = set()
        self.depth = 0
        self.excstack = []
        self.concrete_loop_cap = 4000

    # ------------------------------------------------------------------ calls
    def real_id(self, fn):
        return id(fn)

    def call(self, fn, args=(), kw=None):
        kw = kw or {}
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            return self._call(fn, list(args), dict(kw))
        finally:
            self.depth -= 1

    def _call(self, fn, args, kw):
        if isinstance(fn, Late):
            fn = fn.force()
        if isinstance(fn, _Poison):
            raise Unsupported('call of a loop-carried function')
        if isinstance(fn, FuncVal):
            return self.run_function(fn.node, fn.globs, fn.frame, fn.defaults, fn.kwdefaults, fn.name, args, kw)
        if isinstance(fn, Method):
            return self.M.method(self, fn.obj, fn.name, args, kw)
        if isinstance(fn, BoundFn):
            return self._call(fn.fn, [fn.obj] + args, kw)
        if isinstance(fn, Partial):
            return self._call(fn.fn, list(fn.args) + args, {**fn.kw, **kw})
        if isinstance(fn, functools.partial):
            return self._call(fn.func, list(fn.args) + args, {**fn.keywords, **kw})
        if hasattr(type(fn), 'pyvc_call'):
            return fn.pyvc_call(self, args, kw)
        if id(fn) in self.contracts:
            return self.call_contract(fn, args, kw)
        if type(fn).__name__ == 'FunctionWrapper' and hasattr(fn, '_self_wrapper'):
            wrapped = fn.__wrapped__
            if id(wrapped) in self.contracts and False:
                pass
            return self._call(fn._self_wrapper, [wrapped, None, tuple(args), self.make_kwdict(kw)], {})
        m = self.M.lookup(fn)
        if m is not None:
            return m(self, *args, **kw)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            obj = fn.__self__
            key = id(f)
            if key in self.contracts:
                return self.call_contract(f, [obj] + args, kw)
            m = self.M.lookup(f)
            if m is not None:
                return m(self, obj, *args, **kw)
            return self._call(f, [obj] + args, kw)
        if isinstance(fn, types.FunctionType):
            node = func_node(fn)
            mod = fn.__module__ or ''
            cells = {}
            if fn.__closure__:
                for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                    try:
                        cells[nm] = cell.cell_contents
                    except ValueError:
                        pass
            parent = Frame('<closure>', fn.__globals__, None, cells) if cells else None
            self.functions.setdefault('%s.%s' % (mod, fn.__qualname__), 'inlined')
            return self.run_function(node, fn.__globals__, parent, fn.__defaults__ or (),
                                     fn.__kwdefaults__ or {}, fn.__name__, args, kw)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Ref) and fn.kind == 'obj' and hasattr(fn.fam.cls, '__call__'):
            return self._call(self.getattr(fn, '__call__'), args, kw)
        if type(fn).__module__.startswith('ocelot') and isinstance(getattr(type(fn), '__call__', None), types.FunctionType):
            return self._call(type(fn).__call__, [fn] + args, kw)
        # pure python builtins on concrete scalars
        if self.all_concrete(args) and self.all_concrete(kw.values()):
            if self.M.is_pure(fn):
                try:
                    return fn(*args, **kw)
                except Exception as e:
                    raise PyExc(type(e), e.args)
        raise Unsupported('call of %r' % (fn,))

    def make_kwdict(self, kw):
        r = self.new_ref('kwargs', 'dict')
        for k, v in kw.items():
            self.write(r, k, v)
        self.note_key(r.fam, '*closed*')
        return r

    def call_contract(self, fn, args, kw):
        summ = self.contracts[id(fn)]
        name = getattr(fn, '__qualname__', getattr(fn, '__name__', str(fn)))
        self.functions['%s.%s' % (getattr(fn, '__module__', ''), name)] = 'contract'
        saved = self.contracts
        return self._call(summ, args, kw)

    def all_concrete(self, vs):
        for v in vs:
            if isinstance(v, (tuple,)):
                if not self.all_concrete(v):
                    return False
            elif isinstance(v, (SNum, SBool, SStr, SOpq, Ref, FuncVal, Method, Late, _Poison, ExcVal, Partial)) or v is UNSPEC:
                return False
            elif hasattr(v, 'pyvc_subst'):
                return False
        return True

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        m = self.M.lookup(cls)
        if m is not None:
            return m(self, *args, **kw)
        mod = getattr(cls, '__module__', '')
        if self.all_concrete(args) and self.all_concrete(kw.values()) and self.M.is_pure(cls):
            return cls(*args, **kw)
        if mod.startswith('ocelot') or mod.startswith('contracts') or mod.startswith('specs'):
            fam = Family(cls.__name__, 'obj', ctx=self.ctx, cls=cls)
            obj = Ref(fam, tuple(self.ctx))
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self._call(init, [obj] + args, kw)
            return obj
        raise Unsupported('instantiate %r' % (cls,))

    def bind(self, node, defaults, kwdefaults, args, kw, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg is None:
                raise PyExc(TypeError, ('%s() takes %d positional arguments but %d were given' % (name, len(params), len(args)),))
        for p, v in zip(params, args):
            vars[p] = v
        extra = args[len(params):]
        for p in params:
            if p in kw:
                if p in vars:
                    raise PyExc(TypeError, ('%s() got multiple values for argument %r' % (name, p),))
                vars[p] = kw.pop(p)
        nd = len(defaults)
        for p, d in zip(params[len(params) - nd:], defaults):
            if p not in vars:
                vars[p] = d
        for p in params:
            if p not in vars:
                raise PyExc(TypeError, ('%s() missing required argument: %r' % (name, p),))
        for p in a.kwonlyargs:
            if p.arg in kw:
                vars[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                vars[p.arg] = kwdefaults[p.arg]
            else:
                raise PyExc(TypeError, ('%s() missing keyword-only argument %r' % (name, p.arg),))
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.make_kwdict(kw)
        elif kw:
            raise PyExc(TypeError, ('%s() got an unexpected keyword argument %r' % (name, list(kw)[0]),))
        return vars

    def run_function(self, node, globs, parent, defaults, kwdefaults, name, args, kw):
        vars = self.bind(node, defaults, kwdefaults, args, kw, name)
        if isinstance(node, ast.Lambda):
            fr = Frame(name, globs, parent, vars)
            self.frames.append(fr)
            try:
                return self.eval(node.body)
            finally:
                self.pop_frame(fr)
        if is_generator(node):
            def thunk():
                fr = Frame(name, globs, parent, dict(vars))
                fr.node = node
                self.frames.append(fr)
                out = self.new_list(name='yield:' + name)
                fr.yields = [out]
                try:
                    self.exec_block(node.body)
                except ReturnEx:
                    pass
                finally:
                    self.pop_frame(fr)
                return out
            return self.make_gen(thunk)
        fr = Frame(name, globs, parent, vars)
        fr.node = node
        self.frames.append(fr)
        try:
            self.exec_block(node.body)
        except ReturnEx as r:
            return r.value
        finally:
            self.pop_frame(fr)
        return None

    def pop_frame(self, fr):
        while self.frames and self.frames[-1] is not fr:
            self.frames.pop()
        if self.frames:
            self.frames.pop()

    # ------------------------------------------------------------- generators
    def make_gen(self, thunk):
        fam = Family('gen', 'gen', ctx=self.ctx, thunk=thunk)
        return Ref(fam, tuple(self.ctx))

    def iter_tree(self, v):
        """Content tree of any iterable (consumes generators)."""
        v = self.force(v)
        if isinstance(v, Ref):
            k = v.fam.kind
            if k == 'list':
                return self.content(v)
            if k == 'set':
                return self.M.distinct(self, self.content(v))
            if k == 'gen':
                if not v.fam.thunk:
                    raise Unsupported('generator from elsewhere')
                p = self.has(v, '$used')
                if self.branch(p):
                    return ()
                self.write(v, '$used', True)
                r = v.fam.thunk()
                if isinstance(r, tuple):
                    return r
                return self.content(r)
            if k == 'dict':
                return self.M.dict_keys_tree(self, v)
            if k == 'map':
                return self.M.map_keys_tree(self, v)
            if k == 'obj':
                it = getattr(v.fam.cls, '__iter__', None)
                if isinstance(it, types.FunctionType):
                    return self.iter_tree(self._call(it, [v], {}))
        if isinstance(v, (tuple, list)):
            return tuple(Elem(x) for x in v)
        if isinstance(v, (set, frozenset)):
            try:
                return tuple(Elem(x) for x in sorted(v, key=lambda o: (str(type(o)), o)))
            except TypeError:
                return tuple(Elem(x) for x in v)
        if isinstance(v, dict):
            return tuple(Elem(x) for x in v)
        if isinstance(v, range):
            return tuple(Elem(x) for x in v)
        if isinstance(v, str):
            return tuple(Elem(x) for x in v)
        if hasattr(v, 'pyvc_tree'):
            return v.pyvc_tree(self)
        if v is None or isinstance(v, (int, float, SNum, SBool)):
            raise PyExc(TypeError, ('object is not iterable',))
        if hasattr(v, '__iter__') and self.M.is_concrete_iterable(v):
            return tuple(Elem(x) for x in v)
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value is not None else None)

    def x_Break(self, s):
        raise BreakEx()

    def x_Continue(self, s):
        raise ContinueEx()

    def x_Global(self, s):
        raise Unsupported('global statement')

    def x_Nonlocal(self, s):
        self.frames[-1].vars.setdefault('$nonlocal', ())
        self.frames[-1].vars['$nonlocal'] += tuple(s.names)

    def x_Import(self, s):
        raise Unsupported('import in function')

    def x_ImportFrom(self, s):
        import importlib
        fr = self.frames[-1]
        pkg = fr.globs.get('__package__')
        mod = importlib.import_module(('.' * s.level) + (s.module or ''), pkg)
        for al in s.names:
            fr.vars[al.asname or al.name] = getattr(mod, al.name)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        defaults = tuple(self.eval(d) for d in s.args.defaults)
        kwd = {p.arg: self.eval(d) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        fv = FuncVal(s, fr, fr.globs, defaults, kwd, s.name)
        for d in reversed(s.decorator_list):
            dec = self.eval(d)
            fv = self.M.decorate(self, dec, fv)
        fr.vars[s.name] = fv

    def x_If(self, s):
        if self.branch(self.cond(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def x_Assert(self, s):
        if not self.branch(self.cond(s.test)):
            raise PyExc(AssertionError, ())

    def x_Raise(self, s):
        if s.exc is None:
            if not self.excstack:
                raise PyExc(RuntimeError, ('No active exception',))
            raise self.excstack[-1]
        v = self.eval(s.exc)
        if isinstance(v, ExcVal):
            raise PyExc(v.cls, v.args, v)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, ())
        if isinstance(v, BaseException):
            raise PyExc(type(v), v.args)
        raise Unsupported('raise %r' % (v,))

    def x_Try(self, s):
        try:
            self.exec_block(s.body)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    t = self.eval(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    match = any(isinstance(c, type) and issubclass(e.cls, c) for c in ts)
                if match:
                    if h.name:
                        self.frames[-1].vars[h.name] = e.obj or ExcVal(e.cls, e.pyargs)
                    self.excstack.append(e)
                    try:
                        self.exec_block(h.body)
                    finally:
                        self.excstack.pop()
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody)
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody)
            raise
        else:
            self.exec_block(s.orelse)
        if s.finalbody:
            self.exec_block(s.finalbody)

    def x_With(self, s):
        if len(s.items) != 1:
            raise Unsupported('with')
        cm = self.eval(s.items[0].context_expr)
        enter, leave = self.M.context_manager(self, cm)
        v = enter()
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v)
        try:
            self.exec_block(s.body)
        except PyExc as e:
            if not leave(e):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave(None)
            raise
        else:
            leave(None)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.set_var(t.id, self.aug(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval_slice(t.slice)
            cur = self.subscript(obj, key)
            self.store(obj, key, self.aug(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.aug(s.op, cur, self.eval(s.value)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, cur, val):
        cur = self.force(cur)
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and cur.kind == 'list':
            self.append_nodes(cur, self.iter_tree(val))
            return cur
        return self.binop(op, cur, val)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.force(self.eval(t.value))
                key = self.eval_slice(t.slice)
                self.M.delitem(self, obj, key)
            elif isinstance(t, ast.Name):
                fr = self.frames[-1]
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_For(self, s):
        log0, self.lazylog = self.lazylog, []
        try:
            it = self.eval(s.iter)
            tree = self.iter_tree(it)
            reads = self.lazylog
        finally:
            self.lazylog = log0
        if log0 is not None:
            log0.extend(reads)
        lazy = isinstance(it, Ref) and it.kind == 'gen' or not isinstance(it, (Ref, tuple, list, dict))

        def body(v):
            h0 = self.heap
            self.assign(s.target, v)
            self.exec_block(s.body)
            if lazy and reads:
                self.check_lazy(reads, h0, v)
        body.pyvc_temps = set(assigned_names([s.target] + s.body))
        try:
            self.walk(tree, body)
        except BreakEx:
            return
        self.exec_block(s.orelse)

    def check_lazy(self, reads, h0, v):
        """The iterator was evaluated before the body; python interleaves them.
        That is the same unless the body changes what the iterator still reads:
        the body may only change the element it has been given."""
        vs = [x for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, Ref)]
        hot = {}
        for fam, key, args, ctx in reads:
            hot.setdefault(fam.id, []).append((key, args, ctx))
        for k, ups in self.heap.items():
            if k[0] not in hot or ups is h0.get(k):
                continue
            rel = [r for r in hot[k[0]] if r[0] == k[1] or r[0] == '*deep*']
            if not rel:
                continue
            tail = ups[len(h0.get(k, ())):]
            own = all(u.kind == 'set' and any(
                len(u.args) >= len(x.args) and all(eqarg(a, b) for a, b in zip(u.args, x.args)) for x in vs) for u in tail)
            if not own or not all(own_read(args, ctx) for _, args, ctx in rel):
                raise Unsupported('loop body changes what its iterator reads: %s' % (k[1],))

    def x_While(self, s):
        for _ in range(200):
            if not self.branch(self.cond(s.test)):
                self.exec_block(s.orelse)
                return
            try:
                self.exec_block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if self.branches > 20000:
                break
        raise Unsupported('while loop without a concrete bound')

    # ------------------------------------------------------------- assignment
    def set_var(self, name, v):
        fr = self.frames[-1]
        if name in fr.vars.get('$nonlocal', ()):
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_var(t.id, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            self.store(obj, self.eval_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred=False):
        v = self.force(v)
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyExc(ValueError, ('unpack',))
            return list(v)
        tree = self.iter_tree(v)
        items = []
        for node in self.flatten_tree(tree):
            items.append(node)
        if len(items) != n:
            raise PyExc(ValueError, ('unpack',))
        return items

    def flatten_tree(self, tree):
        """Elements of a tree without unbounded parts (forks on conditions)."""
        out = []
        for n in tree:
            if isinstance(n, Elem):
                out.append(n.v)
            elif isinstance(n, Cond):
                if self.branch(n.c):
                    out.extend(self.flatten_tree(n.kids))
            else:
                raise Unsupported('explicit elements of an unbounded list')
        return out

    def is_flat(self, tree):
        for n in tree:
            if isinstance(n, For):
                return False
            if isinstance(n, Cond) and not self.is_flat(n.kids):
                return False
        return True

    def store(self, obj, key, v):
        obj = self.force(obj)
        self.M.setitem(self, obj, key, v)

    def setattr(self, obj, name, v):
        obj = self.force(obj)
        if isinstance(obj, Ref) and obj.kind == 'obj':
            self.write(obj, name, v)
            return
        m = self.M.setattr_model(self, obj, name, v)
        if m:
            return
        raise Unsupported('attribute assignment on %r' % (obj,))

    # ------------------------------------------------------------ expressions
    def force(self, v):
        while isinstance(v, Late):
            v = v.force()
        if isinstance(v, _Poison):
            raise Unsupported('value carried between iterations: %s' % v.why)
        if v is ABSENT:
            raise PyExc(UnboundLocalError, ())
        return v

    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Late):
                    v = v.force()
                    if v is ABSENT:
                        raise PyExc(UnboundLocalError, (name,))
                    f.vars[name] = v
                return self.force(v)
            f = f.parent
        if fr.node is not None and isinstance(fr.node, ast.FunctionDef) and name in self.local_names(fr.node):
            raise PyExc(UnboundLocalError, (name,))
        if name in fr.globs:
            return fr.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    _locals = {}

    def local_names(self, node):
        k = id(node)
        if k not in self._locals:
            self._locals[k] = (node, set(assigned_names(node.body)))
        return self._locals[k][1]

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.flatten_tree(self.iter_tree(self.eval(x.value))))
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        nodes = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                nodes.extend(self.iter_tree(self.eval(x.value)))
            else:
                nodes.append(Elem(self.eval(x)))
        return self.new_list(nodes)

    def e_Set(self, e):
        vals = [self.eval(x) for x in e.elts]
        if self.all_concrete(vals):
            return frozenset(vals)
        return self.new_list([Elem(v) for v in vals], kind='set', name='set')

    def e_Dict(self, e):
        r = self.new_ref('dict', 'dict')
        self.note_key(r.fam, '*closed*')
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.M.dict_update(self, r, self.eval(v))
                continue
            kk = self.eval(k)
            self.store(r, kk, self.eval(v))
        return r

    def e_Lambda(self, e):
        fr = self.frames[-1]
        defaults = tuple(self.eval(d) for d in e.args.defaults)
        return FuncVal(e, fr, fr.globs, defaults, {}, '<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.M.format_value(self, self.eval(v.value), None))
        return self.M.concat_strings(self, parts)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, Ref):
            if obj.kind == 'obj':
                if self.branch(self.has(obj, name)):
                    return self.value_of(obj, name)
                c = obj.fam.cls
                try:
                    a = inspect.getattr_static(c, name)
                except AttributeError:
                    known = getattr(c, 'pyvc_partial', None)        # a stand-in for an external class
                    if known is not None and name not in known:
                        raise Unsupported('%s of the stand-in %s' % (name, c.__name__))
                    raise PyExc(AttributeError, (name,))
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundFn(a.__func__, c)
                if isinstance(a, property):
                    return self._call(a.fget, [obj], {})
                if isinstance(a, types.FunctionType):
                    return BoundFn(a, obj)
                return a
            return Method(obj, name)
        if isinstance(obj, SStr) and name == 'hex' and obj.e.decl().name().startswith('uuid!'):
            return obj
        if isinstance(obj, (SStr, SNum, SOpq, SBool, str, tuple, frozenset, set, dict, list)):
            return Method(obj, name)
        if isinstance(obj, FuncVal):
            if name == '__name__':
                return obj.name
            raise PyExc(AttributeError, (name,))
        if isinstance(obj, ExcVal):
            if name == 'args':
                return obj.args
            raise Unsupported('attribute of exception')
        if hasattr(obj, 'pyvc_getattr'):
            return obj.pyvc_getattr(self, name)
        if isinstance(obj, (Partial, BoundFn, Method)):
            raise PyExc(AttributeError, (name,))
        r = self.M.attr(self, obj, name)
        if r is not None:
            return r[0]
        try:
            return getattr(obj, name)
        except AttributeError as ex:
            raise PyExc(AttributeError, ex.args)

    def e_Subscript(self, e):
        obj = self.eval(e.value)
        return self.subscript(obj, self.eval_slice(e.slice))

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda n: None if n is None else self.eval(n)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s)

    def subscript(self, obj, key):
        obj = self.force(obj)
        return self.M.getitem(self, obj, self.force(key) if not isinstance(key, slice) else key)

    def e_Call(self, e):
        # V.* primitives and lazily evaluated helpers are ordinary models
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.flatten_tree(self.iter_tree(self.eval(a.value))))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                for kk, vv in self.M.concrete_items(self, d):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        if isinstance(fn, Method):
            return self.M.method(self, fn.obj, fn.name, args, kw)
        return self.call(fn, args, kw)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is True or is_true(c):
            return self.eval(e.body)
        if c is False or is_false(c):
            return self.eval(e.orelse)
        a = self.pure_merge(lambda: self.eval(e.body), c)
        if a is not None:
            b = self.pure_merge(lambda: self.eval(e.orelse), Not(c))
            if b is not None:
                if a[0] == 'infeasible' and isinstance(a[0], str):
                    self.assume(Not(c))
                    return b[0]
                if b[0] == 'infeasible' and isinstance(b[0], str):
                    self.assume(c)
                    return a[0]
                m = self.merge_values([(c, a[0]), (z3.BoolVal(True), b[0])])
                if m is not None:
                    return m[0]
        if self.branch(c):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def e_BoolOp(self, e):
        # value semantics: fork unless the operands are boolean
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.force(self.eval(x))
            if i == len(e.values) - 1:
                return v
            if isinstance(v, SBool):
                rest = ast.BoolOp(op=e.op, values=e.values[i + 1:]) if i + 2 < len(e.values) else e.values[i + 1]
                c = v.e if isand else Not(v.e)
                m = self.pure_merge(lambda: self.eval(rest), c)
                if m is not None:
                    if isinstance(m[0], str) and m[0] == 'infeasible':
                        return SBool(z3.BoolVal(not isand))
                    if isinstance(m[0], (bool, SBool)):
                        b = self.boo(m[0])
                        return SBool(And(v.e, b) if isand else Or(v.e, b))
                if self.branch(v.e) != isand:
                    return v if not isinstance(v, SBool) else (not isand)
                continue
            t = self.truth(v)
            if self.branch(t) != isand:
                return v
        return v

    def cond(self, e):
        """Truth value of an expression as python bool or z3 Bool."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            first = self.cond(e.values[0])
            if len(e.values) == 1:
                return first
            rest = ast.BoolOp(op=e.op, values=e.values[1:]) if len(e.values) > 2 else e.values[1]
            if first is True or is_true(first):
                return self.cond(rest) if isand else True
            if first is False or is_false(first):
                return False if isand else self.cond(rest)
            c = first if isand else Not(first)
            m = self.pure_merge(lambda: self.wrap_bool(self.cond(rest)), c)
            if m is not None:
                if isinstance(m[0], str) and m[0] == 'infeasible':
                    return z3.BoolVal(not isand)
                b = self.boo(m[0])
                return And(first, b) if isand else Or(first, b)
            if self.branch(first) != isand:
                return not isand
            return self.cond(rest)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return (not c) if isinstance(c, bool) else Not(c)
        return self.truth(self.eval(e))

    def wrap_bool(self, c):
        return c if isinstance(c, bool) else SBool(c)

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SNum):
            return z3.simplify(v.e != 0)
        if isinstance(v, SStr):
            return v.e != self.L.string('')
        if isinstance(v, SOpq):
            f = z3.Function('truth', self.L.Val, z3.BoolSort())
            return f(v.e)
        if isinstance(v, Ref):
            k = v.kind
            if k in ('list', 'set', 'map'):
                return z3.simplify(self.nonempty(self.content(v)))
            if k == 'gen':
                return True
            if k == 'dict':
                return self.M.dict_nonempty(self, v)
            if k == 'obj':
                for nm in ('__bool__', '__len__'):
                    f = getattr(v.fam.cls, nm, None)
                    if isinstance(f, types.FunctionType):
                        return self.truth(self._call(f, [v], {}))
                return True
        if isinstance(v, (FuncVal, Method, Partial, BoundFn, ExcVal)):
            return True
        if hasattr(v, 'pyvc_truth'):
            return v.pyvc_truth(self)
        if v is UNSPEC:
            raise Unsupported('truth of an unspecified value')
        return bool(v)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return (not c) if isinstance(c, bool) else SBool(Not(c))
        v = self.force(self.eval(e.operand))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SNum, SBool)):
                return SNum(-self.num(v), self.is_int(v))
            if hasattr(v, 'pyvc_binop'):
                return v.pyvc_binop(self, ast.Mult(), -1, False)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and hasattr(v, 'pyvc_invert'):
            return v.pyvc_invert(self)
        raise Unsupported('unary op')

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.M.binop(self, op, self.force(a), self.force(b))

    def e_Compare(self, e):
        left = self.force(self.eval(e.left))
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            if res is not None and not isinstance(res, bool):
                # chained comparison with symbolic prefix: operands are evaluated
                # only if the prefix holds
                rest = ast.Compare(left=ast.Constant(value=None), ops=e.ops[i:], comparators=e.comparators[i:])
            right = self.force(self.eval(r))
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                res = self.conj(res, c)
            if res is False:
                return False
            left = right
        if isinstance(res, bool):
            return res
        if isinstance(res, z3.BoolRef):
            return SBool(z3.simplify(res))
        return res

    def conj(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return And(a, b)

    def compare(self, op, a, b):
        """python bool, z3 Bool, or a vector value"""
        return self.M.compare(self, op, a, b)

    # ---------------------------------------------------------- comprehensions
    def comp_run(self, gens, emit):
        """Run nested comprehension generators."""
        fr = self.frames[-1]
        first = self.eval(gens[0].iter)
        new = Frame('<comp>', fr.globs, fr, {})
        self.frames.append(new)

        def level(i, tree):
            g = gens[i]

            def body(v):
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.branch(self.cond(c)):
                        return
                if i + 1 < len(gens):
                    level(i + 1, self.iter_tree(self.eval(gens[i + 1].iter)))
                else:
                    emit()
            names = []
            for gg in gens[i:]:
                names += assigned_names([gg.target])
            body.pyvc_temps = set(names)
            self.walk(tree, body)
        try:
            level(0, self.iter_tree(first))
        finally:
            self.pop_frame(new)

    def e_ListComp(self, e):
        out = self.new_list(name='comp')
        self.comp_run(e.generators, lambda: self.append_nodes(out, (Elem(self.eval(e.elt)),)))
        return out

    def e_SetComp(self, e):
        out = self.new_list(kind='set', name='setcomp')
        self.comp_run(e.generators, lambda: self.append_nodes(out, (Elem(self.eval(e.elt)),)))
        return out

    def e_GeneratorExp(self, e):
        fr = self.frames[-1]
        first = self.eval(e.generators[0].iter)     # evaluated immediately, as python does
        node = e

        def thunk():
            self.frames.append(fr)
            g0 = ast.comprehension(target=e.generators[0].target, iter=ast.Name(id='$first', ctx=ast.Load()),
                                   ifs=e.generators[0].ifs, is_async=0)
            outer = Frame('<genexp>', fr.globs, fr, {'$first': first})
            self.frames.append(outer)
            out = self.new_list(name='genexp')
            try:
                self.comp_run([g0] + list(e.generators[1:]),
                              lambda: self.append_nodes(out, (Elem(self.eval(e.elt)),)))
            finally:
                self.pop_frame(outer)
                self.frames.pop()
            return out
        return self.make_gen(thunk)

    def e_DictComp(self, e):
        pairs = self.new_list(name='dictcomp')

        def emit():
            k = self.eval(e.key)
            v = self.eval(e.value)
            self.append_nodes(pairs, (Elem((k, v)),))
        self.comp_run(e.generators, emit)
        return self.M.map_from_pairs(self, self.content(pairs))

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        for f in reversed(self.frames):
            if f.yields is not None:
                self.append_nodes(f.yields[0], (Elem(v),))
                return None
            if f.node is not None:
                break
        raise Unsupported('yield outside of a generator')

    def e_YieldFrom(self, e):
        t = self.iter_tree(self.eval(e.value))
        for f in reversed(self.frames):
            if f.yields is not None:
                self.append_nodes(f.yields[0], t)
                return None
        raise Unsupported('yield from')

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v
