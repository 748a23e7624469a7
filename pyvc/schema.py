# -*- coding: utf-8 -*-
"""Input schemas: one description, used for symbolic inputs (unbounded and
bounded) and for generating concrete inputs."""


class Schema:
    pass


class Const(Schema):
    def __init__(self, value):
        self.value = value


class Num(Schema):
    """axiom: z3 term -> z3 Bool, pyok: python value -> bool (same meaning)."""
    def __init__(self, isint=False, axiom=None, pool=None, integral=False):
        self.isint = isint or integral
        self.integral = integral    # an integer for the solver too
        self.axiom = axiom
        self.pool = pool


def Pos(**kw):
    return Num(axiom=lambda t: t > 0, pool='pos', **kw)


def NonNeg(**kw):
    return Num(axiom=lambda t: t >= 0, pool='nonneg', **kw)


def NonZero(**kw):
    return Num(axiom=lambda t: t != 0, pool='nonzero', **kw)


class Str(Schema):
    def __init__(self, choices=None, pool=None, nonempty=False, unique=False):
        self.unique = unique        # different elements of one list differ in it
        self.choices = choices
        self.pool = pool
        self.nonempty = nonempty


class Bool(Schema):
    pass


class Opaque(Schema):
    """A value the code under contract only moves around; gen(rng) makes one."""
    def __init__(self, gen=None):
        self.gen = gen


class Opt(Schema):
    def __init__(self, inner):
        self.inner = inner


class OneOf(Schema):
    def __init__(self, *alts):
        self.alts = alts


class Field:
    def __init__(self, schema, optional=False):
        self.schema = schema
        self.optional = optional


class Maybe:
    """Marks an optional key."""
    def __init__(self, schema):
        self.schema = schema


class Dict(Schema):
    def __init__(self, fields, extra=True):
        self.fields = {}
        for k, v in fields.items():
            self.fields[k] = Field(v.schema, True) if isinstance(v, Maybe) else Field(v)
        self.extra = extra

    def but(self, **kw):
        raise NotImplementedError

    def with_(self, fields, drop=()):
        d = Dict({}, self.extra)
        d.fields = dict(self.fields)
        for k in drop:
            d.fields.pop(k, None)
        for k, v in fields.items():
            d.fields[k] = Field(v.schema, True) if isinstance(v, Maybe) else Field(v)
        return d


class List(Schema):
    def __init__(self, elem, minlen=0, maxlen=None, fixed=None):
        self.elem = elem
        self.minlen = minlen
        self.maxlen = maxlen
        self.fixed = fixed
