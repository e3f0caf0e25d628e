"""Pure functions of the standard library on constant arguments."""
import datetime
import decimal
import json.encoder
import re
import uuid

from .values import *   # noqa
from . import extlib

NAMES = ('a', 'Foo', 'foo_bar2', 'camelCase', 'x1')


def install(I):
    h = I.ext_handlers
    h['re.compile'] = lambda I, a, k: pattern(I, compile_(I, a, k))
    for m in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
        h['re.' + m] = module_fn(m)


    for c in extlib.VALUES:
        h[extlib.canon(extlib.VALUES[c])] = value_fn(c)
    for n in ('strptime', 'fromisoformat'):
        h['datetime.datetime.' + n] = value_fn(
            getattr(datetime.datetime, n))
    for n in ('encode_basestring', 'encode_basestring_ascii'):
        f = getattr(json.encoder, n)
        for p in {'json.encoder.' + n, extlib.canon('json.encoder.' + n),
                  '_json.' + n, 'json.encoder.py_' + n,
                  'json.encoder.c_' + n}:
            h[p] = value_fn(f)


def value_fn(f):
    """f of constants"""
    def call(I, a, k):
        from . import models as M
        try:
            a = [M.pyconst(I, I.resolve(x)) for x in a]
            k = {n: M.pyconst(I, I.resolve(x)) for n, x in k.items()}
        except Imprecise:
            raise Imprecise('%r of an unknown value' % (f,))
        try:
            return M.lift(I, f(*a, **k))
        except decimal.DecimalException as e:
            raise I.exc('ArithmeticError', Const(str(e)))
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    return call


def compile_(I, a, k):
    p = I.resolve(a[0])
    if not isinstance(p, Const):
        raise Imprecise('regular expression %r' % (p,))
    fl = 0
    for x in list(a[1:]) + list(k.values()):
        x = I.resolve(x)
        r = extlib.real(x.path) if isinstance(x, Ext) else getattr(
            x, 'v', None)
        if not isinstance(r, int):
            raise Imprecise('regular expression flags')
        fl |= int(r)
    return re.compile(p.v, fl)


def module_fn(m):
    n = {'sub': 3, 'split': 2}.get(m, 2)

    def f(I, a, k):
        r = re.compile(I.resolve(a[0]).v) if isinstance(
            I.resolve(a[0]), Const) else None
        if r is None:
            raise Imprecise('regular expression')
        return apply(I, r, m, list(a[1:n]))
    return f


def pattern(I, r):
    attrs = {'pattern': Const(r.pattern)}
    for m in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
        attrs[m] = I.new('stub', data=lambda I, f, a, k, m=m: apply(
            I, r, m, list(a)))
    return I.new('stub', attrs=attrs)


def apply(I, r, m, a):
    a = [I.resolve(x) for x in a]
    s = a[-1]
    if all(isinstance(x, Const) for x in a):
        try:
            return lift(I, getattr(r, m)(*[x.v for x in a]))
        except TypeError as e:
            raise I.exc('TypeError', Const(str(e)))
    if m in ('match', 'search', 'fullmatch') and isinstance(s, Sym) \
            and s.ty == 'name':
        rs = {bool(getattr(r, m)(x)) for x in NAMES}
        if len(rs) == 1:
            return I.new('stub') if rs.pop() else NONE
    if m in ('match', 'search', 'fullmatch'):
        if I.decide(('rematch', r.pattern, m, I.term(s))):
            return I.new('stub')
        return NONE
    raise Imprecise('regular expression on an unknown string')


def lift(I, v):
    if v is None or isinstance(v, (str, int, float, bool)):
        return Const(v)
    if isinstance(v, list):
        return I.new_list([lift(I, x) for x in v])
    if isinstance(v, tuple):
        return Tup([lift(I, x) for x in v])
    if isinstance(v, re.Match):
        at = {}
        for m in ('group', 'groups', 'start', 'end', 'span'):
            at[m] = I.new('stub', data=lambda I, f, a, k, m=m: lift(
                I, getattr(v, m)(*[x.v for x in a])))
        return I.new('stub', attrs=at)
    raise Imprecise('result of a regular expression')
