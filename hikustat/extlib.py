"""What external libraries are: names are resolved to the installed objects
(never to hiku itself), for their identity, their class hierarchy and their
constants."""
import datetime
import decimal
import enum
import importlib
import inspect
import uuid
import warnings

_cache = {}
NO = object()
# immutable values of the standard library, handled as constants
VALUES = {datetime.datetime: 'datetime.datetime',
          datetime.date: 'datetime.date',
          datetime.timedelta: 'datetime.timedelta',
          decimal.Decimal: 'decimal.Decimal', uuid.UUID: 'uuid.UUID'}


def real(path):
    """the installed object a dotted path names, or NO"""
    if path in _cache:
        return _cache[path]
    r = NO
    if path.split('.')[0] not in ('hiku', 'builtins') \
            and not any(c in path for c in '()[]'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            parts = path.split('.')
            for i in range(len(parts), 0, -1):
                try:
                    m = importlib.import_module('.'.join(parts[:i]))
                except Exception:
                    continue
                try:
                    for p in parts[i:]:
                        m = getattr(m, p)
                    r = m
                except Exception:
                    pass
                break
    _cache[path] = r
    return r


def canon(path):
    """one path per object"""
    o = real(path)
    if o is NO:
        return path
    if isinstance(o, enum.Enum):
        return canon(type(o).__module__ + '.' + type(o).__qualname__) \
            + '.' + o.name
    if inspect.ismodule(o):
        return o.__name__
    if inspect.isclass(o) or inspect.isfunction(o) or inspect.isbuiltin(o):
        m, q = getattr(o, '__module__', None), getattr(o, '__qualname__', None)
        if isinstance(m, str) and isinstance(q, str):
            p = m + '.' + q
            if real(p) is o:
                return p
    return path


def is_class(path):
    o = real(path)
    return None if o is NO else inspect.isclass(o)


def mro(path):
    o = real(path)
    if o is NO or not inspect.isclass(o):
        return None
    return o.__mro__


def const(path):
    """the value of a plain constant, or NO"""
    o = real(path)
    if o is NO:
        return NO
    if o is None or type(o) in (str, int, float, bool):
        return o
    return NO
