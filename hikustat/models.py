"""Models of Python's object protocol, builtins and the parts of the standard
library the analysed program uses."""
import builtins as pyb
import enum
import inspect
import string as pystring

from .values import *   # noqa
from . import extlib, shims

BUILTIN_TYPES = ['object', 'type', 'int', 'float', 'bool', 'str', 'bytes',
                 'list', 'tuple', 'dict', 'set', 'frozenset', 'slice',
                 'property', 'classmethod', 'staticmethod', 'super',
                 'complex', 'bytearray', 'memoryview']
BUILTIN_FUNCS = ['len', 'isinstance', 'issubclass', 'getattr', 'setattr',
                 'hasattr', 'delattr', 'repr', 'hash', 'id', 'iter', 'next',
                 'zip', 'map', 'filter', 'enumerate', 'range', 'sorted',
                 'reversed', 'any', 'all', 'sum', 'min', 'max', 'abs',
                 'callable', 'print', 'eval', 'compile', 'vars', 'ord', 'chr',
                 'format', 'round', 'divmod', 'exec', '__import__', 'globals',
                 'locals', 'dir', 'open', 'input', 'pow', 'bin', 'hex', 'oct',
                 'ascii', '__build_class__', 'aiter', 'anext']
EXC = {n for n in dir(pyb) if isinstance(getattr(pyb, n), type)
       and issubclass(getattr(pyb, n), BaseException)}

# external names that behave like a modelled builtin
EXT_MAP = {
    'functools.partial': 'partial', 'functools.reduce': 'reduce',
    'functools.wraps': 'wraps', 'functools.lru_cache': 'lru_cache',
    'functools.cached_property': 'cached_property',
    'functools.update_wrapper': 'update_wrapper',
    'itertools.chain': 'chain', 'itertools.repeat': 'repeat',
    'itertools.islice': 'islice', 'itertools.count': 'count',
    'itertools.starmap': 'starmap', 
     'itertools.filterfalse': 'filterfalse',
    'collections.OrderedDict': 'OrderedDict',
    'collections.defaultdict': 'defaultdict',
    'collections.Counter': 'Counter', 'collections.deque': 'deque',
    'collections.namedtuple': 'namedtuple',
    'collections.ChainMap': 'ChainMap',
    'collections.abc.Sequence': 'abc.Sequence',
    'collections.abc.Mapping': 'abc.Mapping',
    'collections.abc.MutableMapping': 'abc.MutableMapping',
    'collections.abc.Iterable': 'abc.Iterable',
    'collections.abc.Set': 'abc.Set',
    'collections.abc.Awaitable': 'abc.Awaitable',
    'collections.abc.Hashable': 'abc.Hashable',
    'collections.abc.Callable': 'abc.Callable',
    'typing.Sequence': 'abc.Sequence', 'typing.Mapping': 'abc.Mapping',
    'contextlib.contextmanager': 'contextmanager',
    'contextlib.suppress': 'suppress',
    'contextlib.ExitStack': 'ExitStack',
    'abc.ABC': 'ABC', 'abc.ABCMeta': 'ABCMeta',
    'abc.abstractmethod': 'abstractmethod',
    'inspect.isgenerator': 'isgenerator',
    'inspect.isawaitable': 'isawaitable',
    'inspect.iscoroutinefunction': 'iscoroutinefunction',
    'asyncio.iscoroutinefunction': 'iscoroutinefunction',
    'asyncio.gather': 'gather', 'copy.copy': 'copy.copy',
    'copy.deepcopy': 'copy.deepcopy',
    'asyncio.CancelledError': 'CancelledError',
    'concurrent.futures.CancelledError': 'CancelledError',
    'enum.Enum': 'Enum', 'operator.attrgetter': 'attrgetter',
    'operator.itemgetter': 'itemgetter', 'types.GeneratorType': 'generator',
    'operator.methodcaller': 'methodcaller',
    'warnings.warn': 'warn', 'sys._getframe': '_getframe',
    'json.dumps': 'json.dumps',
}
PSEUDO_TYPES = {
    'defaultdict': ['dict'], 'OrderedDict': ['dict'], 'Counter': ['dict'],
    'deque': [], 'ABC': [], 'ABCMeta': ['type'], 'function': [],
    'generator': [], 'coroutine': [], 'NoneType': [], 'module': [],
    'partial': [], 'Enum': [], 'iterator': [], 'dictview': [],
    'abc.Sequence': [], 'abc.Mapping': [], 'abc.MutableMapping': [],
    'abc.Iterable': [], 'abc.Set': [], 'abc.Awaitable': [],
    'abc.Hashable': [], 'abc.Callable': [],
    'CancelledError': ['BaseException'], 'contextmanager': [],
    'chain': [], 'cached_property': [], 'gather': [],
}
ABSTRACT = {
    'abc.Sequence': {'list', 'tuple', 'str', 'bytes', 'deque', 'range'},
    'abc.Mapping': {'dict', 'defaultdict', 'OrderedDict', 'Counter'},
    'abc.MutableMapping': {'dict', 'defaultdict', 'OrderedDict', 'Counter'},
    'abc.Set': {'set', 'frozenset'},
    'abc.Iterable': {'list', 'tuple', 'str', 'dict', 'set', 'frozenset',
                     'generator', 'iterator', 'defaultdict', 'OrderedDict',
                     'bytes', 'deque', 'dictview'},
    'abc.Awaitable': {'coroutine', 'gather'},
}
CALLABLE_TYPES = set(BUILTIN_TYPES) | EXC | set(PSEUDO_TYPES)


def install(I):
    I.ext_const = {
        'sys.version_info': Tup([Const(3), Const(12), Const(3),
                                 Const('final'), Const(0)]),
        'string.ascii_letters': Const(pystring.ascii_letters),
        'string.digits': Const(pystring.digits),
        'string.hexdigits': Const(pystring.hexdigits),
        'string.whitespace': Const(pystring.whitespace),
        'string.punctuation': Const(pystring.punctuation),
        'string.printable': Const(pystring.printable),
        'string.ascii_lowercase': Const(pystring.ascii_lowercase),
        'string.ascii_uppercase': Const(pystring.ascii_uppercase),
    }


def builtin(I, name):
    if name in BUILTIN_TYPES or name in BUILTIN_FUNCS or name in EXC:
        return Bi(name)
    if name == 'NotImplemented':
        return Const(NotImplemented)
    if name == 'Ellipsis':
        return Const(Ellipsis)
    if name == '__debug__':
        return TRUE
    if name == '__file__':
        return Const('?')
    return None


def ext(I, path):
    if path in I.ext_const:
        return I.ext_const[path]
    if path in EXT_MAP:
        return Bi(EXT_MAP[path])
    if path.startswith('builtins.') and builtin(I, path[9:]):
        return builtin(I, path[9:])
    if path.split('.')[0] == 'hiku':
        return Ext(path)
    k = extlib.const(path)
    if k is not extlib.NO:
        return Const(k)
    p = extlib.canon(path)
    if p != path:
        if not _EXT_CANON:
            for q, b in EXT_MAP.items():
                _EXT_CANON.setdefault(extlib.canon(q), b)
        if p in I.ext_const:
            return I.ext_const[p]
        if p in _EXT_CANON:
            return Bi(_EXT_CANON[p])
        if p.startswith('builtins.') and builtin(I, p[9:]):
            return builtin(I, p[9:])
    return Ext(p)


_EXT_CANON = {}


# ---------------------------------------------------------------------------
# classes

def is_class(I, v):
    if isinstance(v, Ref):
        return I.o(v).kind == 'class'
    if isinstance(v, Bi):
        return v.name in CALLABLE_TYPES
    if isinstance(v, Ext):
        r = extlib.is_class(v.path)
        if r is not None:
            return r
        last = v.path.rsplit('.', 1)[-1]
        return last[:1].isupper()
    return False


def bi_mro(name):
    if name in PSEUDO_TYPES:
        out = [Bi(name)]
        for b in PSEUDO_TYPES[name]:
            out += [c for c in bi_mro(b) if c.name != 'object']
        return out + [Bi('object')]
    t = getattr(pyb, name, None)
    if isinstance(t, type):
        return [Bi(c.__name__) for c in t.__mro__]
    return [Bi(name), Bi('object')]


def mro(I, cls):
    if isinstance(cls, Ref):
        return I.o(cls).extra['mro']
    if isinstance(cls, Bi):
        return bi_mro(cls.name)
    return [cls, Bi('object')]


def c3(I, cls, bases):
    seqs = [list(mro(I, b)) for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise I.exc('TypeError', Const('MRO conflict'))
        out.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]


def init_subclass(I, cls, kws):
    for b in I.o(cls).extra['mro'][1:]:
        if isinstance(b, Ref):
            m = I.o(b).attrs.get('__init_subclass__')
            if m is not None:
                if isinstance(m, Ref) and I.o(m).kind == 'func':
                    I.call(m, [cls], kws)
                    return
                raise Imprecise('__init_subclass__')


def make_class(I, name, bases, ns, meta, module):
    if meta is None:
        for b in bases:
            m = type_of(I, b)
            if m != Bi('type') and not isinstance(m, Ext):
                meta = m
                break
        else:
            meta = Bi('type')
    if Bi('ABC') in bases and meta == Bi('type'):
        meta = Bi('ABCMeta')
    if isinstance(meta, Ref) and I.o(meta).kind == 'class':
        # a repo metaclass without __new__/__init__ behaves like type
        pass
    cls = I.new('class', meta, extra=None)
    o = I.o(cls)
    o.extra = {'name': name, 'bases': list(bases), 'module': module,
               'cell': None, 'mro': None}
    if not bases:
        bases = [Bi('object')]
    o.extra['mro'] = c3(I, cls, bases)
    o.attrs = dict(ns)
    if any(c == Bi('Enum') for c in o.extra['mro'][1:]) and name:
        members = I.new_dict()
        for k, v in list(ns.items()):
            if k.startswith('_') or isinstance(v, Ref) and \
                    I.o(v).kind in ('func', 'prop', 'cm_', 'sm'):
                continue
            m = I.new('inst', cls)
            I.o(m).attrs.update({'name': Const(k), 'value': v,
                                 '_name_': Const(k), '_value_': v})
            I.o(cls).attrs[k] = m
            setitem(I, members, v, m)
        I.o(cls).attrs['_value2member_map_'] = members
    for k, v in list(ns.items()):
        if isinstance(v, Ref) and I.o(v).kind == 'inst':
            m = find_method(I, v, '__set_name__')
            if m:
                I.call(m, [cls, Const(k)], {})
    return cls


def cls_name(I, c):
    if isinstance(c, Ref):
        return I.o(c).extra['name']
    if isinstance(c, Bi):
        return c.name
    if isinstance(c, Ext):
        return c.path
    return repr(c)


def type_of(I, v):
    if isinstance(v, Const):
        if v.v is None:
            return Bi('NoneType')
        if type(v.v) in extlib.VALUES:
            return Ext(extlib.canon(extlib.VALUES[type(v.v)]))
        return Bi(type(v.v).__name__)
    if isinstance(v, Tup):
        return Bi('tuple')
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'class':
            return o.cls
        return o.cls if o.cls is not None else Bi('object')
    if isinstance(v, Bound):
        return Bi('method')
    if isinstance(v, BoundM):
        return Bi('builtin_function_or_method')
    if isinstance(v, Bi):
        return Bi('type') if is_class(I, v) else Bi('builtin_function')
    if isinstance(v, IDict):
        return Bi('dict')
    if isinstance(v, Sym):
        if v.ty in ('str', 'name'):
            return Bi('str')
        if v.ty in ('int', 'float', 'bool'):
            return Bi(v.ty)
        return Sym(('type', v.term), 'obj')
    if isinstance(v, Ext):
        r = extlib.real(v.path)
        if r is not extlib.NO and not inspect.isclass(r) \
                and not inspect.ismodule(r):
            c = type(r)
            return ext(I, c.__module__ + '.' + c.__qualname__)
        return Ext('type(%s)' % v.path)
    return Bi('object')


def issubclass_(I, c, k):
    """c, k class values -> bool or None"""
    if isinstance(k, Tup):
        rs = [issubclass_(I, c, x) for x in k.items]
        if True in rs:
            return True
        return None if None in rs else False
    if isinstance(k, Bi) and k.name == 'object':
        return True
    m = mro(I, c)
    if k in m:
        return True
    if isinstance(k, Bi) and k.name in ABSTRACT:
        for x in m:
            if isinstance(x, Bi) and x.name in ABSTRACT[k.name]:
                return True
            if isinstance(x, Bi) and x.name == 'abc.Mapping' and k.name in (
                    'abc.Mapping', 'abc.Iterable'):
                return True
        if k.name == 'abc.Awaitable' and any(
                isinstance(x, Ref) and '__await__' in I.o(x).attrs
                for x in m):
            return True
        if k.name == 'abc.Iterable' and any(
                isinstance(x, Ref) and '__iter__' in I.o(x).attrs
                for x in m):
            return True
        return False
    if isinstance(k, Bi) and k.name == 'abc.Callable':
        return any(isinstance(x, Ref) and '__call__' in I.o(x).attrs
                   for x in m)
    # class hierarchies of external libraries are declared by the drivers
    if isinstance(k, Ext):
        if any(isinstance(x, Ext) and k.path in
               I.__dict__.get('ext_bases', {}).get(x.path, ())
               for x in m):
            return True
        rk = extlib.real(k.path)
        return rk is not extlib.NO and any(
            rk in (extlib.mro(x.path) or ()) for x in m
            if isinstance(x, Ext))
    if isinstance(k, Bi) and any(isinstance(x, Ext) for x in m):
        rk = getattr(pyb, k.name, None)
        return isinstance(rk, type) and any(
            rk in (extlib.mro(x.path) or ()) for x in m
            if isinstance(x, Ext))
    return False


def class_disjoint(I, known, asked):
    """isinstance(t, known) holds: what about isinstance(t, asked)?
    class keys are strings (builtin) or oids"""
    if known == asked:
        return True
    if isinstance(known, str) and isinstance(asked, str):
        if known.startswith('ext:') or asked.startswith('ext:'):
            return None
        r = issubclass_(I, Bi(known), Bi(asked))
        if r:
            return True
        if asked in ABSTRACT or known in ABSTRACT:
            return None if known in ABSTRACT else False
        if issubclass_(I, Bi(asked), Bi(known)):
            return None
        return False
    if isinstance(known, int) and isinstance(asked, int):
        r = issubclass_(I, Ref(known), Ref(asked))
        if r:
            return True
        return None
    if isinstance(known, int):
        if asked == 'object':
            return True
        r = issubclass_(I, Ref(known), Bi(asked)) \
            if not asked.startswith('ext:') else None
        return r
    if isinstance(asked, int):
        if known in ('NoneType', 'bool', 'int', 'float', 'str', 'list',
                     'dict', 'set', 'tuple'):
            if known in ('NoneType', 'bool'):
                return False
            r = issubclass_(I, Ref(asked), Bi(known))
            return None if r else False
    return None


def cls_key(I, c):
    if isinstance(c, Ref):
        return c.oid
    if isinstance(c, Bi):
        return c.name
    if isinstance(c, Ext):
        return 'ext:' + c.path
    raise Imprecise('isinstance class')


SYM_TY = {'str': 'str', 'name': 'str', 'int': 'int', 'float': 'float',
          'bool': 'bool'}


def isinstance_(I, v, cls):
    v = I.resolve(v)
    if isinstance(cls, Tup):
        for c in cls.items:
            if isinstance_(I, v, c):
                return True
        return False
    if isinstance(cls, Sym) or not is_class(I, cls):
        if isinstance(cls, Ref) or isinstance(cls, (Const, Sym)):
            if isinstance(cls, Ref) and I.o(cls).kind == 'list':
                raise I.exc('TypeError', Const('isinstance arg 2'))
            raise Imprecise('isinstance with %r' % (cls,))
    if isinstance(v, Sym):
        t = SYM_TY.get(v.ty)
        if t is not None:
            return bool(issubclass_(I, Bi(t), cls))
        if v.ty == 'any' or v.ty is None:
            if cls == Bi('object'):
                return True
            return I.decide(('isinst', v.term, cls_key(I, cls)))
        hook = I.__dict__.get('sym_isinstance')
        if hook is not None:
            r = hook(I, v, cls)
            if r is not None:
                return r
        return False
    if isinstance(v, Ref) and I.o(v).kind == 'stub':
        o = I.o(v)
        if o.cls is None:
            return cls == Bi('object')
    return bool(issubclass_(I, type_of(I, v), cls))


# ---------------------------------------------------------------------------
# attribute access

def class_attr(I, cls, name):
    for c in mro(I, cls):
        if isinstance(c, Ref):
            a = I.o(c).attrs
            if name in a:
                return a[name], c
    return None, None


def bind_desc(I, a, obj, owner):
    """apply the descriptor protocol to class attribute `a`"""
    if isinstance(a, Ref):
        o = I.o(a)
        if o.kind == 'func':
            return Bound(a, obj) if obj is not None else a
        if o.kind == 'prop':
            if obj is None:
                return a
            return I.call(o.data[0], [obj], {})
        if o.kind == 'cmeth':
            return Bound(o.data, owner)
        if o.kind == 'smeth':
            return o.data
        if o.kind == 'cprop':
            if obj is None:
                return a
            v = I.call(o.data, [obj], {})
            I.wr(obj.oid, o.extra)
            I.w(obj.oid, '$cache').attrs[o.extra] = v
            return v
        if o.kind == 'inst':
            m = find_method(I, a, '__get__')
            if m is not None:
                return I.call(m, [obj if obj is not None else NONE, owner],
                              {})
        if o.kind == 'lru':
            return Bound(a, obj) if obj is not None else a
    if isinstance(a, Bi) and a.name not in CALLABLE_TYPES and \
            '.' not in a.name:
        return a
    if isinstance(a, Bi) and '.' in a.name and obj is not None:
        return BoundM(obj, a.name.split('.', 1)[1])
    return a


def find_method(I, v, name):
    """bound special method defined by repo classes (not builtins)"""
    if not isinstance(v, Ref):
        return None
    o = I.o(v)
    if o.kind in ('frame', 'module', 'func', 'gen', 'iter', 'coro', 'stub',
                  'partial'):
        return None
    cls = o.cls
    if cls is None or isinstance(cls, (Bi, Ext)):
        return None
    a, c = class_attr(I, cls, name)
    if a is None or isinstance(a, Const):
        return None
    return bind_desc(I, a, v, cls)


MISSING = object()


def getattr_(I, v, name, default=MISSING):
    r = lookup_attr(I, v, name)
    if r is MISSING:
        if default is not MISSING:
            return default
        raise I.exc('AttributeError', Const('%s object has no attribute %r'
                                            % (cls_name(I, type_of(I, v)),
                                               name)))
    return r


def lookup_attr(I, v, name):
    if isinstance(v, Sym):
        return sym_attr(I, v, name)
    if isinstance(v, Ref):
        o = I.o(v)
        k = o.kind
        if k == 'module':
            fo = I.heap[o.extra[1]]
            if name in fo.attrs:
                return fo.attrs[name]
            return MISSING
        if k == 'class':
            return class_getattr(I, v, name)
        if k == 'func':
            return func_attr(I, v, o, name)
        if k == 'stub':
            I.rd(v.oid, name)
            if name in o.attrs:
                return o.attrs[name]
            if o.extra and o.extra.get('getattr'):
                r = o.extra['getattr'](I, v, name)
                if r is not None:
                    return r
            if o.data is not None and name == '__call__':
                return v
            return MISSING
        if k == 'partial':
            if name in o.attrs:
                return o.attrs[name]
            if name == 'func':
                return o.data[0]
            if name == 'args':
                return Tup(o.data[1])
            return MISSING
        if k == 'prop':
            if name in ('setter', 'getter', 'deleter'):
                return BoundM(v, name)
            if name == 'fget':
                return o.data[0]
            return MISSING
        cls = o.cls
        if name == '__class__':
            return cls
        if name == '__dict__':
            return IDict(v.oid)
        a, owner = (None, None)
        if isinstance(cls, Ref):
            if name == '__getattribute__':
                return MISSING
            a, owner = class_attr(I, cls, name)
            if a is not None and isinstance(a, Ref) \
                    and I.o(a).kind == 'prop':
                return bind_desc(I, a, v, cls)
            if a is not None and isinstance(a, Ref) and \
                    I.o(a).kind == 'inst' and find_method(
                        I, a, '__set__') is not None:
                return bind_desc(I, a, v, cls)
        if name in o.attrs:
            I.rd(v.oid, name)
            return o.attrs[name]
        I.rd(v.oid, name)
        if a is not None:
            return bind_desc(I, a, v, cls)
        r = payload_attr(I, v, o, name)
        if r is not MISSING:
            return r
        if isinstance(cls, Ref):
            g, _ = class_attr(I, cls, '__getattr__')
            if g is not None:
                try:
                    return I.call(Bound(g, v), [Const(name)], {})
                except AbsRaise as e:
                    if isinstance_(I, e.val, Bi('AttributeError')):
                        I.last_attr_error = e
                        return MISSING
                    raise
            if any(isinstance(c, Ext) for c in mro(I, cls)):
                return Sym(('attr', ('o', v.oid), name), 'any')
        if isinstance(cls, Ext):
            if o.extra == 'closed':
                return MISSING
            return Sym(('attr', ('o', v.oid), name), 'any')
        return MISSING
    if isinstance(v, Const):
        if v.v is None:
            if name == '__class__':
                return Bi('NoneType')
            return MISSING
        if name == '__class__':
            return type_of(I, v)
        if type(v.v) in extlib.VALUES and hasattr(v.v, name) and \
                not callable(getattr(v.v, name)):
            return lift(I, getattr(v.v, name))
        if hasattr(type(v.v), name) and not name.startswith('__'):
            return BoundM(v, name)
        if name in ('__doc__', '__name__'):
            return MISSING
        if hasattr(v.v, name):
            return BoundM(v, name)
        return MISSING
    if isinstance(v, Tup):
        if name == '__class__':
            return Bi('tuple')
        if hasattr(tuple, name):
            return BoundM(v, name)
        return MISSING
    if isinstance(v, Super):
        return super_attr(I, v, name)
    if isinstance(v, Bound):
        if name in ('__func__',):
            return v.func
        if name in ('__self__',):
            return v.self_
        return lookup_attr(I, v.func, name)
    if isinstance(v, Bi):
        return bi_attr(I, v, name)
    if isinstance(v, Ext):
        if name == '__name__':
            return Const(v.path.rsplit('.', 1)[-1])
        if name in ('value', 'name'):
            r = extlib.real(v.path)
            if isinstance(r, enum.Enum):
                r = getattr(r, name)
                if r is None or type(r) in (str, int, float, bool):
                    return Const(r)
        for h in I.attr_hooks:
            r = h(I, v, name)
            if r is not None:
                return r
        return ext(I, v.path + '.' + name)
    if isinstance(v, IDict):
        return BoundM(v, name)
    if isinstance(v, BoundM):
        if name == '__self__':
            return v.recv
        if name == '__name__':
            return Const(v.name)
        return MISSING
    return MISSING


def func_attr(I, v, o, name):
    if name in o.attrs:
        return o.attrs[name]
    if name == '__name__':
        return Const(o.extra['name'])
    if name == '__qualname__':
        return Const(o.extra['qual'])
    if name == '__module__':
        return Const(o.extra['module'])
    if name == '__doc__':
        import ast
        n = o.extra['node']
        return Const(ast.get_docstring(n)
                     if not isinstance(n, ast.Lambda) else None)
    if name == '__dict__':
        return IDict(v.oid)
    if name == '__class__':
        return Bi('function')
    if name == '__get__':
        return BoundM(v, name)
    if name == '__call__':
        return v
    return MISSING


def class_getattr(I, v, name):
    o = I.o(v)
    if name == '__dict__':
        return IDict(v.oid)
    if name == '__name__' and '__name__' not in o.attrs:
        return Const(o.extra['name'])
    if name == '__qualname__':
        return Const(o.extra['name'])
    if name == '__bases__':
        return Tup(o.extra['bases'])
    if name == '__mro__':
        return Tup(o.extra['mro'])
    if name == '__class__':
        return o.cls
    if name == '__module__' and '__module__' not in o.attrs:
        return Const(o.extra['module'])
    meta = o.cls
    ma, _ = class_attr(I, meta, name) if isinstance(meta, Ref) \
        else (None, None)
    if ma is not None and isinstance(ma, Ref) and I.o(ma).kind == 'prop':
        return bind_desc(I, ma, v, meta)
    I.rd(v.oid, name)
    a, owner = class_attr(I, v, name)
    if a is not None:
        return bind_desc(I, a, None, v)
    if ma is not None:
        return bind_desc(I, ma, v, meta)
    for c in o.extra['mro']:
        if isinstance(c, Bi):
            r = bi_attr(I, c, name)
            if r is not MISSING:
                return r
        if isinstance(c, Ext):
            return Ext(c.path + '.' + name)
    if isinstance(meta, Ref):
        g, _ = class_attr(I, meta, '__getattr__')
        if g is not None:
            return I.call(Bound(g, v), [Const(name)], {})
    return MISSING


TYPE_METHODS = {
    'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset,
    'tuple': tuple, 'str': str, 'object': object, 'int': int,
    'float': float, 'type': type, 'bytes': bytes, 'bool': bool,
}


def bi_attr(I, v, name):
    if name == '__name__':
        return Const(v.name.rsplit('.', 1)[-1])
    if name in ('__module__',):
        return Const('builtins')
    if name == '__class__':
        return type_of(I, v)
    if v.name == 'chain' and name == 'from_iterable':
        return Bi('chain_from_iterable')
    if v.name in EXC and name in ('__init__', '__new__', '__str__',
                                  '__repr__'):
        return Bi('exc.' + name)
    base = {'defaultdict': dict, 'OrderedDict': dict, 'Counter': dict,
            'deque': list, 'ABC': object, 'ABCMeta': type,
            'Enum': object}.get(v.name) or TYPE_METHODS.get(v.name)
    if base is not None and hasattr(base, name):
        return Bi('%s.%s' % (v.name, name))
    if v.name == 'abc.Mapping' and name in ('get', 'keys', 'items', 'values',
                                            '__contains__', '__eq__'):
        return Bi('abc.Mapping.' + name)
    if v.name in CALLABLE_TYPES and name in (
            '__init__', '__new__', '__repr__', '__eq__', '__hash__',
            '__str__', '__setattr__', '__getattribute__', '__ne__'):
        return Bi('object.' + name)
    return MISSING


def payload_attr(I, v, o, name):
    """methods inherited from builtin bases"""
    k = o.kind
    if k == 'list':
        if hasattr(list, name) or o.cls is not None and name in (
                'appendleft', 'popleft', 'extendleft', 'rotate'):
            return BoundM(v, name)
    elif k == 'dict':
        if name == 'default_factory':
            return o.extra if o.extra is not None else NONE
        if hasattr(dict, name) or name in ('move_to_end', 'most_common',
                                           'elements', 'subtract'):
            return BoundM(v, name)
    elif k == 'set':
        if hasattr(set, name):
            return BoundM(v, name)
    elif k == 'strval':
        if hasattr(str, name):
            return BoundM(v, name)
    elif k == 'ntuple':
        if name == '_fields':
            return Tup([Const(f) for f in o.extra])
        if name in ('_replace', '_asdict') or hasattr(tuple, name):
            return BoundM(v, name)
    elif k in ('gen', 'iter'):
        if name in ('__next__', '__iter__', 'send', 'close', 'throw'):
            return BoundM(v, name)
    elif k in ('coro', 'cm', 'frame'):
        return BoundM(v, name)
    elif k == 'inst':
        # object methods / exception attributes
        if name in ('__init__', '__repr__', '__eq__', '__hash__', '__str__',
                    '__ne__', '__setattr__', '__getattribute__',
                    '__init_subclass__', '__reduce__', '__format__'):
            return BoundM(v, name)
        if name == '__doc__':
            return NONE
        if name == '__module__' and isinstance(o.cls, Ref):
            return Const(I.o(o.cls).extra['module'])
        if isinstance(o.cls, Ref):
            for c in mro(I, o.cls):
                if isinstance(c, Bi) and c.name == 'abc.Mapping' and name in (
                        'get', 'keys', 'items', 'values'):
                    return BoundM(v, 'Mapping.' + name)
    return MISSING


def sym_attr(I, v, name):
    for h in I.attr_hooks:
        r = h(I, v, name)
        if r is not None:
            return r
    if v.ty in ('str', 'name'):
        if hasattr(str, name):
            return BoundM(v, name)
        return MISSING
    if v.ty in ('int', 'float', 'bool'):
        return BoundM(v, name) if hasattr(int, name) else MISSING
    if name == '__class__':
        return type_of(I, v)
    return Sym(('attr', v.term, name), 'any')


def hasattr_(I, v, name):
    if isinstance(v, Sym) and v.ty not in ('str', 'name', 'int', 'float',
                                           'bool'):
        for h in I.attr_hooks:
            r = h(I, v, name)
            if r is not None:
                return r is not MISSING
        return I.decide(('hasattr', v.term, name))
    try:
        return lookup_attr(I, v, name) is not MISSING
    except AbsRaise as e:
        if isinstance_(I, e.val, Bi('AttributeError')):
            return False
        raise


def setattr_(I, v, name, val):
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'module':
            I.wr(o.extra[1], name)
            I.setvar_raw(o.extra[1], name, val)
            return
        if o.kind == 'dict' and name == 'default_factory':
            o = I.w(v.oid, name)
            o.extra = None if val == NONE else val
            I.wr(v.oid, name)
            return
        if isinstance(o.cls, Ref):
            a, _ = class_attr(I, o.cls, name)
            if isinstance(a, Ref) and I.o(a).kind == 'prop':
                st = I.o(a).data[1]
                if st is None:
                    raise I.exc('AttributeError', Const(name))
                I.call(st, [v, val], {})
                return
            if isinstance(a, Ref) and I.o(a).kind == 'inst':
                m = find_method(I, a, '__set__')
                if m is not None:
                    I.call(m, [v, val], {})
                    return
            s, _ = class_attr(I, o.cls, '__setattr__')
            if s is not None and not isinstance(s, Bi):
                I.call(Bound(s, v), [Const(name), val], {})
                return
        I.wr(v.oid, name)
        I.w(v.oid, name).attrs[name] = val
        return
    if isinstance(v, Sym):
        I.trace.append(Event('setattr', (v, name, val), I.site()))
        return
    if isinstance(v, (Bound, BoundM, Const, Tup, Bi)):
        if isinstance(v, BoundM) and isinstance(v.recv, Sym):
            return
        raise I.exc('AttributeError', Const(name))
    if isinstance(v, Ext):
        return
    raise Imprecise('setattr on %r' % (v,))


def delattr_(I, v, name):
    if isinstance(v, Ref):
        if name not in I.o(v).attrs:
            raise I.exc('AttributeError', Const(name))
        I.wr(v.oid, name)
        del I.w(v.oid, name).attrs[name]
        return
    raise Imprecise('delattr')


def super0(I, fr):
    f = fr
    cell = fr.cls_cell
    if cell is None or cell[0] is None:
        raise Imprecise('super() outside of a class')
    # comprehension frames keep self_ of the function
    return Super(cell[0], fr.self_)


def super_attr(I, v, name):
    obj = v.obj
    if isinstance(obj, Ref) and I.o(obj).kind == 'class' and \
            issubclass_(I, obj, v.cls):
        m = mro(I, obj)
        inst = None
        owner = obj
    else:
        owner = type_of(I, obj)
        m = mro(I, owner)
        inst = obj
    i = m.index(v.cls) if v.cls in m else -1
    for c in m[i + 1:]:
        if isinstance(c, Ref):
            a = I.o(c).attrs
            if name in a:
                if name == '__new__':
                    return a[name]
                return bind_desc(I, a[name], inst, owner)
        elif isinstance(c, Bi):
            r = bi_attr(I, c, name)
            if r is not MISSING:
                if name == '__new__':
                    return r
                if inst is None:
                    return r
                if isinstance(r, Bi):
                    return Super_bound(r, inst)
                return r
        elif isinstance(c, Ext):
            return Sym(('super', c.path, name), 'callable')
    return MISSING


def Super_bound(bi, inst):
    return Bound(bi, inst)


# ---------------------------------------------------------------------------
# sequences

def segs_of(I, v):
    """all segments of an iterable, forcing generators"""
    v = I.resolve(v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind in ('list', 'set') and find_method(
                I, v, '__iter__') is None:
            I.rd(v.oid, '*')
            return list(o.data)
        if o.kind == 'ntuple':
            return list(o.data)
        if o.kind == 'iter' and o.extra is None:
            I.rd(v.oid, '*')
            d = list(o.data)
            I.wr(v.oid, '*')
            I.w(v.oid, '*').data = []
            return d
    acc = I.new_list()
    I.iterate(v, lambda x: list_append(I, acc, x))
    return list(I.o(acc).data)


def iter_source(I, v, fn):
    """list of segments to iterate over, ('live', oid), or None if the
    iteration was performed here"""
    v = I.resolve(v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v.v, (tuple, bytes)):
            return [Const(c) for c in v.v]
        raise I.exc('TypeError', Const('%r object is not iterable'
                                       % type(v.v).__name__))
    if isinstance(v, Ref):
        o = I.o(v)
        m = find_method(I, v, '__iter__')
        if m is not None and o.kind in ('inst', 'dict', 'list'):
            I.iterate(I.call(m, [], {}), fn)
            return None
        if o.kind == 'list':
            return ('live', v.oid)
        if o.kind == 'ntuple':
            return list(o.data)
        if o.kind == 'set':
            I.rd(v.oid, '*')
            return set_order(I, o.data)
        if o.kind == 'dict':
            return dict_segs(I, v, 'keys')
        if o.kind == 'view':
            return dict_segs(I, o.data[0], o.data[1])
        if o.kind == 'iter':
            if o.extra is not None:
                raise Imprecise('iteration over an infinite iterator')
            I.rd(v.oid, '*')
            d = list(o.data)
            I.wr(v.oid, '*')
            I.w(v.oid, '*').data = []
            return d
        if o.kind == 'gen' and o.extra is not None:
            while True:
                k, x = o.extra.step(NONE)
                if k == 'return':
                    return None
                fn(x)
        if o.kind == 'gen':
            if o.attrs.get('$done'):
                return []
            I.w(v.oid).attrs['$done'] = TRUE
            run_gen(I, o.data, fn)
            return None
        if o.kind == 'strval':
            return iter_source(I, o.data, fn)
        if o.kind == 'class':
            m, _ = class_attr(I, o.cls, '__iter__') \
                if isinstance(o.cls, Ref) else (None, None)
            if m is not None:
                I.iterate(I.call(Bound(m, v), [], {}), fn)
                return None
            if Bi('Enum') in o.extra['mro']:
                return [e.val for e in
                        I.o(o.attrs['_value2member_map_']).data]
        if o.kind == 'stub' and o.extra and 'iter' in o.extra:
            return o.extra['iter'](I, v)
        m = find_method(I, v, '__getitem__')
        if m is not None:
            raise Imprecise('iteration through __getitem__')
        raise I.exc('TypeError', Const('%s object is not iterable'
                                       % cls_name(I, type_of(I, v))))
    if isinstance(v, IDict):
        return [Const(k) for k in I.heap[v.oid].attrs]
    if isinstance(v, Sym):
        h = I.__dict__.get('sym_iter')
        if h is not None:
            r = h(I, v)
            if r is not None:
                return r
        if v.ty in ('int', 'float', 'bool'):
            raise I.exc('TypeError', Const('not iterable'))
        n = ('len', v.term)
        return [Star(('maybe', n), [((), [Sym(('elem', v.term, ix(
            ('maybe', n))), 'str' if v.ty in ('str', 'name') else 'any')])])]
    if isinstance(v, Ext):
        n = ('len', v.path)
        return [Star(('maybe', n), [((), [Sym(('elem', v.path, ix(
            ('maybe', n))), 'any')])])]
    raise Imprecise('iteration over %r' % (v,))


def run_gen(I, start, fn):
    """drive a generator; control leaving the consumer must not be taken
    for control inside of the generator"""
    me = object()
    depth, slen, stack = I.depth, len(I.stack), list(I.stack)

    def cb(x):
        inner = list(I.stack)
        I.stack[:] = stack
        try:
            return fn(x)
        except (Brk, Ret, Cont, AbsRaise, Stop) as e:
            raise Through(e, me)
        finally:
            I.stack[:] = inner
    try:
        start(cb)
    except Through as t:
        if t.owner is me:
            I.stack[:] = stack
            I.depth = depth
            raise t.inner
        raise


def set_order(I, data):
    if len(data) > 1 and not all(isinstance(x, Const) for x in data):
        if I.facts.get(('setorder', 'rev')) is None and not I.open:
            I.facts[('setorder', 'rev')] = bool(I.choose(2))
        if I.facts.get(('setorder', 'rev')):
            return list(reversed(data))
    return list(data)


def dict_segs(I, ref, what):
    o = I.o(ref)
    I.rd(ref.oid, '*')
    out = []

    def item(e):
        if what == 'keys':
            return e.key
        if what == 'values':
            return e.val
        return Tup([e.key, e.val])
    for e in o.data:
        if e.n is None:
            g = [x for x in e.guard if x[0] == 'some']
            if g:
                if not I.decide(('present', I.term(e.key)) + tuple(
                        I.canon(x, {}) for x in e.guard)):
                    continue
            out.append(item(e))
        else:
            seg = item(e)
            ns = list(e.n)
            g = tuple(x for x in e.guard if x[0] != 'some')
            star = Star(ns[0], [(g, [seg])] + ([((), [])] if g else []))
            for n in ns[1:]:
                star = Star(n, [((), [star])])
            out.append(star)
    return out


def range_segs(I, n):
    from .builtins_ import do_range
    return do_range(I, [n])


def exact_items(I, v, want=None, atleast=0):
    """list of exact items; splits star sequences of unknown length when a
    definite number is asked for"""
    segs = segs_of(I, v)
    if not any(isinstance(s, Star) for s in segs):
        return [I.resolve(s) for s in segs]
    if want is not None:
        # a sequence of unknown length unpacked into `want` targets
        nex = sum(1 for s in segs if not isinstance(s, Star))
        st = [s for s in segs if isinstance(s, Star)]
        if len(st) == 1 and st[0].simple and want > nex:
            if I.decide(('eq', ('lenof', st[0].n), ('c', 'int',
                                                    want - nex))):
                out = []
                for s in segs:
                    if isinstance(s, Star):
                        for i in range(want - nex):
                            out.append(I.subst(s.variants[0][1][0],
                                               ix(s.n),
                                               ix(('nth', s.n, i))))
                    else:
                        out.append(s)
                return out
        least = nex + sum(1 for s in st if s.uniform)
        if want < least:
            raise I.exc('ValueError', Const('too many values to unpack'))
    raise Imprecise('exact items of a sequence of unknown length')


def list_append(I, ref, v):
    I.wr(ref.oid, '+', strong=False)
    I.w(ref.oid, '+').data.append(v)


def list_extend(I, ref, v):
    if isinstance(v, Ref) and I.o(v).kind in ('list', 'iter') or \
            isinstance(v, Tup):
        segs = segs_of(I, v)
        I.wr(ref.oid, '+', strong=False)
        I.w(ref.oid, '+').data.extend(segs)
    else:
        I.iterate(v, lambda x: list_append(I, ref, x))


def length(I, v):
    v = I.resolve(v)
    if isinstance(v, Const):
        if not hasattr(v.v, '__len__'):
            raise I.exc('TypeError', Const('object of type %r has no len()'
                                           % type(v.v).__name__))
        return Const(len(v.v))
    if isinstance(v, IDict):
        return Const(len(I.heap[v.oid].attrs))
    if isinstance(v, Sym):
        if v.ty in ('int', 'float', 'bool'):
            raise I.exc('TypeError', Const('no len()'))
        return Sym(('lin', ((('len', v.term), 1),), 0, None), 'int')
    if isinstance(v, Ref):
        m = find_method(I, v, '__len__')
        if m is not None:
            return I.call(m, [], {})
        o = I.o(v)
        if o.kind == 'strval':
            return length(I, o.data)
        if o.kind in ('list', 'set', 'dict'):
            I.rd(v.oid, '*')
            return segs_len(I, o.data)
        if o.kind == 'view':
            return length(I, o.data[0])
        if o.kind == 'ntuple':
            return Const(len(o.data))
        if o.kind == 'stub' and o.extra and 'len' in o.extra:
            return o.extra['len'](I, v)
        raise I.exc('TypeError', Const('object of type %r has no len()'
                                       % cls_name(I, type_of(I, v))))
    if isinstance(v, Tup):
        return segs_len(I, v.items)
    raise I.exc('TypeError', Const('no len()'))


def shape(segs):
    """how many elements a sequence has, not which"""
    return tuple(
        ('*', count_name(s.n), tuple((g, shape(b)) for g, b in s.variants))
        if isinstance(s, Star) else
        ('*', s.n, s.guard) if isinstance(s, DEntry) and (s.n or s.guard)
        else 1 for s in segs)


def segs_len(I, segs):
    k = 0
    coef = {}
    lay = []
    for s in segs:
        if isinstance(s, Star):
            if s.uniform:
                coef[('n', count_name(s.n))] = coef.get(('n', count_name(s.n)), 0) + 1
                lay.append(s.n)
            else:
                lens = [segs_len(I, b) for g, b in s.variants]
                if len(lens) == 1 and isinstance(lens[0], Const):
                    coef[('n', count_name(s.n))] = coef.get(
                        ('n', count_name(s.n)), 0) + lens[0].v
                else:
                    key = ('count', shape([s]))
                    coef[key] = coef.get(key, 0) + 1
                lay.append(nested_lay(s))
        elif isinstance(s, DEntry) and (s.n or s.guard):
            if s.n and not s.guard and len(s.n) == 1:
                coef[('n', s.n[0])] = coef.get(('n', s.n[0]), 0) + 1
            else:
                key = ('count', I.canon(s, {}))
                coef[key] = coef.get(key, 0) + 1
            lay.append(None)
        else:
            k += 1
            lay.append(1)
    return mk_lin(coef, k, tuple(lay))


def nested_lay(s):
    if not isinstance(s, Star):
        return 1
    return ('blk', s.n, tuple((g, tuple(nested_lay(x) for x in b))
                              for g, b in s.variants))


def flat_lay(lay):
    return bool(lay) and not any(
        x is None or isinstance(x, tuple) and x[0] == 'blk' for x in lay)


def mk_lin(coef, k, lay=None):
    coef = {t: c for t, c in coef.items() if c}
    if not coef:
        return Const(k)
    return Sym(('lin', tuple(sorted(coef.items(), key=repr)), k, lay), 'int')


def lin_parts(I, v):
    """(coef dict, const) or None"""
    if isinstance(v, Const) and isinstance(v.v, (int, float)):
        return {}, v.v
    if isinstance(v, Sym):
        if v.term[0] == 'lin':
            return dict(v.term[1]), v.term[2]
        if v.ty == 'int':
            return {v.term: 1}, 0
    return None


def lin_cmp(I, a, b, op):
    """compare two lin terms; None if unknown"""
    def parts(t):
        if t[0] == 'lin':
            d, k = {}, t[2]
            for u, c in t[1]:
                while u[0] == 'n' and isinstance(u[1], tuple) and \
                        u[1][0] == 'rest':      # all but the first
                    u = ('n', unprime(u[1][1]))
                    k -= c
                d[u] = d.get(u, 0) + c
            return d, k
        if t[0] == 'c':
            return {}, t[-1]
        return {t: 1}, 0
    ca, ka = parts(a)
    cb, kb = parts(b)
    d = dict(ca)
    for t, c in cb.items():
        d[t] = d.get(t, 0) - c
    d = {t: c for t, c in d.items() if c}
    k = ka - kb

    def mn(t):      # lower bound of a unit
        if t[0] == 'n':
            return 0 if isinstance(t[1], tuple) and t[1][0] in (
                'rest', 'pre', 'maybe') else 1
        if t[0] in ('count', 'len'):
            return 0
        return None
    if not d:
        if op == 'eq':
            return k == 0
        return k < 0 if op == 'lt' else k <= 0
    los = [mn(t) for t in d]
    if all(x is not None for x in los):
        if all(c > 0 for c in d.values()):
            lo = k + sum(c * m for c, m in zip(d.values(), los))
            if op == 'eq':
                if lo > 0:
                    return False
            elif op == 'lt' and lo >= 0:
                return False
            elif op == 'le' and lo > 0:
                return False
        elif all(c < 0 for c in d.values()):
            hi = k + sum(c * m for c, m in zip(d.values(), los))
            if op == 'eq':
                if hi < 0:
                    return False
            elif op == 'lt' and hi < 0:
                return True
            elif op == 'le' and hi <= 0:
                return True
    return I.facts.get(('lin' + op, tuple(sorted(d.items(), key=repr)), k))


def order(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return Const({'Lt': lambda: a.v < b.v, 'LtE': lambda: a.v <= b.v,
                          'Gt': lambda: a.v > b.v,
                          'GtE': lambda: a.v >= b.v}[op]())
        except TypeError as e:
            raise I.exc('TypeError', Const(str(e)))
    if isinstance(a, Tup) and isinstance(b, Tup):
        for x, y in zip(a.items, b.items):
            if not I.eq(x, y):
                return order(I, op, x, y)
        return order(I, op, Const(len(a.items)), Const(len(b.items)))
    if op in ('Gt', 'GtE'):
        return order(I, {'Gt': 'Lt', 'GtE': 'LtE'}[op], b, a)
    pa, pb_ = lin_parts(I, a), lin_parts(I, b)
    if pa is not None and pb_ is not None:
        o = 'lt' if op == 'Lt' else 'le'
        ta = ('lin', tuple(pa[0].items()), pa[1], None)
        tb = ('lin', tuple(pb_[0].items()), pb_[1], None)
        r = lin_cmp(I, ta, tb, o)
        if r is None:
            d = dict(pa[0])
            for t, c in pb_[0].items():
                d[t] = d.get(t, 0) - c
            d = {t: c for t, c in d.items() if c}
            r = I.decide(('lin' + o, tuple(sorted(d.items(), key=repr)),
                          pa[1] - pb_[1]))
        return Const(r)
    m = {'Lt': '__lt__', 'LtE': '__le__'}[op]
    for x, y, mm in ((a, b, m), (b, a, {'__lt__': '__gt__',
                                        '__le__': '__ge__'}[m])):
        f = find_method(I, x, mm)
        if f is not None:
            return I.call(f, [y], {})
    if isinstance(a, Ref) and I.o(a).kind == 'set' or isinstance(b, Ref) \
            and I.o(b).kind == 'set':
        x, y = segs_of(I, a), segs_of(I, b)
        if any(isinstance(s, Star) for s in x + y):
            raise Imprecise('order of sets')
        r = all(any(I.eq(p, q) for q in y) for p in x)
        return Const(r and (op == 'LtE' or len(x) < len(y)))
    for x in (a, b):
        if isinstance(x, Const) and x.v is None:
            raise I.exc('TypeError', Const('not orderable'))
        if isinstance(x, Ref) and I.o(x).kind in ('inst', 'class', 'dict'):
            raise I.exc('TypeError', Const('not orderable'))
    return Const(I.decide((op, I.term(a), I.term(b))))


def align_heads(I, a, b):
    """split the collections one of the lists holds in two parts"""
    from .builtins_ import elem_of
    i = 0
    while i < len(a) and i < len(b):
        for p, q in ((a, b), (b, a)):
            h = q[i]
            if isinstance(h, Star) and h.uniform and not h.variants[1:] \
                    and not isinstance(p[i], Star) and i + 1 < len(p) \
                    and isinstance(p[i + 1], Star) \
                    and p[i + 1].n == ('rest', h.n):
                q[i:i + 1] = [I.subst(elem_of(h), ix(h.n), ix(('first', h.n))),
                              I.rename_star(h, h.n, ('rest', h.n))]
        i += 1


def seq_eq(I, a, b):
    a, b = list(a), list(b)
    if any(isinstance(x, (Star,)) for x in a + b):
        if I.canon(tuple(a), {}) == I.canon(tuple(b), {}):
            return True
        align_heads(I, a, b)
        if len(a) == len(b) and all(
                isinstance(x, Star) == isinstance(y, Star)
                and (not isinstance(x, Star) or x.n == y.n)
                for x, y in zip(a, b)):
            res = True
            for x, y in zip(a, b):
                if isinstance(x, Star):
                    if I.canon(x, {}) != I.canon(y, {}):
                        res = None
                else:
                    r = I.eq3(x, y)
                    if r is False:
                        return False
                    if r is None:
                        res = None
            return res
        # different lengths for sure?
        r = I.eq3(segs_len(I, a), segs_len(I, b))
        if r is False:
            return False
        return None
    if len(a) != len(b):
        return False
    res = True
    for x, y in zip(a, b):
        r = I.eq3(x, y)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def star_elems(segs):
    for s in segs:
        if isinstance(s, Star):
            for g, b in s.variants:
                yield from star_elems(b)
        else:
            yield s


def struct_eq(I, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = I.o(a), I.o(b)
        if x.kind == y.kind == 'list':
            return seq_eq(I, x.data, y.data)
        if x.kind == y.kind == 'ntuple':
            return seq_eq(I, x.data, y.data)
        if x.kind == y.kind == 'dict':
            if any(e.n or e.guard for e in x.data + y.data):
                if I.canon(tuple(x.data), {}) == I.canon(tuple(y.data), {}):
                    return True
                return None
            if len(x.data) != len(y.data):
                return False
            res = True
            for e in x.data:
                m = [f for f in y.data if I.eq3(e.key, f.key) is True]
                if not m:
                    if any(I.eq3(e.key, f.key) is None for f in y.data):
                        res = None
                        continue
                    return False
                r = I.eq3(e.val, m[0].val)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if x.kind == y.kind == 'set':
            if any(isinstance(s, Star) for s in x.data + y.data):
                if I.canon(tuple(x.data), {}) == I.canon(tuple(y.data), {}):
                    return True
                for p, q in ((x.data, y.data), (y.data, x.data)):
                    els = list(star_elems(q))
                    for e in p:
                        if not isinstance(e, Star) and all(
                                I.eq3(e, f) is False for f in els):
                            return False
                return None
            if len(x.data) != len(y.data):
                return False
            res = True
            for s in x.data:
                rs = [I.eq3(s, t) for t in y.data]
                if True in rs:
                    continue
                if None not in rs:
                    return False
                res = None
            return res
        if x.kind == y.kind == 'partial':
            return x.data == y.data
        return I.same_obj(a, b)
    r, o = (a, b) if isinstance(a, Ref) else (b, a)
    if isinstance(o, Sym) and o.ty in ('any', None):
        ob = I.o(r)
        if ob.kind in ('inst', 'class', 'func', 'stub', 'module'):
            return I.facts.get(('eq',) + I._sorted2(I.term(r), o.term))
        return None
    if isinstance(o, Tup) and I.o(r).kind == 'ntuple':
        return seq_eq(I, I.o(r).data, o.items)
    return False


def contains(I, c, v):
    c = I.resolve(c)
    if isinstance(c, Ref):
        m = find_method(I, c, '__contains__')
        if m is not None:
            return I.truth(I.call(m, [v], {}))
        o = I.o(c)
        if o.kind == 'dict':
            check_hashable(I, v)
            return dict_find(I, c, v) is not None
        if o.kind == 'set':
            check_hashable(I, v)
        if o.kind == 'view' and o.data[1] == 'keys':
            return dict_find(I, o.data[0], v) is not None
        if o.kind in ('list', 'set', 'iter', 'view', 'ntuple'):
            if o.kind == 'set':
                I.rd(c.oid, ('k', I.term(v)))
            if o.kind == 'view':
                segs = dict_segs(I, o.data[0], o.data[1])
            else:
                if o.kind != 'set':
                    I.rd(c.oid, '*')
                segs = o.data
            return segs_contain(I, segs, v, key_eq3 if o.kind == 'set' else None)
        if o.kind == 'strval':
            return contains(I, o.data, v)
        if o.kind == 'inst':
            if isinstance(o.cls, Ref) and Bi('abc.Mapping') in mro(I, o.cls):
                try:
                    getitem(I, c, v)
                    return True
                except AbsRaise as e:
                    if isinstance_(I, e.val, Bi('KeyError')):
                        return False
                    raise
            m = find_method(I, c, '__iter__')
            if m is None:
                raise I.exc('TypeError', Const('not iterable'))
        return segs_contain(I, segs_of(I, c), v)
    if isinstance(c, Tup):
        return segs_contain(I, c.items, v)
    if isinstance(c, Const):
        s = I.strval(v)
        if isinstance(c.v, str):
            if isinstance(s, Const):
                return s.v in c.v
            if s is not None:
                return I.decide(('in', I.term(v), I.term(c)))
            if isinstance(v, Sym) and v.ty in ('any', None):
                return I.decide(('in', I.term(v), I.term(c)))
            raise I.exc('TypeError', Const('in <string>'))
        if isinstance(c.v, (tuple, frozenset, bytes)):
            return any(I.eq(v, Const(x)) for x in c.v)
        raise I.exc('TypeError', Const('%r is not iterable'
                                       % type(c.v).__name__))
    if isinstance(c, IDict):
        if isinstance(v, Const):
            return v.v in I.heap[c.oid].attrs
    if isinstance(c, Sym):
        return I.decide(('in', I.term(v), c.term))
    if isinstance(c, Ext):
        return I.decide(('in', I.term(v), ('ext', c.path)))
    raise Imprecise('contains %r' % (c,))


def segs_contain(I, segs, v, same=None):
    unk = []
    for s in segs:
        if isinstance(s, Star):
            r = star_contains(I, s, v)
            if r is True:
                return True
            if r is None:
                unk.append(('star', I.canon(s, {})))
        else:
            r = same(I, s, v) if same else I.eq3(I.resolve(s), v)
            if r:
                return True
            if r is None:
                if I.eq(I.resolve(s), v):
                    return True
    if unk:
        return I.decide(('in', I.term(v)) + tuple(unk))
    return False


def star_contains(I, s, v):
    res = False
    for g, b in s.variants:
        for x in b:
            if isinstance(x, Star):
                r = star_contains(I, x, v)
            else:
                x = I.resolve(x)
                r = I.eq3(x, v)
                if r is True and (mentions(x, ix(s.n)) or g):
                    # the current index is among them
                    if g:
                        r = True if I.guard_holds(g) else False
                if r is None and not g and mentions(I.term(x), ix(s.n)) \
                        and instance_of(I, I.term(x), I.term(v), [s.n]):
                    r = True
            if r is True:
                return True
            if r is None:
                res = None
    return res


def check_hashable(I, v):
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind in ('list', 'dict', 'set') and (
                isinstance(o.cls, Bi) and o.cls.name != 'frozenset'):
            raise I.exc('TypeError', Const('unhashable type: %r'
                                           % cls_name(I, o.cls)))
        if o.kind == 'list' and isinstance(o.cls, Ref) and find_method(
                I, v, '__hash__') is None and not any(
                    c == Bi('tuple') for c in mro(I, o.cls)):
            raise I.exc('TypeError', Const('unhashable'))
        if o.kind == 'inst' and isinstance(o.cls, Ref):
            for c in mro(I, o.cls):
                if isinstance(c, Ref):
                    a = I.o(c).attrs
                    if '__hash__' in a:
                        if a['__hash__'] == NONE:
                            raise I.exc('TypeError', Const('unhashable'))
                        return
                    if '__eq__' in a:
                        raise I.exc('TypeError', Const(
                            'unhashable type: %r' % cls_name(I, o.cls)))
    elif isinstance(v, Tup):
        for x in v.items:
            if not isinstance(x, Star):
                check_hashable(I, x)
    elif isinstance(v, IDict):
        raise I.exc('TypeError', Const('unhashable'))


# ---------------------------------------------------------------------------
# dicts

def custom_hash(I, v):
    """does an object with its own __hash__ take part in the hash?"""
    if isinstance(v, Tup):
        return any(not isinstance(x, Star) and custom_hash(I, I.resolve(x))
                   for x in v.items)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'ntuple':
            return find_method(I, v, '__hash__') is not None or any(
                custom_hash(I, I.resolve(x)) for x in o.data)
        return o.kind == 'inst' and find_method(I, v, '__hash__') is not None
    return False


def hash_key(I, v):
    """a term which is equal for values of an equal hash, and - taking
    collisions for impossible - only for them"""
    v = I.resolve(v)
    if isinstance(v, Ref) and I.o(v).kind == 'ntuple':
        c = I.__dict__.setdefault('hash_cache', {})
        t = I.term(v)
        if t not in c:
            c[t] = hash_key_(I, v)
        return c[t]
    return hash_key_(I, v)


def hash_key_(I, v):
    from .builtins_ import hash_term
    if isinstance(v, Tup) and not any(isinstance(x, Star) for x in v.items):
        return ('tuple',) + tuple(hash_key(I, x) for x in v.items)
    if isinstance(v, Ref) and I.o(v).kind in ('ntuple', 'inst'):
        m = find_method(I, v, '__hash__')
        if m is not None:
            r = I.resolve(I.call(m, [], {}))
            return r.term if isinstance(r, Sym) else hash_term(I.term(r))
        if I.o(v).kind == 'ntuple':
            return ('tuple',) + tuple(hash_key(I, x) for x in I.o(v).data)
    return hash_term(I.term(v))


def base_hash(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref) and I.o(v).kind == 'ntuple':
        v = Tup(I.o(v).data)
    return Sym(('hash', hash_key(I, v) if isinstance(v, Tup)
                else I.term(v)), 'int')


def hash_eq3(I, x, y):
    if x == y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) \
            and x and x[0] == y[0] and x[0] in ('tuple', 'hash'):
        res = True
        for p, q in zip(x[1:], y[1:]):
            r = hash_eq3(I, p, q)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    return I.term_eq(x, y)


def key_eq3(I, a, b):
    """are these the same key of a dict or member of a set?"""
    a, b = I.resolve(a), I.resolve(b)
    r = I.eq3(a, b)
    if r is not False and isinstance(a, (Ref, Tup)) and isinstance(
            b, (Ref, Tup)) and a != b and (
                custom_hash(I, a) or custom_hash(I, b)):
        if hash_eq3(I, hash_key(I, a), hash_key(I, b)) is False:
            return False
    return r


def instance_of(I, pat, term, ns):
    """bind the indices ns of a pattern so that it becomes the term, every
    one to a member of its collection; None if not an instance.  Unknown
    index equalities the answer depends on are decided."""
    for _ in range(200):
        b = {}
        asks = []

        def same(x, y):
            r = I.ix_same(x, y)
            if r is None:
                asks.append((x, y))
                return True
            return r

        def member(y, x):
            x = unprime(x)
            ch = ix_chain(y)
            if x in ch:
                return True
            if isinstance(x, tuple) and x[0] == 'rest':
                f = ('first', x[1])
                if not member(y, x[1]):
                    return False
                r = I.ix_same(y, f)
                if r is None:
                    asks.append((y, f))
                    return True
                return not r
            if isinstance(x, tuple) and x[0] not in DERIVED:
                return any(isinstance(c, tuple) and len(c) == len(x)
                           and c[0] == x[0] and go(x[1:], c[1:])
                           for c in ch)
            return False

        def go(p, t):
            if isinstance(p, tuple) and len(p) == 2 and p[0] == 'ix':
                if not (isinstance(t, tuple) and len(t) == 2
                        and t[0] == 'ix'):
                    return False
                if p[1] in ns:
                    if not member(t[1], p[1]):
                        return False
                    return b.setdefault(p[1], t[1]) == t[1]
                return same(p[1], t[1])
            if p == t and not (ns and isinstance(p, tuple)):
                return True
            if isinstance(p, tuple) and isinstance(t, tuple) \
                    and len(p) == len(t):
                return all([go(x, y) for x, y in zip(p, t)])
            return p == t
        if not go(pat, term) or set(b) != set(ns):
            return None
        if not asks:
            return b
        x, y = asks[0]
        I.decide(('eq',) + I._sorted2(ix(x), ix(y)))
    raise Imprecise('matching %s with %s does not come to an end (%r)' % (pat, term, asks[0]))


def dict_find(I, ref, key):
    """DEntry for the key or None (decides unknown equalities)"""
    key = I.resolve(key)
    o = I.o(ref)
    kt = I.term(key)
    I.rd(ref.oid, ('k', kt))
    unknown = []
    for e in o.data:
        r = key_eq3(I, e.key, key)
        if e.n is None and r is None:
            # settle single entries first: star entries depend on it
            r = I.eq(e.key, key)
        if r is False:
            continue
        if e.n is not None:
            b = instance_of(I, I.term(e.key), kt, e.n)
            if b is not None:
                e2 = e
                memo = {}
                v, gd = e.val, e.guard or ()
                for nn, m in b.items():
                    if nn != m:
                        v = I.subst(v, ix(nn), ix(m), memo)
                        gd = I.subst(gd, ix(nn), ix(m), memo)
                if not gd or I.guard_holds([g for g in gd
                                            if g[0] != 'some']):
                    return DEntry(key, v, src=(e, b))
                continue
        if e.n is None:
            if r is True:
                if e.guard and not _present(I, e):
                    continue
                return e
            if I.eq(e.key, key):
                return e
        else:
            if r is True:
                if e.guard:
                    ok = I.guard_holds([g for g in e.guard
                                        if g[0] != 'some'])
                    if not ok:
                        continue
                return e
            unknown.append(e)
    for e in unknown:
        if I.decide(('haskey', kt, I.canon(e, {}))):
            n = e.n[-1]
            at = ('key', n, kt)
            memo = {}
            v = e.val
            for nn in e.n:
                v = I.subst(v, ix(nn), ix(('key', nn, kt)), memo)
            return DEntry(key, v)
    return None


def _present(I, e):
    g = [x for x in e.guard if x[0] == 'some']
    rest = [x for x in e.guard if x[0] != 'some']
    if rest and not I.guard_holds(rest):
        return False
    if g:
        return I.decide(('present', I.term(e.key)) + tuple(
            I.canon(x, {}) for x in e.guard))
    return True


def dict_set(I, ref, key, val):
    key = I.resolve(key)
    check_hashable(I, key)
    kt = I.term(key)
    o = I.w(ref.oid, ('k', kt))
    I.wr(ref.oid, ('k', kt))
    for i, e in enumerate(o.data):
        r = key_eq3(I, e.key, key)
        if r is True and e.n is None:
            o.data[i] = DEntry(e.key, val)
            return
        if r is True and e.n is not None and e.n[-1] in I.open:
            o.data[i] = DEntry(e.key, val, e.n, e.guard)
            return
        if r is None and e.n is None:
            if I.eq(e.key, key):
                o = I.w(ref.oid, ('k', kt))
                o.data[i] = DEntry(e.key, val)
                return
            o = I.w(ref.oid, ('k', kt))
    o.data.append(DEntry(key, val))


def dict_del(I, ref, e):
    o = I.w(ref.oid, ('k', I.term(e.key)))
    I.wr(ref.oid, ('k', I.term(e.key)))
    if e.src is not None:
        s, b = e.src
        if len(b) == 1 and s in o.data:
            (m, at), = b.items()
            i = o.data.index(s)
            o.data[i] = DEntry(s.key, s.val, s.n,
                               (s.guard or ()) + I.gone_guard(m, at))
            return
    for i, x in enumerate(o.data):
        if x is e or x == e:
            del o.data[i]
            return
    raise Imprecise('removal of a summarised dict entry')


def getitem(I, v, key):
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'class':
            if isinstance(o.cls, Ref):
                m, _ = class_attr(I, o.cls, '__getitem__')
                if m is not None:
                    return I.call(Bound(m, v), [key], {})
            m, _ = class_attr(I, v, '__class_getitem__')
            if m is not None:
                if not (isinstance(m, Ref) and I.o(m).kind == 'func'):
                    return I.call(getattr_(I, v, '__class_getitem__'),
                                  [key], {})
                return I.call(m, [v, key], {})
            if any(isinstance(c, Ext) for c in o.extra['mro']):
                return v
            if Bi('Enum') in o.extra['mro'] and isinstance(key, Const):
                return getattr_(I, v, key.v)
            raise I.exc('TypeError', Const('class is not subscriptable'))
        m = find_method(I, v, '__getitem__')
        if m is not None:
            return I.call(m, [key], {})
        return base_getitem(I, v, key)
    if isinstance(v, Tup):
        return seq_index(I, list(v.items), key, 'tuple')
    if isinstance(v, Const):
        if isinstance(v.v, (str, tuple, bytes)):
            if isinstance(key, Const) and isinstance(key.v, int):
                try:
                    return Const(v.v[key.v])
                except IndexError:
                    raise I.exc('IndexError', Const('index'))
            if isinstance(key, Sym):
                return Sym(('item', I.term(v), key.term), 'str')
        raise I.exc('TypeError', Const('%r object is not subscriptable'
                                       % type(v.v).__name__))
    if isinstance(v, IDict):
        a = I.heap[v.oid].attrs
        I.rd(v.oid, key.v if isinstance(key, Const) else '*')
        if isinstance(key, Const):
            if key.v in a:
                return a[key.v]
            raise I.exc('KeyError', key)
        raise Imprecise('__dict__ with an unknown key')
    if isinstance(v, Sym):
        h = I.__dict__.get('sym_item')
        if h is not None:
            r = h(I, v, key)
            if r is not None:
                return r
        return Sym(('item', v.term, I.term(key)),
                   'str' if v.ty in ('str', 'name') else 'any')
    if isinstance(v, (Ext, Bi)):
        return v if isinstance(v, Bi) else Ext(v.path + '[]')
    raise Imprecise('subscript of %r' % (v,))


def base_getitem(I, v, key):
    o = I.o(v)
    if o.kind in ('list', 'iter'):
        I.rd(v.oid, '*')
        return seq_index(I, o.data, key, 'list')
    if o.kind == 'ntuple':
        return seq_index(I, o.data, key, 'tuple')
    if o.kind == 'dict':
        check_hashable(I, key)
        e = dict_find(I, v, key)
        if e is not None:
            return e.val
        m = find_method(I, v, '__missing__')
        if m is not None:
            return I.call(m, [key], {})
        o = I.o(v)
        if o.cls == Bi('Counter'):
            return Const(0)
        if o.extra is not None:
            val = I.call(o.extra, [], {})
            dict_set(I, v, key, val)
            return val
        raise I.exc('KeyError', key)
    if o.kind == 'strval':
        return getitem(I, o.data, key)
    if o.kind == 'stub' and o.extra and 'getitem' in o.extra:
        return o.extra['getitem'](I, v, key)
    if isinstance(o.cls, Ext):
        return Sym(('item', ('o', v.oid), I.term(key)), 'any')
    if o.kind in ('func', 'gen', 'coro', 'inst', 'set', 'partial', 'stub'):
        raise I.exc('TypeError', Const('%s object is not subscriptable'
                                       % cls_name(I, type_of(I, v))))
    raise Imprecise('subscript of %s' % o.kind)


def seq_index(I, data, key, what):
    key = I.resolve(key)
    if isinstance(key, Const):
        if isinstance(key.v, bool) or not isinstance(key.v, int):
            if isinstance(key.v, bool):
                key = Const(int(key.v))
            else:
                raise I.exc('TypeError', Const('%s indices' % what))
        i = key.v
        if i >= 0:
            for j, s in enumerate(data):
                if isinstance(s, Star):
                    if i == 0 and s.simple:
                        r = I.subst(s.variants[0][1][0], ix(s.n),
                                    ix(('first', s.n)))
                        return r
                    if s.n in I.open and False:
                        pass
                    raise Imprecise('index into a star segment')
                if i == 0:
                    return s
                i -= 1
            raise I.exc('IndexError', Const('%s index out of range' % what))
        i = -i - 1
        for s in reversed(data):
            if isinstance(s, Star):
                if i == 0 and s.simple:
                    return I.subst(s.variants[0][1][0], ix(s.n),
                                   ix(('last', s.n)))
                raise Imprecise('index into a star segment')
            if i == 0:
                return s
            i -= 1
        raise I.exc('IndexError', Const('%s index out of range' % what))
    if isinstance(key, Sym):
        t = key.term
        # positions produced by range()/enumerate() over the same layout
        if t[0] == 'pos':
            i = 0
            off = t[1]
            for s in data:
                if isinstance(s, Star):
                    if i == len(off) and s.n == t[2] and s.simple:
                        x = s.variants[0][1][0]
                        return x if t[3] == ix(s.n) else I.resolve(
                            I.subst(x, ix(s.n), t[3]))
                    if i < len(off) and off[i] == s.n:
                        i += 1
                        continue
                    raise Imprecise('unaligned index')
                if i < len(off) and off[i] == 1:
                    i += 1
                    continue
                if i == len(off) and t[2] == 1:
                    return s
                raise Imprecise('unaligned index')
        p = lin_parts(I, key)
        if p is not None and p[0]:
            # exact element after complete segments
            coef, k = dict(p[0]), p[1]
            for s in data:
                if isinstance(s, Star):
                    if coef.get(('n', s.n)) == 1 and s.simple:
                        del coef[('n', s.n)]
                        continue
                    break
                if not coef and k == 0:
                    return s
                k -= 1
            if not coef and k >= 0:
                raise I.exc('IndexError', Const('index out of range'))
        raise Imprecise('unknown index')
    raise I.exc('TypeError', Const('%s indices must be integers' % what))


def getslice(I, v, lo, hi, st):
    v = I.resolve(v)
    if isinstance(v, Const) and all(isinstance(x, Const)
                                    for x in (lo, hi, st)):
        return Const(v.v[lo.v:hi.v:st.v])
    if isinstance(v, Sym):
        return Sym(('slice', v.term, I.term(lo), I.term(hi), I.term(st)),
                   'str' if v.ty in ('str', 'name') else 'any')
    if isinstance(v, Ref) and I.o(v).kind == 'strval':
        return getslice(I, I.o(v).data, lo, hi, st)
    segs = segs_of(I, v) if isinstance(v, (Tup, Ref)) else None
    if segs is None:
        raise Imprecise('slice')
    if isinstance(v, Ref) and I.o(v).kind not in ('list', 'ntuple'):
        raise I.exc('TypeError', Const('unhashable type: slice'))
    if all(isinstance(x, Const) for x in (lo, hi, st)):
        a, b, c = lo.v, hi.v, st.v
        if not any(isinstance(s, Star) for s in segs):
            out = segs[a:b:c]
        elif (a, b) in ((None, None), (0, None)) and c in (None, 1):
            out = segs
        elif c == -1 and a is None and b is None:
            out = I.reversed_segs(segs)
        elif c in (None, 1) and a is not None and a > 0 and b is None and \
                not any(isinstance(s, Star) for s in segs[:a]):
            out = segs[a:]
        elif c in (None, 1) and a in (None, 0) and b is not None and b > 0 \
                and not any(isinstance(s, Star) for s in segs[:b]):
            out = segs[:b]
        elif c in (None, 1) and a is not None and a > 0 and b is None and \
                isinstance(segs[0], Star) and segs[0].simple and a == 1:
            s0 = segs[0]
            out = [I.rename_star(s0, s0.n, ('rest', s0.n))] + segs[1:]
        elif c in (None, 1) and a in (None, 0) and b is not None and b > 0 \
                and isinstance(segs[0], Star) and segs[0].simple:
            # a prefix of an unknown-length sequence: may lose elements
            s0 = segs[0]
            if I.decide(('linle', ((('n', s0.n), 1),), -b)) \
                    and len(segs) == 1:
                out = segs
            else:
                out = [I.rename_star(s0, s0.n, ('prefix', s0.n, b))]
        else:
            raise Imprecise('slice of a star sequence')
    else:
        # chunk of unknown position
        out = [Star(('chunk', I.canon(tuple(segs), {}), I.term(lo),
                     I.term(hi)), [((), [Sym(('chunkelem', I.canon(
                         tuple(segs), {})), 'any')])])]
        raise Imprecise('slice with unknown bounds')
    if isinstance(v, Tup):
        return Tup(out)
    return I.new_list(out)


def setitem(I, v, key, val):
    v = I.resolve(v)
    if isinstance(v, Ref):
        m = find_method(I, v, '__setitem__')
        if m is not None:
            I.call(m, [key, val], {})
            return
        o = I.o(v)
        if o.kind == 'dict':
            dict_set(I, v, key, val)
            return
        if o.kind == 'list':
            if isinstance(key, Const) and isinstance(key.v, int):
                i = key.v
                d = o.data
                n = len(d)
                if any(isinstance(s, Star) for s in (
                        d[:i + 1] if i >= 0 else d[i:])):
                    raise Imprecise('store into a star segment')
                if not -n <= i < n:
                    raise I.exc('IndexError', Const('assignment index'))
                I.wr(v.oid, '*')
                I.w(v.oid, '*').data[i] = val
                return
            if isinstance(key, Sym) and key.term[0] == 'pos':
                raise Imprecise('store at a summarised index')
            raise Imprecise('list store')
        if o.kind == 'stub' and o.extra and 'setitem' in o.extra:
            o.extra['setitem'](I, v, key, val)
            return
        raise I.exc('TypeError', Const(
            'object does not support item assignment'))
    if isinstance(v, IDict):
        if isinstance(key, Const):
            I.wr(v.oid, key.v)
            I.w(v.oid, '$cache').attrs[key.v] = val
            return
        raise Imprecise('__dict__ store')
    if isinstance(v, Sym):
        I.trace.append(Event('setitem', (v, key, val), I.site()))
        return
    raise I.exc('TypeError', Const('no item assignment'))


def setslice(I, v, lo, hi, st, new):
    v = I.resolve(v)
    if not isinstance(v, Ref) or I.o(v).kind != 'list' or st != NONE or \
            not isinstance(lo, Const) or not isinstance(hi, Const):
        raise Imprecise('slice assignment')
    tmp = I.new_list()
    list_extend(I, tmp, new)
    segs = list(I.o(tmp).data)
    data = list(I.o(v).data)
    if (lo != NONE and lo.v != 0) or hi != NONE:
        if any(isinstance(s, Star) for s in data):
            raise Imprecise('slice assignment')
        data[lo.v:hi.v] = segs
    else:
        data = segs
    I.wr(v.oid, '*')
    I.w(v.oid).data = data


def delitem(I, v, key):
    v = I.resolve(v)
    if isinstance(v, Ref):
        m = find_method(I, v, '__delitem__')
        if m is not None:
            I.call(m, [key], {})
            return
        o = I.o(v)
        if o.kind == 'dict':
            e = dict_find(I, v, key)
            if e is None:
                raise I.exc('KeyError', key)
            dict_del(I, v, e)
            return
        if o.kind == 'list' and isinstance(key, Const):
            if any(isinstance(s, Star) for s in o.data):
                if not (key.v == 0 and not isinstance(o.data[0], Star) or
                        key.v == -1 and not isinstance(o.data[-1], Star)):
                    raise Imprecise('del in a star sequence')
            if not -len(o.data) <= key.v < len(o.data):
                raise I.exc('IndexError', Const('del'))
            I.wr(v.oid, '*')
            del I.w(v.oid, '*').data[key.v]
            return
    raise Imprecise('del item')


# ---------------------------------------------------------------------------
# sets

def set_add(I, ref, v):
    v = I.resolve(v)
    check_hashable(I, v)
    I.wr(ref.oid, ('k', I.term(v)))
    for x in I.o(ref).data:
        if isinstance(x, Star):
            if star_contains(I, x, v) is True:
                return
        else:
            r = key_eq3(I, x, v)
            if r or r is None and I.eq(x, v):
                return
    I.w(ref.oid, '+').data.append(v)


def set_remove(I, ref, v, strict):
    o = I.o(ref)
    I.rd(ref.oid, ('k', I.term(v)))
    for i, x in enumerate(o.data):
        if isinstance(x, Star):
            r = star_contains(I, x, v)
            if r is False:
                continue
            # one index leaves the summarised part
            g = (('removed', I.term(v)), False)
            raise Imprecise('removal from a summarised set')
        if I.eq(x, v):
            I.wr(ref.oid, ('k', I.term(v)))
            w = I.w(ref.oid, ('k', I.term(v)))
            del w.data[i]
            return
    if strict:
        raise I.exc('KeyError', v)


def set_minus(I, a, b):
    """segments of a that are not in container b"""
    out = I.new_set()

    def body(x):
        if not contains(I, b, x):
            set_add(I, out, x)
    for s in segs_of(I, a):
        I.seg(s, body)
    return out


def container(I, v):
    """something `contains` works on, from an arbitrary iterable"""
    if isinstance(v, Ref) and I.o(v).kind in ('list', 'set', 'dict', 'view',
                                              'ntuple') \
            or isinstance(v, (Tup, IDict)):
        return v
    return I.new_list(segs_of(I, v))


# ---------------------------------------------------------------------------
# strings

def cat(I, parts):
    out = []
    for p in parts:
        p = I.resolve(p)
        if isinstance(p, Const):
            if p.v == '':
                continue
            if out and out[-1][0] == 'c':
                out[-1] = ('c', 'str', out[-1][-1] + p.v)
            else:
                out.append(('c', 'str', p.v))
        else:
            t = I.term(p)
            if t[0] == 'cat':
                for q in t[1:]:
                    if q[0] == 'c' and out and out[-1][0] == 'c':
                        out[-1] = ('c', 'str', out[-1][-1] + q[-1])
                    else:
                        out.append(q)
            elif t[0] == 'c' and t[1] == 'str':
                if out and out[-1][0] == 'c':
                    out[-1] = ('c', 'str', out[-1][-1] + t[-1])
                else:
                    out.append(t)
            else:
                out.append(t)
    if not out:
        return Const('')
    if len(out) == 1:
        if out[0][0] == 'c':
            return Const(out[0][-1])
        return Sym(out[0], 'str') if not (
            len(parts) == 1 and isinstance(parts[0], Sym)) else parts[0]
    return Sym(('cat',) + tuple(out), 'str')


def str_(I, v):
    v = I.resolve(v)
    if isinstance(v, Const):
        return Const(str(v.v))
    s = I.strval(v)
    if s is not None:
        if isinstance(v, Ref):
            m = find_method(I, v, '__str__')
            if m is not None:
                return I.call(m, [], {})
        return s
    if isinstance(v, Ref):
        m = find_method(I, v, '__str__')
        if m is not None:
            return I.call(m, [], {})
        o = I.o(v)
        if o.kind == 'inst' and 'args' in o.attrs and isinstance_(
                I, v, Bi('BaseException')):
            a = o.attrs['args'].items
            if len(a) == 1:
                return str_(I, a[0])
            if not a:
                return Const('')
        return repr_(I, v)
    return Sym(('str', I.term(v)), 'str')


def repr_(I, v):
    v = I.resolve(v)
    if isinstance(v, Const):
        return Const(repr(v.v))
    if isinstance(v, Ref) and I.o(v).kind == 'class':
        m = find_method(I, v, '__repr__')
        if m is not None:
            return I.call(m, [], {})
    return Sym(('repr', safe_term(I, v)), 'str')


def safe_term(I, v):
    try:
        return I.term(v)
    except Imprecise:
        return ('v',)


def format_(I, tmpl, args, kwargs):
    if not isinstance(tmpl, Const):
        return Sym(('format', I.term(tmpl)) + tuple(
            safe_term(I, a) for a in args), 'str')
    parts = []
    auto = 0
    try:
        parsed = list(pystring.Formatter().parse(tmpl.v))
    except ValueError as e:
        raise I.exc('ValueError', Const(str(e)))
    for lit, field, spec, conv in parsed:
        if lit:
            parts.append(Const(lit))
        if field is None:
            continue
        name = field
        path = ''
        for j, ch in enumerate(field):
            if ch in '.[':
                name, path = field[:j], field[j:]
                break
        if name == '':
            k = auto
            auto += 1
        elif name.isdigit():
            k = int(name)
        else:
            k = name
        if isinstance(k, int):
            if k >= len(args):
                raise I.exc('IndexError', Const('format index'))
            if any(isinstance(a, Star) for a in args[:k + 1]):
                raise Imprecise('format with star args')
            v = args[k]
        else:
            if k not in kwargs:
                raise I.exc('KeyError', Const(k))
            v = kwargs[k]
        for p in [x for x in path.replace(']', '').replace('[', '.').split(
                '.') if x]:
            v = I.getattr(v, p)
        if conv == 'r':
            v = repr_(I, v)
        if spec:
            parts.append(Sym(('fmtspec', I.term(v), spec), 'str')
                         if not isinstance(v, Const)
                         else Const(format(v.v, spec)))
        else:
            parts.append(str_(I, v))
    return cat(I, parts)


def percent(I, a, b):
    if not isinstance(a, Const):
        return Sym(('mod', I.term(a), I.term(b)), 'str')
    args = list(b.items) if isinstance(b, Tup) else [b]
    parts = []
    s = a.v
    i = 0
    cur = ''
    while i < len(s):
        if s[i] == '%' and i + 1 < len(s):
            c = s[i + 1]
            if c == '%':
                cur += '%'
                i += 2
                continue
            j = i + 1
            while j < len(s) and s[j] not in 'srdfxiXc(':
                j += 1
            if j < len(s) and s[j] == '(':
                return Sym(('mod', I.term(a), I.term(b)), 'str')
            if cur:
                parts.append(Const(cur))
                cur = ''
            if not args:
                raise I.exc('TypeError', Const('not enough arguments'))
            v = args.pop(0)
            spec = s[i + 1:j]
            if spec or (j < len(s) and s[j] not in 'srd'):
                parts.append(Sym(('fmtspec', I.term(v), s[i:j + 1]), 'str'))
            else:
                parts.append(repr_(I, v) if s[j] == 'r' else str_(I, v))
            i = j + 1
            continue
        cur += s[i]
        i += 1
    if cur:
        parts.append(Const(cur))
    return cat(I, parts)


STR_BOOL = {'startswith', 'endswith', 'isalpha', 'isdigit', 'isalnum',
            'isspace', 'isupper', 'islower', 'isnumeric', 'isidentifier',
            'isdecimal', 'isprintable', 'isascii'}
STR_INT = {'find', 'index', 'count', 'rfind', 'rindex'}
STR_LIST = {'split', 'splitlines', 'rsplit'}


def pyconst(I, v):
    """python value of a fully constant abstract value, or raises"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup) and all(isinstance(x, Const) for x in v.items):
        return tuple(x.v for x in v.items)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'list' and all(isinstance(x, Const) for x in o.data):
            return [x.v for x in o.data]
        if o.kind == 'dict' and all(
                isinstance(e.key, Const) and isinstance(e.val, Const)
                and not e.n and not e.guard for e in o.data):
            return {e.key.v: e.val.v for e in o.data}
        if o.kind == 'strval' and isinstance(o.data, Const):
            return o.data.v
    raise Imprecise('not a constant')


def lift(I, x):
    if isinstance(x, list):
        return I.new_list([lift(I, y) for y in x])
    if isinstance(x, tuple):
        return Tup([lift(I, y) for y in x])
    if isinstance(x, dict):
        return I.new_dict([(lift(I, k), lift(I, v)) for k, v in x.items()])
    return Const(x)


def str_method(I, recv, name, args, kwargs):
    if name == 'format':
        return format_(I, recv, args, kwargs)
    if name == 'join':
        segs = segs_of(I, args[0])
        if not any(isinstance(s, Star) for s in segs):
            parts = []
            for i, s in enumerate(segs):
                s = I.resolve(s)
                if i:
                    parts.append(recv)
                if I.strval(s) is None and not (
                        isinstance(s, Sym) and s.ty in ('any', None)):
                    raise I.exc('TypeError', Const(
                        'sequence item: expected str instance'))
                parts.append(I.strval(s) if I.strval(s) is not None else s)
            return cat(I, parts)
        return Sym(('join', I.term(recv)) + tuple(
            I.canon(s, {}) for s in segs), 'str')
    try:
        pargs = [pyconst(I, a) for a in args]
        pkw = {k: pyconst(I, v) for k, v in kwargs.items()}
        cr = isinstance(recv, Const)
    except Imprecise:
        cr = False
    if cr:
        try:
            return lift(I, getattr(recv.v, name)(*pargs, **pkw))
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    if name == 'startswith' and isinstance(recv, Sym) and recv.ty == 'name' \
            and len(args) == 1 and args[0] in (Const('_'), Const('__')):
        return Const(False)     # names stand for public identifiers
    t = ('meth', name, I.term(recv)) + tuple(safe_term(I, a) for a in args)
    if name in STR_BOOL:
        return Sym(t, 'bool')
    if name in STR_INT:
        return Sym(t, 'int')
    if name in STR_LIST:
        n = ('split', t)
        return I.new_list([Star(n, [((), [Sym(('elem', t, ix(n)),
                                              'str')])])])
    if name == '__hash__':
        return base_hash(I, recv)
    if name == '__eq__':
        return Const(I.eq(recv, args[0]))
    if name in ('partition', 'rpartition'):
        return Tup([Sym(t + (i,), 'str') for i in range(3)])
    if name == 'encode':
        return Sym(t, 'obj')
    return Sym(t, 'str')


# ---------------------------------------------------------------------------
# operators

def unop(I, op, v):
    if isinstance(v, Const):
        try:
            return Const({'USub': lambda: -v.v, 'UAdd': lambda: +v.v,
                          'Invert': lambda: ~v.v}[op]())
        except TypeError as e:
            raise I.exc('TypeError', Const(str(e)))
    p = lin_parts(I, v)
    if p is not None and op == 'USub':
        return mk_lin({t: -c for t, c in p[0].items()}, -p[1])
    return Sym((op, I.term(v)), 'any')


BINNAMES = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
            'BitOr': '__or__', 'BitAnd': '__and__', 'Mod': '__mod__',
            'LShift': '__lshift__', 'RShift': '__rshift__',
            'Div': '__truediv__', 'FloorDiv': '__floordiv__',
            'Pow': '__pow__', 'BitXor': '__xor__'}


def binop(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Const) and isinstance(b, Const):
        import operator as _o
        fs = {'Add': _o.add, 'Sub': _o.sub, 'Mult': _o.mul, 'Mod': _o.mod,
              'Div': _o.truediv, 'FloorDiv': _o.floordiv, 'Pow': _o.pow,
              'BitOr': _o.or_, 'BitAnd': _o.and_, 'BitXor': _o.xor,
              'LShift': _o.lshift, 'RShift': _o.rshift}
        try:
            return Const(fs[op](a.v, b.v))
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    m = find_method(I, a, BINNAMES.get(op, '?'))
    if m is not None:
        return I.call(m, [b], {})
    if isinstance(b, Ref):
        m = find_method(I, b, '__r' + BINNAMES.get(op, '__?')[2:])
        if m is not None:
            return I.call(m, [a], {})
    sa, sb = I.strval(a), I.strval(b)
    if op == 'Add' and (sa is not None or sb is not None):
        if sa is not None and sb is not None:
            return cat(I, [sa, sb])
        other = b if sa is not None else a
        if not (isinstance(other, Sym) and other.ty in ('any', None)):
            raise I.exc('TypeError', Const('can only concatenate str'))
        return Sym(('cat', I.term(a), I.term(b)), 'str')
    if op == 'Mod' and sa is not None:
        return percent(I, sa, b)
    ka = I.o(a).kind if isinstance(a, Ref) else None
    kb = I.o(b).kind if isinstance(b, Ref) else None
    if op == 'Add':
        if ka == 'list' and kb == 'list':
            return I.new_list(segs_of(I, a) + segs_of(I, b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and kb == 'ntuple':
            return Tup(list(a.items) + segs_of(I, b))
        if ka in ('list', 'inst', 'dict', 'set') and not isinstance(b, Sym):
            raise I.exc('TypeError', Const('unsupported operand'))
    if op == 'Mult' and ka == 'list':
        if isinstance(b, Const) and isinstance(b.v, int):
            return I.new_list(list(I.o(a).data) * max(b.v, 0))
        d = I.o(a).data
        if len(d) == 1 and not isinstance(d[0], Star):
            return I.new_list(repeat_layout(I, d[0], b))
        raise Imprecise('list repetition')
    if op == 'Mult' and kb == 'list':
        return binop(I, op, b, a)
    if ka == 'set' and (kb == 'set' or kb == 'view') or \
            ka == 'view' and kb in ('set', 'view'):
        if op == 'Sub':
            return set_minus(I, a, container(I, b))
        if op == 'BitOr':
            s = I.new_set(segs_of(I, a))
            I.iterate(b, lambda x: set_add(I, s, x))
            return s
        if op == 'BitAnd':
            out = I.new_set()

            def body(x):
                if contains(I, b, x):
                    set_add(I, out, x)
            I.iterate(a, body)
            return out
        if op == 'BitXor':
            s = set_minus(I, a, container(I, b))
            if not (isinstance(s, Ref) and I.o(s).kind == 'set'):
                raise Imprecise('difference of views')
            s = I.new_set(segs_of(I, s))
            I.iterate(set_minus(I, b, container(I, a)),
                      lambda x: set_add(I, s, x))
            return s
        raise Imprecise('%s of sets' % op)
    if ka == 'dict' and kb == 'dict' and op == 'BitOr':
        d = dict_copy(I, a)
        call_method(I, d, 'update', [b], {})
        return d
    pa, pb_ = lin_parts(I, a), lin_parts(I, b)
    if pa is not None and pb_ is not None:
        if op in ('Add', 'Sub'):
            s = 1 if op == 'Add' else -1
            d = dict(pa[0])
            for t, c in pb_[0].items():
                d[t] = d.get(t, 0) + s * c
            return mk_lin(d, pa[1] + s * pb_[1])
        if op == 'Mult' and not pb_[0]:
            return mk_lin({t: c * pb_[1] for t, c in pa[0].items()},
                          pa[1] * pb_[1])
        return Sym((op, I.term(a), I.term(b)),
                   'float' if op == 'Div' else 'int')
    for x in (a, b):
        if isinstance(x, Const) and x.v is None:
            raise I.exc('TypeError', Const('unsupported operand NoneType'))
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, Ext) \
            or isinstance(b, Ext):
        ty = 'any'
        if isinstance(a, Sym) and a.ty in ('float', 'int') \
                and isinstance(b, Sym) and b.ty in ('float', 'int'):
            ty = 'float'
        return Sym((op, safe_term(I, a), safe_term(I, b)), ty)
    if ka in ('stub',) or kb in ('stub',):
        return Sym((op, safe_term(I, a), safe_term(I, b)), 'obj')
    raise I.exc('TypeError', Const('unsupported operand types'))


def lay_fill(v, lay):
    return [v if x == 1 else Star(x[1], [(g, lay_fill(v, b))
                                         for g, b in x[2]])
            if isinstance(x, tuple) and x[0] == 'blk'
            else Star(x, [((), [v])]) for x in lay]


def repeat_layout(I, v, count):
    if isinstance(count, Const):
        return [v] * max(count.v, 0)
    if isinstance(count, Sym) and count.term[0] == 'lin' and count.term[3] \
            and None not in count.term[3]:
        return lay_fill(v, count.term[3])
    n = ('times', I.term(count))
    return [Star(n, [((), [v])])]


def dict_copy(I, v):
    o = I.o(v)
    I.rd(v.oid, '*')
    return I.new('dict', o.cls if isinstance(o.cls, Bi) else Bi('dict'),
                 data=list(o.data), extra=o.extra)


# ---------------------------------------------------------------------------
# calls

def call(I, f, args, kwargs):
    if isinstance(f, Ref):
        o = I.o(f)
        k = o.kind
        if k == 'func':
            h = I.call_hooks.get(('func', o.extra['module'],
                                  o.extra['qual']))
            if h is not None:
                r = h(I, f, args, kwargs)
                if r is not None:
                    return r
            return I.call_func(f, args, kwargs)
        if k == 'class':
            return instantiate(I, f, args, kwargs)
        if k == 'stub':
            if o.data is None:
                raise I.exc('TypeError', Const('not callable'))
            r = o.data(I, f, args, kwargs)
            return r if r is not None else NONE
        if k == 'partial':
            fn, a, kw = o.data
            k2 = dict(kw)
            k2.update(kwargs)
            return I.call(fn, list(a) + list(args), k2)
        if k == 'lru':
            return I.call(o.data, args, kwargs)
        if k == 'getter':
            return o.data(I, args)
        m = find_method(I, f, '__call__')
        if m is not None:
            return I.call(m, args, kwargs)
        if isinstance(o.cls, Ref) and any(
                isinstance(c, Ext) for c in mro(I, o.cls)):
            return Sym(('app', ('o', f.oid)) + tuple(
                safe_term(I, a) for a in args), 'any')
        raise I.exc('TypeError', Const('%s object is not callable'
                                       % cls_name(I, type_of(I, f))))
    if isinstance(f, Bound):
        return I.call(f.func, [f.self_] + list(args), kwargs) \
            if not isinstance(f.func, Bi) else \
            call_bi_unbound(I, f.func, [f.self_] + list(args), kwargs)
    if isinstance(f, BoundM):
        return call_method(I, f.recv, f.name, list(args), kwargs)
    if isinstance(f, Bi):
        return call_bi(I, f.name, list(args), kwargs)
    if isinstance(f, Ext):
        h = I.ext_handlers.get(f.path)
        if h is not None:
            return h(I, args, kwargs)
        if f.path.endswith('.__new__') or f.path.endswith('.__init__'):
            return NONE
        if shims.unknown_effect(f.path, args, kwargs):
            raise Imprecise('call of %s' % f.path)
        t = ('call', f.path) + tuple(
            I.canon(a, {}) if isinstance(a, Star) else safe_term(I, a)
            for a in args) + tuple(
            (k, safe_term(I, v)) for k, v in sorted(kwargs.items()))
        I.trace.append(Event('ext', (f.path, list(args), dict(kwargs)),
                             I.site()))
        return Sym(t, 'any')
    if isinstance(f, Sym):
        h = I.call_hooks.get(f.term[0])
        if h is not None:
            r = h(I, f, args, kwargs)
            if r is not None:
                return r
        I.trace.append(Event('call', (f, list(args), dict(kwargs)),
                             I.site()))
        return Sym(('app', f.term) + tuple(
            I.canon(a, {}) if isinstance(a, Star) else safe_term(I, a)
            for a in args) + tuple(
            (k, safe_term(I, v)) for k, v in sorted(kwargs.items())), 'any')
    if isinstance(f, (Const, Tup, IDict)):
        raise I.exc('TypeError', Const('%s object is not callable'
                                       % cls_name(I, type_of(I, f))))
    raise Imprecise('call of %r' % (f,))


def abstract_left(I, cls):
    seen = set()
    out = []
    for c in mro(I, cls):
        if isinstance(c, Ref):
            for n, a in I.o(c).attrs.items():
                if n in seen:
                    continue
                seen.add(n)
                t = a
                if isinstance(t, Ref) and I.o(t).kind == 'prop':
                    t = I.o(t).data[0]
                if isinstance(t, Ref) and I.o(t).kind == 'func' and \
                        I.o(t).attrs.get('__isabstractmethod__') == TRUE:
                    out.append(n)
    return out


def instantiate(I, cls, args, kwargs):
    o = I.o(cls)
    if isinstance(o.cls, Ref):
        # metaclass __call__
        m, _ = class_attr(I, o.cls, '__call__')
        if m is not None:
            return I.call(Bound(m, cls), args, kwargs)
        if Bi('type') in o.extra['mro']:
            return type_call(I, cls, args, kwargs)
    if Bi('type') in o.extra['mro']:
        return type_call(I, cls, args, kwargs)
    if Bi('Enum') in o.extra['mro'] and args:
        e = dict_find(I, o.attrs['_value2member_map_'], args[0])
        if e is None:
            raise I.exc('ValueError', args[0])
        return e.val
    meta = o.cls
    if meta == Bi('ABCMeta') or isinstance(meta, Ref) and \
            Bi('ABCMeta') in mro(I, meta):
        left = abstract_left(I, cls)
        if left:
            raise I.exc('TypeError', Const(
                "Can't instantiate abstract class %s with abstract methods "
                "%s" % (cls_name(I, cls), ', '.join(sorted(left)))))
    new, nowner = class_attr(I, cls, '__new__')
    if new is not None and isinstance(new, Ref) and \
            I.o(new).kind == 'smeth':
        new = I.o(new).data
    if new is not None:
        inst = I.call(new, [cls] + list(args), kwargs)
        if not (isinstance(inst, Ref) and issubclass_(
                I, type_of(I, inst), cls)):
            return inst
    else:
        inst = alloc(I, cls, args, kwargs)
    init, owner = class_attr(I, cls, '__init__')
    if init is not None:
        I.call(Bound(init, inst), args, kwargs)
    else:
        base_init(I, inst, cls, args, kwargs, new is not None)
    return inst


def base_kind(I, cls):
    for c in mro(I, cls):
        if isinstance(c, Bi):
            if c.name in ('dict', 'defaultdict', 'OrderedDict', 'Counter'):
                return 'dict', c
            if c.name in ('list', 'deque'):
                return 'list', c
            if c.name == 'tuple':
                return 'tuple', c
            if c.name in ('set', 'frozenset'):
                return 'set', c
            if c.name in ('str',):
                return 'str', c
            if c.name in EXC or c.name == 'CancelledError':
                return 'exc', c
            if c.name in ('int', 'float', 'bytes'):
                return c.name, c
        elif isinstance(c, Ref) and '$ntfields' in I.o(c).attrs:
            return 'ntuple', c
        elif isinstance(c, Ext):
            return 'ext', c
    return 'inst', None


def alloc(I, cls, args, kwargs):
    """object.__new__ and friends for a repo class"""
    k, c = base_kind(I, cls)
    if k == 'dict':
        return I.new('dict', cls, data=[])
    if k in ('list',):
        return I.new('list', cls, data=[])
    if k == 'tuple':
        return I.new('list', cls, data=segs_of(I, args[0]) if args else [])
    if k == 'set':
        r = I.new('set', cls, data=[])
        if args and c.name == 'frozenset':
            I.iterate(args[0], lambda x: set_add(I, r, x))
        return r
    if k == 'str':
        return I.new('strval', cls, data=str_(I, args[0]) if args
                     else Const(''))
    if k == 'ntuple':
        fields = I.o(c).attrs['$ntfields'].v
        vals = list(args)
        if any(isinstance(x, Star) for x in vals):
            raise Imprecise('namedtuple from star args')
        kwargs = dict(kwargs)
        dv = I.o(c).attrs.get('$ntdefaults')
        for t in dv.items if dv is not None else ():
            if t.items[0].v in fields[len(vals):]:
                kwargs.setdefault(t.items[0].v, t.items[1])
        for f in fields[len(vals):]:
            if f not in kwargs:
                raise I.exc('TypeError', Const('missing argument %r' % f))
            vals.append(kwargs[f])
        if len(vals) != len(fields) or len(args) + len(kwargs) != len(
                fields):
            raise I.exc('TypeError', Const('namedtuple arguments'))
        return I.new('ntuple', cls, attrs=dict(zip(fields, vals)),
                     data=vals, extra=fields)
    r = I.new('inst', cls)
    if k == 'exc':
        I.o(r).attrs['args'] = Tup(args)
    return r


def base_init(I, inst, cls, args, kwargs, had_new):
    k, c = base_kind(I, cls)
    if k == 'dict':
        bi_dict_init(I, inst, c.name, args, kwargs)
    elif k == 'list':
        if args:
            list_extend(I, inst, args[0])
    elif k == 'set':
        if args and c.name == 'set':
            I.iterate(args[0], lambda x: set_add(I, inst, x))
    elif k == 'inst' and (args or kwargs) and not had_new:
        raise I.exc('TypeError', Const('%s() takes no arguments'
                                       % cls_name(I, cls)))
    elif k == 'ext':
        I.o(inst).attrs.update({kk: v for kk, v in kwargs.items()})


def bi_dict_init(I, inst, bname, args, kwargs):
    args = list(args)
    if bname == 'defaultdict':
        if args:
            fac = args.pop(0)
            I.w(inst.oid, 'default_factory').extra = \
                None if fac == NONE else fac
    if bname == 'Counter':
        if args:
            def body(x):
                cur = dict_find(I, inst, x)
                dict_set(I, inst, x, binop(
                    I, 'Add', cur.val if cur else Const(0), Const(1)))
            if isinstance(args[0], Ref) and I.o(args[0]).kind == 'dict':
                dict_update(I, inst, args[0])
            else:
                counter_add(I, inst, args[0])
        return
    if args:
        dict_update(I, inst, args[0])
    for k, v in kwargs.items():
        dict_set(I, inst, Const(k), v)


def counter_add(I, inst, it):
    def body(x):
        cur = dict_find(I, inst, x)
        dict_set(I, inst, x, binop(
            I, 'Add', cur.val if cur else Const(0), Const(1)))
    I.iterate(it, body)


def dict_update(I, d, src):
    src = I.resolve(src)
    if isinstance(src, IDict):
        for k, v in list(I.heap[src.oid].attrs.items()):
            dict_set(I, d, Const(k), v)
        return
    if isinstance(src, Ref) and I.o(src).kind == 'dict' and find_method(
            I, src, '__iter__') is None:
        o = I.o(src)
        I.rd(src.oid, '*')
        if not I.o(d).data:
            I.wr(d.oid, '*')
            I.w(d.oid, '*').data = list(o.data)
            return
        for e in list(o.data):
            if e.n is None and not e.guard:
                dict_set(I, d, e.key, e.val)
            else:
                w = I.w(d.oid, '*')
                I.wr(d.oid, '*')
                w.data.append(e)
        return
    if isinstance(src, Ref) and I.o(src).kind in ('inst', 'stub') and \
            hasattr_(I, src, 'keys'):
        def kb(k):
            dict_set(I, d, k, getitem(I, src, k))
        I.iterate(I.call(I.getattr(src, 'keys'), [], {}), kb)
        return
    if isinstance(src, Sym) and src.ty not in ('str', 'name'):
        n = ('items', src.term)
        I.w(d.oid, '*').data.append(DEntry(
            Sym(('key', src.term, ix(n)), 'any'),
            Sym(('val', src.term, ix(n)), 'any'), (n,)))
        I.wr(d.oid, '*')
        return

    def body(x):
        kv = exact_items(I, x, want=2)
        if len(kv) != 2:
            raise I.exc('ValueError', Const('dictionary update sequence'))
        dict_set(I, d, kv[0], kv[1])
    I.iterate(src, body)


def type_call(I, meta, args, kwargs):
    if len(args) == 1:
        return type_of(I, args[0])
    name, bases, ns = args[:3]
    d = {}
    if isinstance(ns, IDict):
        d = dict(I.heap[ns.oid].attrs)
    else:
        for e in I.o(ns).data:
            if not isinstance(e.key, Const) or e.n:
                raise Imprecise('class namespace')
            d[e.key.v] = e.val
    bs = exact_items(I, bases)
    nm = I.strval(name)
    mod = I.site()[0] if I.site() else '?'
    for b in bs:
        if isinstance(b, Bi) and b.name == 'object':
            continue
    cls = make_class(I, nm.v if isinstance(nm, Const) else I.term(nm),
                     [b for b in bs], d, meta if meta != Bi('type')
                     else None, mod)
    if isinstance(meta, Ref):
        I.heap[cls.oid].cls = meta
    return cls


def call_bi_unbound(I, f, args, kwargs):
    """method of a builtin type called through super()/class"""
    return call_bi(I, f.name, args, kwargs)


def kw_items(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref) and I.o(v).kind == 'dict':
        out = []
        for e in I.o(v).data:
            k = I.strval(e.key)
            if not isinstance(k, Const) or e.n:
                raise Imprecise('** with unknown keys')
            out.append((k.v, e.val))
        return out
    if isinstance(v, IDict):
        return list(I.heap[v.oid].attrs.items())
    raise Imprecise('** of %r' % (v,))


# --- awaiting ---------------------------------------------------------------

def await_(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'coro':
            if o.attrs.get('$done'):
                raise I.exc('RuntimeError', Const(
                    'cannot reuse already awaited coroutine'))
            I.w(v.oid).attrs['$done'] = TRUE
            f, a, k = o.data
            return I.run_coro(f, a, k)
        if o.kind == 'gather':
            out = I.new_list()
            for s in o.data:
                I.seg(s, lambda x: list_append(I, out, await_(I, x)))
            return out
        if o.kind == 'stub':
            h = o.extra.get('await') if o.extra else None
            if h is not None:
                return h(I, v)
            raise I.exc('TypeError', Const('object is not awaitable'))
        m = find_method(I, v, '__await__')
        if m is not None:
            raise Imprecise('__await__')
        raise I.exc('TypeError', Const(
            "object %s can't be used in 'await' expression"
            % cls_name(I, type_of(I, v))))
    if isinstance(v, Sym):
        h = I.__dict__.get('await_hook')
        if h is not None:
            r = h(I, v)
            if r is not None:
                return r
        return Sym(('await', v.term), 'any')
    if isinstance(v, Ext):
        return Ext(v.path + '.await')
    raise I.exc('TypeError', Const("can't be used in 'await' expression"))


# --- context managers --------------------------------------------------------

def with_(I, cm, run):
    cm = I.resolve(cm)
    if isinstance(cm, Ref) and I.o(cm).kind == 'cm':
        f, a, k = I.o(cm).data
        yielded = []

        def on_yield(v):
            if yielded:
                raise I.exc('RuntimeError', Const("generator didn't stop"))
            yielded.append(None)
            try:
                run(v)
            except (Ret, Brk, Cont, Through, Stop) as e:
                yielded[0] = e
            return NONE
        ex = I.o(f).extra
        fr = I.bind(f, ex, ex['node'], list(a), dict(k))
        I.run_body(ex['node'], fr, on_yield)
        if not yielded:
            raise I.exc('RuntimeError', Const("generator didn't yield"))
        if yielded[0] is not None:
            raise yielded[0]
        return
    if isinstance(cm, Ref) and I.o(cm).kind == 'suppress':
        try:
            run(NONE)
        except AbsRaise as e:
            if not I.exc_is(e.val, I.o(cm).data):
                raise
        return
    enter = exit_ = None
    if isinstance(cm, Ref) and I.o(cm).kind != 'stub':
        enter = find_method(I, cm, '__enter__') or find_method(
            I, cm, '__aenter__')
        exit_ = find_method(I, cm, '__exit__') or find_method(
            I, cm, '__aexit__')
        if enter is None:
            raise I.exc('TypeError', Const(
                'object does not support the context manager protocol'))
        v = I.call(enter, [], {})
        if isinstance(v, Ref) and I.o(v).kind == 'coro':
            v = await_(I, v)
    elif isinstance(cm, Ref):
        h = I.o(cm).extra or {}
        if 'enter' not in h:
            raise I.exc('TypeError', Const('not a context manager'))
        v = h['enter'](I, cm)
        exit_ = h['exit']
    else:
        I.trace.append(Event('enter', (cm,), I.site()))
        v = Sym(('enter', safe_term(I, cm)), 'any')

    def leave(exc):
        if callable(exit_):
            exit_(I, cm)
            return False
        if exit_ is not None:
            r = I.call(exit_, [NONE, exc if exc is not None else NONE, NONE],
                       {})
            if isinstance(r, Ref) and I.o(r).kind == 'coro':
                r = await_(I, r)
            return I.truth(r) if exc is not None else False
        I.trace.append(Event('exit', (cm,), I.site()))
        return False
    try:
        run(v)
    except AbsRaise as e:
        if leave(e.val):
            return
        raise
    except (Ret, Brk, Cont, Through, Stop):
        leave(None)
        raise
    leave(None)


from .builtins_ import call_bi, call_method, until   # noqa: E402
