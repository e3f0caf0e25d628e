"""Functions of the standard library, written out in Python and interpreted
like the code that calls them."""
import ast
import textwrap

from .values import *   # noqa
from . import extlib

ITER2 = '''
def f(c, s):
    while True:
        x = c()
        if x == s:
            return
        yield x
'''

SRC = {
    'itertools.takewhile': '''
        def f(p, it):
            for x in it:
                if not p(x):
                    return
                yield x
        ''',
    'itertools.dropwhile': '''
        def f(p, it):
            go = False
            for x in it:
                if not go and p(x):
                    continue
                go = True
                yield x
        ''',
    'itertools.accumulate': '''
        def f(it, func=None, *, initial=None):
            first = initial is None
            acc = initial
            if not first:
                yield acc
            for x in it:
                if first:
                    acc = x
                    first = False
                else:
                    acc = acc + x if func is None else func(acc, x)
                yield acc
        ''',
    'itertools.compress': '''
        def f(data, sel):
            return iter([d for d, s in zip(data, sel) if s])
        ''',
    'itertools.product': '''
        def f(*its, repeat=1):
            out = [()]
            for it in [list(i) for i in its] * repeat:
                out = [t + (x,) for t in out for x in it]
            return iter(out)
        ''',
    'itertools.zip_longest': '''
        def f(*its, fillvalue=None):
            ls = [list(i) for i in its]
            n = max([len(l) for l in ls])
            return iter([tuple([l[i] if i < len(l) else fillvalue
                                for l in ls]) for i in range(n)])
        ''',
    'itertools.groupby': '''
        def f(it, key=None):
            out = []
            for x in it:
                k = x if key is None else key(x)
                if out and out[-1][0] == k:
                    out[-1][1].append(x)
                else:
                    out.append((k, [x]))
            return iter([(k, iter(g)) for k, g in out])
        ''',
    'itertools.tee': '''
        def f(it, n=2):
            ls = list(it)
            return tuple([iter(ls) for _ in range(n)])
        ''',
    'itertools.pairwise': '''
        def f(it):
            ls = list(it)
            return iter(list(zip(ls, ls[1:])))
        ''',
    'bisect.insort': '''
        def f(a, x, lo=0, hi=None, *, key=None):
            if key is not None or lo or hi is not None:
                raise NotImplementedError
            i = 0
            while i < len(a) and not x < a[i]:
                i += 1
            a.insert(i, x)
        ''',
    'bisect.insort_left': '''
        def f(a, x):
            i = 0
            while i < len(a) and a[i] < x:
                i += 1
            a.insert(i, x)
        ''',
    'bisect.bisect': '''
        def f(a, x):
            i = 0
            while i < len(a) and not x < a[i]:
                i += 1
            return i
        ''',
    'bisect.bisect_left': '''
        def f(a, x):
            i = 0
            while i < len(a) and a[i] < x:
                i += 1
            return i
        ''',
    'contextlib.nullcontext': '''
        def f(enter_result=None):
            class nullcontext:
                def __enter__(self):
                    return enter_result
                def __exit__(self, *exc):
                    return None
                async def __aenter__(self):
                    return enter_result
                async def __aexit__(self, *exc):
                    return None
            return nullcontext()
        ''',
    'contextlib.closing': '''
        def f(thing):
            class closing:
                def __enter__(self):
                    return thing
                def __exit__(self, *exc):
                    thing.close()
            return closing()
        ''',
    'functools.singledispatch': '''
        def f(func):
            table = {}
            def dispatch(cls):
                ok = [c for c in table if issubclass(cls, c)]
                for c in ok:
                    if all(issubclass(c, d) for d in ok):
                        return table[c]
                return func
            def wrapper(*args, **kw):
                return dispatch(type(args[0]))(*args, **kw)
            def register(cls, impl=None):
                if not isinstance(cls, type):
                    imprecise()
                if impl is None:
                    return lambda g: register(cls, g)
                table[cls] = impl
                return impl
            wrapper.register = register
            wrapper.dispatch = dispatch
            return wrapper
        ''',
    'heapq.heappush': '''
        def f(h, x):
            h.append(x)
        ''',
    'heapq.heappop': '''
        def f(h):
            if not h:
                raise IndexError('index out of range')
            x = min(h)
            h.remove(x)
            return x
        ''',
    'types.SimpleNamespace': '''
        def f(**kw):
            class SimpleNamespace:
                pass
            o = SimpleNamespace()
            for k in kw:
                setattr(o, k, kw[k])
            return o
        ''',
    'itertools.combinations': '''
        def f(it, r):
            out = [((), list(it))]
            for _ in range(r):
                out = [(t + (x,), rest[i + 1:]) for t, rest in out
                       for i, x in enumerate(rest)]
            return iter([t for t, _ in out])
        ''',
    'itertools.permutations': '''
        def f(it, r=None):
            its = list(it)
            out = [((), its)]
            for _ in range(len(its) if r is None else r):
                out = [(t + (x,), rest[:i] + rest[i + 1:])
                       for t, rest in out for i, x in enumerate(rest)]
            return iter([t for t, _ in out])
        ''',
    'typing.cast': 'def f(t, v): return v',
    'operator.truth': 'def f(a): return True if a else False',
    'operator.not_': 'def f(a): return not a',
    'operator.neg': 'def f(a): return -a',
    'operator.contains': 'def f(a, b): return b in a',
    'operator.getitem': 'def f(a, b): return a[b]',
    'operator.setitem': 'def f(a, b, c): a[b] = c',
    'operator.delitem': 'def f(a, b): del a[b]',
    'operator.concat': 'def f(a, b): return a + b',
    'operator.call': 'def f(a, *b, **k): return a(*b, **k)',
    'operator.countOf': 'def f(a, b): return sum(1 for x in a if x == b)',
}
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'),
               ('floordiv', '//'), ('mod', '%'), ('or_', '|'),
               ('and_', '&'), ('xor', '^'), ('eq', '=='), ('ne', '!='),
               ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='),
               ('is_', 'is'), ('is_not', 'is not')):
    SRC['operator.' + _n] = 'def f(a, b): return a %s b' % _o
for _n, _o in (('add', '+='), ('sub', '-='), ('or', '|='), ('and', '&='),
               ('concat', '+=')):
    SRC['operator.i' + _n] = 'def f(a, b):\n    a %s b\n    return a' % _o

# modules of plain computations: what is not written out is not known to
# leave its arguments alone
PURE = {'itertools', 'operator', '_operator', 'functools', '_functools',
        'bisect', '_bisect', 'heapq', '_heapq', 'random', 'collections',
        '_collections', 'contextlib', 'copy', 'graphlib', 'queue'}


def install(I):
    for path, src in SRC.items():
        h = shim(textwrap.dedent(src).strip())
        for p in {path, extlib.canon(path)}:
            I.ext_handlers[p] = h
    I.ext_handlers['dataclasses.dataclass'] = dataclass
    I.ext_handlers['dataclasses.field'] = dc_field


_cache = {}


def imprecise(I, f, a, k):
    raise Imprecise('standard library')


def shim(src):
    def call(I, a, k):
        from .interp import Frame
        tree = _cache.get(src)
        if tree is None:
            tree = _cache[src] = ast.parse(src)
        fr = I.new('frame', extra=None)
        I.setvar_raw(fr.oid, '__name__', Const('stdlib'))
        I.setvar_raw(fr.oid, 'imprecise', I.new('stub', data=imprecise))
        f = Frame(fr.oid, 'stdlib')
        I.stack.append(f)
        try:
            I.block(tree.body, f)
        finally:
            I.stack.pop()
        return I.call(I.heap[fr.oid].attrs['f'], list(a), dict(k))
    return call


def unknown_effect(path, args, kwargs):
    """a call which may change what it is given"""
    if path.split('.')[0] not in PURE:
        return False
    return any(isinstance(x, Ref) for x in list(args) + list(
        kwargs.values()))


def dataclass(I, a, k):
    if not a or a[0] == NONE:
        return I.new('stub', data=lambda I, f, a2, k2: dataclass(
            I, a2, k))
    cls = a[0]
    opts = {n: I.resolve(v).v for n, v in k.items()}
    if set(opts) - {'frozen', 'eq', 'repr', 'init', 'unsafe_hash', 'slots'} \
            or opts.get('unsafe_hash') or opts.get('slots') \
            or not opts.get('init', True):
        raise Imprecise('dataclass options')
    ex = I.o(cls).extra
    fields = {}
    for b in reversed(ex['mro'][1:]):
        if isinstance(b, Ref):
            fields.update(I.o(b).extra.get('dcfields', {}))
    for n in ex.get('ann', ()):
        v = I.o(cls).attrs.get(n)
        kind = 'value' if v is not None else None
        if isinstance(v, Sym) and v.term[:2] == ('call',
                                                 'dataclasses.field'):
            raise Imprecise('dataclass field')
        if isinstance(v, Ref) and '$dcfield' in I.o(v).attrs:
            o = I.o(v).attrs
            kind = o['$dcfield'].v
            v = o['v']
            if kind == 'value':
                I.w(cls.oid).attrs[n] = v
            else:
                I.w(cls.oid).attrs.pop(n)
        fields[n] = (kind, v)
    ex['dcfields'] = fields
    ps = ''.join(', %s%s' % (n, '' if kd is None else '=M')
                 for n, (kd, v) in fields.items())
    body = ''.join(
        '        S(self, %r, %s)\n' % (n, n if kd is None else (
            '%s if %s is not M else D[%r]%s' % (
                n, n, n, '' if kd == 'value' else '()')))
        for n, (kd, v) in fields.items())
    tup = lambda o: '(%s)' % ''.join('%s.%s, ' % (o, n) for n in fields)
    src = ('def f(D, M, S):\n'
           '    def __init__(self%s):\n%s'
           '        %s\n'
           '    def __eq__(self, other):\n'
           '        if other.__class__ is not self.__class__:\n'
           '            return NotImplemented\n'
           '        return %s == %s\n'
           '    def __hash__(self):\n'
           '        return hash(%s)\n'
           '    def frozen(self, *a):\n'
           '        raise AttributeError(\'cannot assign to field\')\n'
           '    return __init__, __eq__, __hash__, frozen\n') % (
        ps, body, 'self.__post_init__()' if any(
            isinstance(c, Ref) and '__post_init__' in I.o(c).attrs
            for c in ex['mro']) else 'pass', tup('self'), tup('other'),
        tup('self'))
    d = I.new_dict()
    from . import models as M
    for n, (kd, v) in fields.items():
        if kd is not None:
            M.setitem(I, d, Const(n), v)
    r = I.resolve(shim(src)(I, [d, I.new('stub'), M.getattr_(
        I, M.builtin(I, 'object'), '__setattr__')], {}))
    at = I.w(cls.oid).attrs
    new = dict(zip(('__init__', '__eq__', '__hash__', 'frozen'), r.items))
    names = ['__init__']
    if opts.get('eq', True):
        names.append('__eq__')
        if opts.get('frozen'):
            names.append('__hash__')
        else:
            at.setdefault('__hash__', NONE)
    for n in names:
        if n == '__init__' or n not in at:
            at[n] = new[n]
    if opts.get('frozen'):
        at['__setattr__'] = at['__delattr__'] = new['frozen']
    return cls


def dc_field(I, a, k):
    if set(k) - {'default', 'default_factory', 'repr', 'compare'} \
            or k.get('compare', TRUE) != TRUE:
        raise Imprecise('dataclass field')
    kind, v = None, NONE
    if 'default' in k:
        kind, v = 'value', k['default']
    if 'default_factory' in k:
        kind, v = 'factory', k['default_factory']
    return I.new('stub', attrs={'$dcfield': Const(kind), 'v': v})
