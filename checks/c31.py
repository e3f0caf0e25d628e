"""An operation behaves the same whatever was done before it, or is going on
at the same time, with the same objects: compared with the same operation
done alone."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, val, nm
from hikustat.qspec import value
from checks.c12 import Backend

R_SEQ = 'C31.repeated'
R_CON = 'C31.concurrent'


def run(c):
    c.rule(R_SEQ, 'an operation makes the same calls of loaders and gives '
           'the same result whatever was done before with the same objects')
    c.rule(R_CON, 'an operation makes the same calls of loaders and gives '
           'the same result when another one is done in the middle of it')
    for env, ops in ENVS.items():
        names = list(ops)
        for a in names:
            for b in names:
                c.scenario('%s: %s, then %s' % (env, b, a),
                           lambda s, x=(env, a, b): repeated(s, *x), R_SEQ,
                           max_paths=1500, cost=2)
                if env in INNER:
                    c.scenario('%s: %s in the middle of %s' % (env, b, a),
                               lambda s, x=(env, a, b): nested(s, *x), R_CON,
                               max_paths=1500, cost=4)


def canon(I, v, d=0):
    """a value which does not depend on the heap"""
    v = I.resolve(v)
    if d > 12:
        return '...'
    if isinstance(v, Const):
        return (type(v.v).__name__, v.v)
    if isinstance(v, Sym):
        return strip(v.term)
    if isinstance(v, Tup):
        return ('tuple',) + tuple(canon(I, x, d + 1) for x in v.items)
    if isinstance(v, Ref):
        o = I.heap[v.oid]
        if o.kind in ('list', 'set'):
            return (o.kind,) + tuple(canon(I, x, d + 1) for x in o.data)
        if o.kind == 'dict':
            return ('dict',) + tuple(
                (canon(I, e.key, d + 1), canon(I, e.val, d + 1))
                for e in o.data)
        if o.kind == 'inst':
            name = M.cls_name(I, o.cls)
            if name in ('Field', 'Link', 'Node'):
                at = [a for a in ('name', 'options', 'alias', 'ordered',
                                  'fields', 'node') if a in o.attrs]
                return (name,) + tuple(canon(I, o.attrs[a], d + 1)
                                       for a in at)
            return ('inst', name)
        if o.kind == 'strval':
            return canon(I, o.data, d)
        return (o.kind,)
    return repr(v)


def strip(t):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('o',) and len(t) == 2:
        return ('o',)
    return tuple(map(strip, t))


class W31(World):
    """loaders log their calls for the operation which is going on"""

    def __init__(self, s):
        super().__init__(s)
        self.logs = []
        self.calls = 0
        self.inner = None

    def called(self, tag, args):
        I = self.I
        if self.logs:
            self.logs[-1].append((tag,) + tuple(canon(I, a) for a in args))
        self.calls += 1
        if self.inner is not None and self.calls == self.inner[0]:
            fn = self.inner[1]
            self.inner = None
            fn()

    def ctxkey(self, args):
        """(context value, arguments)"""
        if args and isinstance(args[0], Ref) and M.isinstance_(
                self.I, args[0], self.s.get('hiku.engine:Context')):
            return (self.I.term(M.getitem(self.I, args[0], Const('c'))),), \
                list(args[1:])
        return (), list(args)

    def loader(self, tag, kind, ctx=False):
        s, I = self.s, self.I

        def load(tag, args, kw):
            self.called(tag, args)
            c, rest = self.ctxkey(args)
            key = lambda f: self.fkey(f) + c if isinstance(
                self.fkey(f), tuple) else (self.fkey(f),) + c
            if kind == 'root':
                return s.list(*[val(tag, key(f))
                                for f in M.segs_of(I, rest[0])])
            if kind == 'node':
                fields = M.segs_of(I, rest[0])
                return s.list(*[
                    s.list(*[val(tag, I.term(i), key(f)) for f in fields])
                    for i in M.segs_of(I, rest[1])])
            if kind == 'complex':
                return s.list(*[value(s, {'p': val(tag, 'p', key(f)),
                                          'q': val(tag, 'q', key(f))})
                                for f in M.segs_of(I, rest[0])])
            # links
            o = ()
            if rest and isinstance(rest[-1], Ref) and \
                    I.o(rest[-1]).kind == 'dict':
                o = (I.term(rest[-1]),)
                rest = rest[:-1]
            if kind == 'many':
                return s.list(s.tok('id', tag, 1, *(c + o)),
                              s.tok('id', 'same'))
            if kind == 'maybe':
                return self.nothing()
            return s.list(*[s.tok('id', tag, I.term(x), *(c + o))
                            for x in M.segs_of(I, rest[0])])
        fn = s.stub(load, tag=tag)
        if self.coros:
            fn = self.coro(fn)
        if ctx:
            fn = s.call(s.get('hiku.engine:pass_context'), fn)
        return fn

    def make_graph(self):
        s = self.s
        o = lambda: s.list(self.option('p', s.get('hiku.types:Any')),
                           self.option('d', NONE, default=value(s, [1])))
        rec = M.getitem(s.I, s.get('hiku.types:Record'), value(s, {
            'p': s.get('hiku.types:Any'), 'q': s.get('hiku.types:Any')}))
        nl = self.loader('nl', 'node')
        rl = self.loader('rl', 'root')
        return self.graph(
            self.node('n', self.field('x', nl), self.field(
                'y', nl, options=o()),
                self.field('w', self.loader('nc', 'node', True)),
                self.link('one', 'one', 'n', self.loader('one', 'one', True),
                          requires='x')),
            self.root(
                self.field('a', rl), self.field('b', rl, options=o()),
                self.field('c', self.loader('cl', 'root', True)),
                self.field('z', self.loader('zl', 'complex', True), rec,
                           options=o()),
                self.link('k', 'many', 'n', self.loader('k', 'many', True),
                          options=o()),
                self.link('m', 'many', 'n', self.loader('m', 'many')),
                self.link('mb', 'maybe', 'n', self.loader('mb', 'maybe'))))


# --- operations of an engine
def q1(w, ordered=False):
    s = w.s
    return w.qn(w.qf('a'), w.qf('b', value(s, {'p': 1}), 'b1'), w.qf('c'),
                w.ql('k', w.qn(w.qf('x'), w.qf('y', value(s, {'p': 2})),
                               w.qf('w')), value(s, {'p': 1})),
                ordered=ordered)


def q2(w):
    s = w.s
    return w.qn(w.qf('b', value(s, {'p': 2}), 'b1'), w.qf('c', None, 'a'),
                w.ql('k', w.qn(w.qf('y', value(s, {'p': 3}), 'x'), w.ql(
                    'one', w.qn(w.qf('w', None, 'y')))),
                    value(s, {'p': 2, 'd': 5})),
                w.ql('z', w.qn(w.qf('q')), value(s, {'p': 1})))


class EngineEnv:

    kind = 'sync'
    pick = 'first'

    def __init__(self, s):
        self.s = s
        self.w = w = W31(s)
        w.coros = self.kind in ('async', 'asyncio')
        self.backend = None
        if self.kind == 'sync':
            ex = w.sync()
        elif self.kind == 'async':
            ex = w.async_executor()
        else:
            self.backend = Backend(s, self.kind)
            self.backend.pick = self.pick
            ex = self.backend.executor()
        self.executor = ex
        self.engine = s.mk('hiku.engine:Engine', ex)
        self.graph = w.make_graph()
        self.init()

    def init(self):
        w, s = self.w, self.s
        self.queries = {
            'q1': q1(w), 'q2': q2(w), 'ordered': q1(w, True),
            'small': w.qn(w.ql('m', w.qn(w.qf('x'))))}
        self.ctxs = {k: value(s, {'c': k}) for k in ('c1', 'c2')}

    def wait(self, r):
        return M.await_(self.s.I, r) if self.w.coros else r

    def execute(self, q, ctx):
        s = self.s
        r = self.wait(s.meth(self.engine, 'execute', self.graph,
                             self.queries[q], self.ctxs[ctx]))
        return s.meth(s.mk('hiku.denormalize.base:Denormalize', self.graph,
                           r), 'process', self.queries[q])

    OPS = {
        'q1': lambda e: e.execute('q1', 'c1'),
        'q1 in another context': lambda e: e.execute('q1', 'c2'),
        'q2': lambda e: e.execute('q2', 'c1'),
        'q1, ordered': lambda e: e.execute('ordered', 'c2'),
        'failure': lambda e: e.fails(),
        'validation': lambda e: e.validates(),
    }

    def fails(self):
        """a loader raises"""
        w, s = self.w, self.s

        def load(args, kw):
            w.called('raise', [])
            raise s.I.exc('KeyError', Const('x'))
        fn = s.stub(load)
        if w.coros:
            fn = w.coro(fn)
        rl = w.loader('rl', 'root')
        g = w.graph(w.root(w.field('a', rl), w.field('f', fn)))
        exc, r = s.raises(lambda: self.wait(s.meth(
            self.engine, 'execute', g, w.qn(w.qf('a'), w.qf('f')))))
        return Const(str(exc and s.I.exc_name(exc)))

    def validates(self):
        w, s = self.w, self.s
        f = s.get('hiku.validate.query:validate')
        bad = w.qn(w.qf('nope'), w.qf('b'), w.ql('k', w.qn(w.qf('zz'))))
        return s.list(s.call(f, self.graph, bad),
                      s.call(f, self.graph, self.queries['q1']))


class AsyncEnv(EngineEnv):
    kind = 'async'


class SmallEnv(EngineEnv):
    OPS = {
        'two': lambda e: e.execute('two', 'c1'),
        'another': lambda e: e.execute('another', 'c2'),
        'failure': lambda e: e.fails(),
    }

    def init(self):
        w, s = self.w, self.s
        self.queries = {
            'two': w.qn(w.qf('c'), w.ql('m', w.qn(w.qf('x')))),
            'another': w.qn(w.qf('c', None, 'd'),
                            w.qf('b', value(s, {'p': 1}), 'e'))}
        self.ctxs = {k: value(s, {'c': k}) for k in ('c1', 'c2')}


class ThreadsEnv(SmallEnv):
    kind = 'threads'


class AsyncIOEnv(SmallEnv):
    kind = 'asyncio'


class ThreadsLast(ThreadsEnv):
    pick = 'last'


class AsyncIOLast(AsyncIOEnv):
    pick = 'last'


# --- documents
FR = ('query Q($v: Any) { ...F } fragment F on Query '
      '{ a b(p: $v) k(p: $v) { ...N } } fragment N on n { x }')
FR2 = ('query Q($v: Any) { ...F } fragment F on Query '
       '{ c b(p: $v) k(p: $v) { ...N } } fragment N on n { y(p: $v) }')


class EndpointEnv(EngineEnv):
    cls = 'GraphQLEndpoint'

    def init(self):
        s = self.s
        gql.install(s)
        mut = self.w.graph(self.w.root(
            self.w.field('a', self.w.loader('ma', 'root')),
            self.w.field('mu', self.w.loader('mm', 'root'))))
        self.ep = s.mk('hiku.endpoint.graphql:' + self.cls, self.engine,
                       self.graph, mut)
        # contexts of the endpoints are empty
        self.w.ctxkey = lambda args: ((), [
            x for x in args if not (isinstance(x, Ref) and M.isinstance_(
                s.I, x, s.get('hiku.engine:Context')))])

    def dispatch(self, doc, variables=None, op=None):
        s = self.s
        d = {'query': doc}
        if variables is not None:
            d['variables'] = variables
        if op is not None:
            d['operationName'] = op
        r = self.wait(s.meth(self.ep, 'dispatch', value(s, d)))
        return r

    OPS = {
        'fragments': lambda e: e.dispatch(FR, {'v': 1}),
        'the same with other variables': lambda e: e.dispatch(FR, {'v': [2]}),
        'other fragments': lambda e: e.dispatch(FR2, {'v': 1}),
        'no variables': lambda e: e.dispatch('{ a k(p: 1) { x } }'),
        'operation A': lambda e: e.dispatch(
            'query A { a } query B { c a: c }', None, 'A'),
        'operation B': lambda e: e.dispatch(
            'query A { a } query B { c a: c }', None, 'B'),
        'mutation': lambda e: e.dispatch('mutation { mu a }'),
        'query of the mutation': lambda e: e.dispatch('{ a mu }'),
        'skipped': lambda e: e.dispatch(
            'query ($v: Boolean) { a @skip(if: $v) c }', {'v': True}),
        'not skipped': lambda e: e.dispatch(
            'query ($v: Boolean) { a @skip(if: $v) c }', {'v': False}),
        'invalid': lambda e: e.dispatch('{ a nope k { x } }'),
        'invalid, the same names': lambda e: e.dispatch(
            '{ a b(zz: 1) k(p: 1) { nope } }'),
        'valid, the same names': lambda e: e.dispatch(
            '{ a b(p: 1) k(p: 1) { x } }'),
        'undefined fragment': lambda e: e.dispatch('{ a ...F }'),
        'defined fragment': lambda e: e.dispatch(
            '{ ...F } fragment F on Query { a }'),
        'introspection': lambda e: e.dispatch(
            '{ __schema { queryType { name fields { name } } } '
            '__type(name: "n") { name } }'),
    }


class AsyncEndpointEnv(EndpointEnv):
    kind = 'async'
    cls = 'AsyncGraphQLEndpoint'
    OPS = {k: EndpointEnv.OPS[k] for k in (
        'fragments', 'the same with other variables', 'mutation',
        'invalid')}


class BatchEnv(EndpointEnv):
    cls = 'BatchGraphQLEndpoint'

    def dispatch(self, *args):
        s = self.s
        return self.wait(s.meth(self.ep, 'dispatch', value(s, [
            {'query': d, 'variables': v} for d, v in args])))
    OPS = {
        'two': lambda e: e.dispatch((FR, {'v': 1}), (FR2, {'v': 2})),
        'other two': lambda e: e.dispatch((FR2, {'v': 2}), (FR, {'v': 2})),
    }


class AsyncBatchEnv(BatchEnv):
    kind = 'async'
    cls = 'AsyncBatchGraphQLEndpoint'


class ReaderEnv:
    """readers of documents"""

    def __init__(self, s):
        self.s = s
        self.w = W31(s)
        gql.install(s)

    def read(self, doc, variables=None, name=None):
        s = self.s
        exc, op = s.raises(lambda: s.call(
            s.get('hiku.readers.graphql:read_operation'), Const(doc),
            NONE if variables is None else value(s, variables), nm(name)))
        if exc is not None:
            return Const(s.I.exc_name(exc))
        return s.list(s.attr(s.attr(op, 'type'), 'name'),
                      s.attr(op, 'query'))

    OPS = {
        'variables': lambda e: e.read(FR, {'v': 1}),
        'other variables': lambda e: e.read(FR, {'v': {'x': 1}}),
        'equal variables': lambda e: e.read(FR, {'v': True}),
        'no variables': lambda e: e.read(FR, {}),
        'other fragments': lambda e: e.read(FR2, {'v': 1}),
        'default': lambda e: e.read(
            'query ($v: Any = {x: 1}) { b(p: $v) }', {}),
        'not default': lambda e: e.read(
            'query ($v: Any = {x: 1}) { b(p: $v) }', {'v': 2}),
        'missing': lambda e: e.read('query ($v: Any!) { b(p: $v) }', {}),
        'operation A': lambda e: e.read(
            'query A { a } mutation B { b }', None, 'A'),
        'operation B': lambda e: e.read(
            'query A { a } mutation B { b }', None, 'B'),
        'undefined fragment': lambda e: e.read('{ ...F a }'),
        'defined fragment': lambda e: e.read(
            '{ ...F } fragment F on Query { b }'),
    }


ENVS = {'engine': EngineEnv.OPS, 'asynchronous engine': EngineEnv.OPS,
        'thread pool': SmallEnv.OPS, 'event loop': SmallEnv.OPS,
        'endpoint': EndpointEnv.OPS,
        'asynchronous endpoint': AsyncEndpointEnv.OPS,
        'batch endpoint': BatchEnv.OPS,
        'asynchronous batch endpoint': BatchEnv.OPS,
        'reader': ReaderEnv.OPS}
CLS = {'engine': EngineEnv, 'asynchronous engine': AsyncEnv,
       'thread pool': ThreadsEnv, 'event loop': AsyncIOEnv,
       'thread pool, newest first': ThreadsLast,
       'event loop, newest first': AsyncIOLast,
       'endpoint': EndpointEnv, 'asynchronous endpoint': AsyncEndpointEnv,
       'batch endpoint': BatchEnv,
       'asynchronous batch endpoint': AsyncBatchEnv, 'reader': ReaderEnv}
INNER = ('engine', 'asynchronous engine', 'asynchronous endpoint',
         'asynchronous batch endpoint', 'thread pool', 'event loop',
         'thread pool, newest first', 'event loop, newest first')


def do(e, op):
    """(calls, result) of an operation, independent of the heap"""
    s = e.s
    log = []
    e.w.logs.append(log)
    try:
        exc, r = s.raises(lambda: e.OPS[op](e))
    finally:
        e.w.logs.pop()
    if exc is not None:
        return log, ('raises', s.I.exc_name(exc), canon(
            s.I, s.attr(exc, 'args')))
    return log, canon(s.I, r)


def alone(s, e, op):
    """the operation in a copy of the present state"""
    I = s.I
    heap, trace = dict(I.heap), list(I.trace)
    I.gen += 1
    tasks = e.backend and list(e.backend.tasks) if hasattr(
        e, 'backend') else None
    calls = e.w.calls
    r = do(e, op)
    n = e.w.calls - calls
    I.gen += 1
    I.heap = heap
    I.trace = trace
    if tasks is not None:
        e.backend.tasks[:] = tasks
    return r, n


def compare(s, rule, got, want, what):
    s.ok(sorted(map(repr, got[0])) == sorted(map(repr, want[0])), rule,
         '%s: loaders are called with %s, alone with %s' % (
             what, short(got[0]), short(want[0])))
    s.ok(got[1] == want[1], rule, '%s: the result is %s, alone it is %s' % (
        what, short(got[1]), short(want[1])))


def short(x):
    return repr(x)[:300]


def repeated(s, env, a, b):
    e = CLS[env](s)
    want, n = alone(s, e, a)
    other, n = alone(s, e, b)
    got = do(e, b)
    compare(s, R_SEQ, got, other, b)
    got = do(e, a)
    compare(s, R_SEQ, got, want, '%s after %s' % (a, b))
    got = private(s, lambda: do(e, b))
    compare(s, R_SEQ, got, other, '%s once more, after %s' % (b, a))


def private(s, fn):
    """nothing an operation keeps in an object which outlives it is read
    back by it: another operation could have replaced it in between"""
    I = s.I
    known = {oid for oid, o in I.heap.items() if o.kind in ('inst', 'class')}
    known |= {I.o(m).extra[1] for m in I.modules.values()}
    written, bad = {}, []

    def hook(kind, oid, slot):
        if oid not in known or not isinstance(slot, str) or slot[:1] in '*+$':
            return
        if kind == 'w':
            written.setdefault((oid, slot), I.site())
        elif (oid, slot) in written:
            v = I.heap[oid].attrs.get(slot)
            if v is None or isinstance(v, Const) and not isinstance(
                    v.v, str):
                return
            bad.append((oid, slot, written[oid, slot]))
    I.rw_hook = hook
    try:
        return fn()
    finally:
        I.rw_hook = None
        for oid, slot, site in bad[:1]:
            s.ok(False, R_CON, 'an operation keeps its own value in %s of %s '
                 'and reads it back' % (slot, s.show(Ref(oid))[:80]), site)


def nested(s, env, a, b):
    e = CLS[env](s)
    want, n = alone(s, e, a)
    other, m = alone(s, e, b)
    for k in range(1, n + 1):
        box = []
        e.w.calls = 0
        e.w.inner = (k, lambda: box.append(do(e, b)))
        got = do(e, a)
        e.w.inner = None
        what = 'in the middle of call %d of a loader' % k
        compare(s, R_CON, got, want, '%s with %s %s' % (a, b, what))
        for r in box:
            compare(s, R_CON, r, other, '%s %s of %s' % (b, what, a))
