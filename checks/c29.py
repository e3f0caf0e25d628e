"""The query context reaches exactly the loaders that ask for it."""
from hikustat.values import *   # noqa
from hikustat import gql, models as M
from hikustat.driver import describe_exc
from hikustat.exprs import Exprs
from checks.c27 import W27, GRAPH, QUERIES

R_CTX = 'C29.marked'
R_NOT = 'C29.unmarked'
R_MISS = 'C29.missing'
R_SUB = 'C29.sub-graph'

KEYS = {'zero': 0, 'none': None, 'empty': '', 'list': [1]}

TRANSFORMS = {
    'the graph': [],
    'metrics': ['m'],
    'metrics twice': ['m', 'm'],
    'introspection': ['i'],
    'introspection, metrics': ['i', 'm'],
    'metrics, introspection': ['m', 'i'],
    'a plain transformer': ['t'],
    'all': ['t', 'i', 'm', 't'],
}
DOCS = {
    'query': 'query Q { rc r1 cc both rp(o: 1) xs { xc xa a e1(o: 2) cc both '
             'xp xo ys { cc n a } yc(o: 1) { n cc } y1 { cc } } '
             'x1 { xc id } yr { cc n } none(o: 2) { n } }',
    'mutation': 'mutation M { rc r1 cc xs { xc cc a y1 { cc n } } }',
    'introspection too': 'query Q { __typename rc xs { __typename xc a '
                         'y1 { __typename cc } } '
                         '__schema { queryType { name } } }',
    'fragments': 'query Q { ...F xs { ... on x { xc a } } } '
                 'fragment F on Query { rc x1 { cc } }',
}


def run(c):
    c.rule(R_CTX, 'a loader marked to receive the context gets the context '
           'of this query as its first argument, on every call')
    c.rule(R_NOT, 'other loaders do not get it, arguments are complete')
    c.rule(R_MISS, 'a missing key of the context raises KeyError naming it, '
           'present ones are returned')
    c.rule(R_SUB, 'loaders of sub-graphs get the same context')
    for t in TRANSFORMS:
        for mode in ('sync', 'async'):
            c.scenario('%s: %s' % (mode, t), lambda s, a=(t, mode):
                       executed(s, *a), R_CTX, cost=3)
    for mode in ('first', 'last'):
        c.scenario('futures, %s' % mode, lambda s, m=mode:
                   executed(s, 'the graph', m), R_CTX, cost=3)
    for mode in ('sync', 'async'):
        for how in ('one step', 'ordered'):
            c.scenario('%s: %s' % (mode, how), lambda s, a=(mode, how):
                       ordered(s, *a), R_CTX, cost=2)
        c.scenario('%s: without a context' % mode, lambda s, m=mode:
                   without(s, m), R_MISS, cost=2)
        c.scenario('%s: low-level root' % mode, lambda s, m=mode:
                   executed(s, 'the graph', m, LOWROOT), R_SUB)
    for kind in ('GraphQLEndpoint', 'AsyncGraphQLEndpoint',
                 'BatchGraphQLEndpoint', 'AsyncBatchGraphQLEndpoint'):
        for d in DOCS:
            c.scenario('%s: %s' % (kind, d), lambda s, a=(kind, d):
                       endpoint(s, *a), R_CTX, cost=2)
    c.scenario('the context as a mapping', mapping, R_MISS)
    c.scenario('marking', marking, R_CTX)


class W29(W27):
    marked_low = ('low t', 'low root', 'low link t.one', 'low link u.kids',
                  'low link .many')

    def __init__(self, s, mode):
        super().__init__(s, mode)
        self.now = None
        self.given = False
        self.checked = set()

    def marked(self, tag):
        if tag.startswith('link '):
            node, field = tag[5:].split(':')
            return GRAPH[node][field][4]
        return tag.startswith('ctx') or tag in self.marked_low

    def is_ctx(self, v):
        v = self.I.resolve(v)
        if not isinstance(v, Ref):
            return False
        if v == self.ctx or self.I.o(v).cls == self.s.get(
                'hiku.engine:Context'):
            return True
        # or a copy of it
        return self.I.o(v).kind == 'dict' and self.s.same3(
            v, value_dict(self.s, self.now) if self.given
            else self.s.dict()) is True

    def called(self, tag, args):
        s = self.s
        rule = R_SUB if tag.startswith('low') else R_CTX
        rest = args
        if self.marked(tag):
            if not s.ok(bool(args) and self.is_ctx(args[0]), rule,
                        '%s, which is marked, does not get the context as '
                        'its first argument, but %s' % (
                            tag, s.show(args[0]) if args else 'nothing')):
                raise s.I.exc('ArithmeticError', Const('no context'))
            self.check(tag, args[0], rule)
            rest = args[1:]
        ok = True
        for a in rest:
            ok = s.ok(not self.is_ctx(a), R_NOT, '%s, which is %s, gets the '
                      'context' % (tag, 'marked, again'
                                   if self.marked(tag) else 'not marked'))
            if not ok:
                raise s.I.exc('ArithmeticError', Const('a context'))
        n = self.arity(tag)
        if n is not None:
            if not s.ok(len(rest) in n, R_NOT, '%s gets %d arguments besides '
                        'the context' % (tag, len(rest))):
                raise s.I.exc('ArithmeticError', Const('arguments'))
        self.log.append((tag, (), True))
        self.clock += 10

    def arity(self, tag):
        if tag.startswith('link '):
            _, card, target, req, ctx, opts = GRAPH[tag[5:].split(':')[0]][
                tag.split(':')[1]]
            return (bool(req) + bool(opts),)
        if tag.startswith('low link .'):
            return (0,)
        if tag.startswith('low link'):
            return (1,)
        if tag == 'low root' or 'root' in tag:
            return (1,)
        return (1, 2) if 'both' in tag else (2,)

    def check(self, tag, ctx, rule):
        s = self.s
        if not self.given:
            exc, r = s.raises(lambda: s.item(ctx, Const('key')))
            s.ok(exc is not None and s.is_exc(exc, 'KeyError'), R_MISS,
                 'reading an absent context does not raise KeyError, but %s'
                 % (s.show(r) if exc is None else describe_exc(
                     s.I, s.last_raise)))
            return
        exc, r = s.raises(lambda: s.item(ctx, Const('key')))
        s.ok(exc is None and s.same3(r, Const(self.now)), rule,
             '%s gets the context with %s instead of %s' % (
                 tag, describe_exc(s.I, s.last_raise) if exc is not None
                 else s.show(r), self.now))
        if tag in self.checked:
            return
        self.checked.add(tag)
        self.missing(ctx)

    def missing(self, ctx, key=Const('absent key')):
        s = self.s
        exc, r = s.raises(lambda: s.item(ctx, key))
        if s.ok(exc is not None and s.is_exc(exc, 'KeyError'), R_MISS,
                'reading a missing key does not raise KeyError, but %s' % (
                    s.show(r) if exc is None else describe_exc(
                        s.I, s.last_raise))):
            text = describe_exc(s.I, s.last_raise).rpartition(' at ')[0]
            s.ok(str(key.v) in text, R_MISS, 'the error does not name the '
                 'missing key: %s' % text)

    def marks(self, fn):
        return self.s.mk('hiku.engine:pass_context', fn)

    def low_loader(self, node):
        s = self.s
        inner_wrap, self.wrap = self.wrap, lambda f: f
        inner = Exprs.low_loader(self, node)
        self.wrap = inner_wrap
        return self.low(inner, 'low ' + (node or 'root'))

    def link_loader(self, node, name, kind):
        inner_wrap, self.wrap = self.wrap, lambda f: f
        inner = super().link_loader(node, name, kind)
        self.wrap = inner_wrap
        return self.low(inner, 'low link %s.%s' % (node, name))

    def low(self, inner, tag):
        s = self.s

        def load(t, args, kw):
            self.called(tag, args)
            return s.I.call(inner, list(args)[bool(self.marked(tag)):], kw)
        fn = self.wrap(s.stub(load, tag=tag))
        return self.marks(fn) if self.marked(tag) else fn

    # the loaders of W27 look at the arguments they log
    def loader(self, tag):
        if tag in self.made:
            return self.made[tag]
        s, I = self.s, self.I

        def load(t, args, kw):
            self.called(tag, args)
            if self.marked(tag):
                args = args[1:]
            names = [s.attr(f, 'name') for f in M.segs_of(I, args[0])]
            names = [(I.resolve(n).v,) for n in names]
            ids = M.segs_of(I, args[1]) if len(args) > 1 else [None]
            rows = [s.list(*[self.value(tag, i, n) for n in names])
                    for i in ids]
            return s.list(*rows) if len(args) > 1 else rows[0]
        fn = s.stub(load, tag=tag)
        if self.mode == 'async':
            fn = self.coro(fn)
        how = {'ctx_root': 'partial', 'ctx_both': 'object',
               'ctx_x': 'class'}.get(tag)
        if how == 'partial':
            fn = s.mk('functools:partial', fn) if False else s.call(s.code(
                'from functools import partial\n'
                'def mk(f):\n    return partial(f)\n', 'mk'), fn)
        elif how in ('object', 'class'):
            fn = s.call(s.code('''
def mk(f, mark):
    class Loader:
        def __init__(self, f):
            self.f = f
        def __call__(self, *args):
            return self.f(*args)
    if mark is not None:
        Loader = mark(Loader)
    return Loader(f)
''', 'mk'), fn, s.get('hiku.engine:pass_context') if how == 'class'
                else NONE)
        if self.marked(tag) and how != 'class':
            fn = self.marks(fn)
        self.made[tag] = fn
        return fn

    def run(self, g, sel, ordered=False, q=None):
        s = self.s
        self.log = []
        args = [g, q if q is not None else self.query(sel, ordered=ordered)]
        if self.given:
            self.now = 'value %s' % len(self.I.trace)
            self.ctx = value_dict(s, self.now)
        else:
            self.ctx = None
        mode = self.mode
        ex = {'async': self.async_executor, 'sync': self.sync}.get(
            mode, lambda: self.scheduler(mode))()
        if self.ctx is not None:
            args.append(self.ctx)
        eng = s.mk('hiku.engine:Engine', ex)

        def go():
            r = s.call(s.attr(eng, 'execute'), *args)
            return M.await_(s.I, r) if mode == 'async' else r
        exc, r = s.raises(go)
        if exc is not None and s.is_exc(exc, 'ArithmeticError'):
            return
        s.ok(exc is None, R_CTX, 'the execution raised %s' % (
            exc and describe_exc(s.I, s.last_raise)))

    def called_all(self, *tags):
        got = {t for t, _, _ in self.log}
        for t in tags:
            self.s.ok(t in got, R_CTX, '%s is not called' % t)


def value_dict(s, now):
    from hikustat.qspec import value
    d = dict(KEYS, key=now)
    return value(s, d)


LOWROOT = {'low-level root': [('xs', None, ['a', ('w', {'o': 2})])]}


def transformed(s, w, g, steps):
    items = []
    n = 0
    for x in steps:
        if x == 'm':
            n += 1
            items.append(w.metrics(name='m%d' % n))
        elif x == 'i':
            items.append(s.mk('hiku.introspection.graphql:' + (
                'AsyncGraphQLIntrospection' if w.mode == 'async'
                else 'GraphQLIntrospection'), g, g))
        else:
            items.append(s.mk('hiku.graph:GraphTransformer'))
    return w.apply(g, *items)


def executed(s, t, mode, queries=QUERIES):
    w = W29(s, mode)
    if queries is LOWROOT:
        extra(w)
    w.given = True
    g = w.build()
    g = transformed(s, w, g, TRANSFORMS[t])
    for q, sel in queries.items():
        w.run(g, sel)
        if 'context' in q:
            w.called_all('ctx_x' if 'fields' in q else 'ctx_root')
        if 'sub-graph' in q:
            w.called_all('low t')
        if q == 'low-level root':
            w.called_all('low root', 'low t', 'low link .many',
                         'low link t.one', 'low u', 'low link u.kids')


def extra(w):
    """an expression which uses the root and links of the sub-graph"""
    from hikustat.exprs import s as sym
    spec = ('e', 't', ('l', sym('f'), ('each', 'm', sym('many'),
                                       sym('m.a')), sym('this.one.c'), (
        'each', 'k', sym('this.one.kids'), sym('k.a'))))
    graph = dict(GRAPH, x=dict(GRAPH['x'], w=spec))
    w.graph_spec = graph


def ordered(s, mode, how):
    w = W29(s, mode)
    w.given = True
    g = w.build()
    for q, sel in QUERIES.items():
        w.run(g, sel, ordered=how == 'ordered')
        w.run(g, sel[:1], ordered=how == 'ordered')


def without(s, mode):
    w = W29(s, mode)
    g = w.build()
    for q in ('context fields', 'root context', 'root links', 'sub-graph',
              'the same functions in the root'):
        w.run(g, QUERIES[q])
    # and not the one of an earlier execution
    w.given = True
    w.run(g, QUERIES['root context'])
    w.given = False
    w.run(g, QUERIES['root context'])


def endpoint(s, kind, doc):
    gql.install(s)
    is_async = 'Async' in kind
    w = W29(s, 'async' if is_async else 'sync')
    w.given = True
    g = w.build()
    eng = s.mk('hiku.engine:Engine',
               w.async_executor() if is_async else w.sync())
    ep = s.mk('hiku.endpoint.graphql:' + kind, eng, g, g)
    op = s.mk('hiku.readers.graphql:read_operation', Const(DOCS[doc]))
    graph = s.attr(ep, 'mutation_graph' if doc == 'mutation'
                   else 'query_graph')
    for again in range(2):
        w.log = []
        w.now = 'value %d' % again
        w.ctx = value_dict(s, w.now)

        def go():
            r = s.meth(ep, 'execute', graph, op, w.ctx)
            return M.await_(s.I, r) if is_async else r
        exc, r = s.raises(go)
        if exc is not None and s.is_exc(exc, 'ArithmeticError'):
            return
        s.ok(exc is None, R_CTX, 'the endpoint raised %s' % (
            exc and describe_exc(s.I, s.last_raise)))
        w.called_all('ctx_root')


def mapping(s):
    """the context behaves as the given mapping"""
    w = W29(s, 'sync')
    d = dict(KEYS, key='value')
    from hikustat.qspec import value
    given = value(s, d)
    ctx = s.mk('hiku.engine:Context', given)
    for k, v in d.items():
        exc, r = s.raises(lambda: s.item(ctx, Const(k)))
        s.ok(exc is None and s.same3(r, value(s, v)), R_MISS,
             'reading %r gives %s' % (k, describe_exc(
                 s.I, s.last_raise) if exc is not None else s.show(r)))
    for key in (Const('absent'), Const(7), Const('')):
        w.missing(ctx, key)
    f = s.code('''
def f(c):
    return [len(c), list(c), 'key' in c, 'absent' in c, c.get('zero', 5),
            c.get('absent', 5), c.get('absent'), dict(c.items()),
            list(c.keys()), list(c.values())]
''', 'f')
    got = s.call(f, ctx)
    want = [len(d), list(d), True, False, 0, 5, None, d, list(d),
            list(d.values())]
    s.ok(s.same3(got, value(s, want)), R_MISS, 'the context is %s instead of '
         '%s' % (s.show(got), want))


def marking(s):
    """pass_context returns the function it marks, and marks it only"""
    f = s.stub(lambda a, k: NONE)
    g = s.stub(lambda a, k: NONE)
    r = s.mk('hiku.engine:pass_context', f)
    s.ok(s.same3(r, f), R_CTX, 'pass_context does not return the function')
    w = W29(s, 'sync')
    seen = []

    def one(args, kw):
        seen.append(('f', len(args)))
        return s.list(Const(1))

    def two(args, kw):
        seen.append(('g', len(args)))
        return s.list(Const(1))
    f = s.mk('hiku.engine:pass_context', s.stub(one))
    g = s.stub(two)
    gr = w.graph(w.root(w.field('a', f), w.field('b', g)))
    q = w.qn(w.qf('a'), w.qf('b'))
    w.execute(gr, q, w.sync(), s.dict(key=Const(1)))
    s.ok(sorted(seen) == [('f', 2), ('g', 1)], R_NOT, 'the marked loader and '
         'the other one get %s arguments' % sorted(seen))
