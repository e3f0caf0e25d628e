"""The GraphQL endpoints answer every document with data or errors; nothing
is executed unless the document can be read and is valid; queries run against
the query graph, mutations against the mutation graph; the asynchronous
endpoints do the same; a batch gets its responses in order."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, val, nm
from hikustat.qspec import value

R_ERR = 'C20.errors'
R_RUN = 'C20.not_executed'
R_DATA = 'C20.data'
R_GRAPH = 'C20.graph'
R_BATCH = 'C20.batch'
MOD = 'hiku.endpoint.graphql:'
KINDS = {'GraphQLEndpoint': False, 'BatchGraphQLEndpoint': False,
         'AsyncGraphQLEndpoint': True, 'AsyncBatchGraphQLEndpoint': True}

T = object()
Q, X = 'query', 'mutation'
# document, variables, operation name -> (graph the loaders belong to,
# {result name: loader or nested})
GOOD = {
    'fields': ('{ a b }', None, None, Q, {'a': 'a', 'b': 'b'}),
    'aliases': ('{ x: a y: b a }', None, None, Q,
                {'x': 'a', 'y': 'b', 'a': 'a'}),
    'links': ('{ k { x __typename } one { y } }', None, None, Q,
              {'k': [{'x': 'x', '__typename': Const('n')}],
               'one': {'y': 'y'}}),
    'typename': ('{ __typename a }', None, None, Q,
                 {'__typename': Const('Query'), 'a': 'a'}),
    'only typename': ('{ __typename }', None, None, Q,
                      {'__typename': Const('Query')}),
    'mutation': ('mutation { a k { x } __typename }', None, None, X,
                 {'a': 'a', 'k': [{'x': 'x'}],
                  '__typename': Const('Mutation')}),
    'mutation of its own field': ('mutation M { m }', None, None, X,
                                  {'m': 'm'}),
    'operation name': ('query A { a } mutation B { a } query C { b }', None,
                       'B', X, {'a': 'a'}),
    'operation name of a query': (
        'mutation B { a } query A { a } query C { b }', None, 'A', Q,
        {'a': 'a'}),
    'variables': ('query ($v: Int) { o(p: $v) }', {'v': 1}, None, Q,
                  {'o': 'o'}),
    'default': ('query ($v: Int = 2) { o(p: $v) }', {}, None, Q,
                {'o': 'o'}),
    'fragment': ('{ ...F } fragment F on Query { a k { x } }', None, None, Q,
                 {'a': 'a', 'k': [{'x': 'x'}]}),
    'complex field': ('{ z { p } }', None, None, Q, None),
    'introspection': ('{ __schema { queryType { name } '
                      'mutationType { name } } }', None, None, Q, None),
    'introspection in a mutation': (
        'mutation { __schema { queryType { name } } m }', None, None, X,
        None),
    'skipped': ('{ a b @skip(if: true) }', None, None, Q, {'a': 'a'}),
}

BAD = {
    'syntax error': ('{ a', None, None),
    'syntax error at the end': ('{ a } }', None, None),
    'empty document': ('', None, None),
    'no operation': ('fragment F on Query { a }', None, None),
    'ambiguous operation': ('query A { a } query B { b }', None, None),
    'unknown operation': ('query A { a }', None, 'B'),
    'duplicated operation': ('query A { a } query A { b }', None, 'A'),
    'subscription': ('subscription { a }', None, None),
    'undefined fragment': ('{ a ...F }', None, None),
    'undefined fragment in a mutation': ('mutation { a ...F }', None, None),
    'cyclic fragment': ('{ ...F } fragment F on Query { a ...F }', None,
                        None),
    'duplicated fragment': ('{ ...F } fragment F on Query { a } '
                            'fragment F on Query { b }', None, None),
    'undeclared variable': ('{ a o(p: $v) }', {'v': 1}, None),
    'missing variable': ('query ($v: Int!) { a o(p: $v) }', {}, None),
    'directive without arguments': ('{ a b @skip }', None, None),
    'directive with a wrong argument': ('{ a b @include(x: true) }', None,
                                        None),
    'type definition': ('{ a } type T { x: Int }', None, None),
    'schema definition': ('schema { query: Q } { a }', None, None),
    'huge number': ('{ a o(p: %s) }' % ('9' * 5000), None, None),
    'unknown field': ('{ a nope }', None, None),
    'unknown special field': ('{ a __nope }', None, None),
    'unknown special field in a link': ('{ k { x __nope } }', None, None),
    'introspection link as a field': ('{ a __schema }', None, None),
    'introspection link in a node': ('{ k { x __schema { queryType { name } '
                                     '} } }', None, None),
    'field named like __typename': ('{ a __typenames }', None, None),
    'aliased unknown field': ('{ a __typename: nope }', None, None),
    'unknown field in a link': ('{ a k { x nope } }', None, None),
    'unknown link': ('{ a nope { x } }', None, None),
    'link as a field': ('{ a k }', None, None),
    'field as a link': ('{ b a { x } }', None, None),
    'field of the other graph': ('{ a m }', None, None),
    'query field in a mutation': ('mutation { a b }', None, None),
    'unknown option': ('{ b a(p: 1) }', None, None),
    'missing option': ('{ a o }', None, None),
    'wrong option': ('{ a o(p: "s") }', None, None),
    'wrong option from a variable': ('query ($v: Int) { a o(p: $v) }',
                                     {'v': 's'}, None),
    'wrong option in a fragment': (
        '{ a ...F } fragment F on Query { o(p: {x: 1}) }', None, None),
    'null for an option': ('{ a o(p: null) }', None, None),
    'conflicting aliases': ('{ x: a x: b }', None, None),
    'conflicting options': ('{ o(p: 1) o(p: 2) }', None, None),
    'selection of __typename': ('{ a __typename { x } }', None, None),
    'selection of __typename in a link': ('{ k { x __typename { y } } }',
                                          None, None),
    'unknown field of a complex field': ('{ a z { nope } }', None, None),
    'link in a complex field': ('{ a z { p { q } } }', None, None),
    'unknown link in a complex field': ('{ a z { nope { q } } }', None,
                                        None),
    'invalid introspection': ('{ a __schema { nope } }', None, None),
}


def run(c):
    c.rule(R_ERR, 'a document that cannot be parsed, read or validated, or '
           'whose operation has no graph, is answered with errors')
    c.rule(R_RUN, 'no loader is called for such a document')
    c.rule(R_DATA, 'a readable and valid operation is answered with its data')
    c.rule(R_GRAPH, 'queries run against the query graph, mutations against '
           'the mutation graph')
    c.rule(R_BATCH, 'a batch gets one response per request, in order')
    for kind in KINDS:
        for name, a in GOOD.items():
            c.scenario('%s: %s' % (kind, name),
                       lambda s, k=kind, a=a: good(s, k, *a), R_DATA, a[0])
        for name, a in BAD.items():
            c.scenario('%s: rejects: %s' % (kind, name),
                       lambda s, k=kind, a=a: bad(s, k, *a), R_ERR, a[0])
        c.scenario('%s: mutation without a mutation graph' % kind,
                   lambda s, k=kind: bad(s, k, 'mutation { a }', None, None,
                                         mutations=False), R_ERR)
        c.scenario('%s: query without a mutation graph' % kind,
                   lambda s, k=kind: good(s, k, '{ a }', None, None, Q,
                                          {'a': 'a'}, mutations=False),
                   R_DATA)
        for name, a in (('operation name of a query', (
                'query A { a } mutation B { a } query C { b }', None, 'C', Q,
                {'b': 'b'})), ('only operation, named', (
                    'query A { a }', None, 'A', Q, {'a': 'a'})),
                ('variables', GOOD['variables'])):
            c.scenario('%s: %s, no mutation graph' % (kind, name),
                       lambda s, k=kind, a=a: good(s, k, *a,
                                                   mutations=False), R_DATA)
        for name, a in (('unknown operation', BAD['unknown operation']),
                        ('named mutation', ('query A { a } mutation B { a }',
                                            None, 'B')),
                        ('ambiguous operation', BAD['ambiguous operation'])):
            c.scenario('%s: rejects: %s, no mutation graph' % (kind, name),
                       lambda s, k=kind, a=a: bad(s, k, *a, mutations=False),
                       R_ERR)
        if 'Batch' in kind:
            c.scenario('%s: batch of one document' % kind,
                       lambda s, k=kind: same_batch(s, k), R_BATCH)
            c.scenario('%s: batch' % kind, lambda s, k=kind: batch(s, k),
                       R_BATCH)
            c.scenario('%s: empty batch' % kind,
                       lambda s, k=kind: empty(s, k), R_BATCH)
            c.scenario('%s: any number of requests' % kind,
                       lambda s, k=kind: star_batch(s, k), R_BATCH)
            c.scenario('%s: any number of invalid requests' % kind,
                       lambda s, k=kind: star_bad(s, k), R_BATCH)


class Setup:

    def __init__(self, s, kind, mutations=True):
        gql.install(s)
        self.s, self.I = s, s.I
        self.w = w = World(s)
        self.async_ = KINDS[kind]
        ex = w.async_executor() if self.async_ else w.sync()
        eng = s.mk('hiku.engine:Engine', ex)
        g = {Q: self.graph(Q, 'b', 'o'), X: self.graph(X, 'm', 'o2')}
        args = [g[Q]] + ([g[X]] if mutations else [])
        self.ep = s.mk(MOD + kind, eng, *args)

    def graph(self, tag, *extra):
        w, s = self.w, self.s
        wrap = w.coro if self.async_ else (lambda f: f)
        t = lambda n: (tag, n)
        one = w.const_loader(t('one'), s.tok('id1'))
        many = w.const_loader(t('k'), lambda: s.list(
            s.star('K', lambda i: s.tok('idk', i))))
        n = w.node('n', w.field('x', wrap(w.node_loader(t('x')))),
                   w.field('y', wrap(w.node_loader(t('y')))))
        i = s.get('hiku.types:Integer')
        rec = s.item(s.get('hiku.types:Record'), s.dict(p=i))
        f, o = extra
        return w.graph(n, w.root(
            w.field('a', wrap(w.root_loader(t('a')))),
            w.field(f, wrap(w.root_loader(t(f)))),
            w.field(o, wrap(w.root_loader(t(o))),
                    options=s.list(w.option('p', i))),
            w.field('z', wrap(w.const_loader(t('z'), lambda: s.list(
                s.dict(p=val('zp'))))), type_=rec),
            w.link('one', 'one', 'n', wrap(one)),
            w.link('k', 'many', 'n', wrap(many))))

    def dispatch(self, data):
        r = self.s.meth(self.ep, 'dispatch', data)
        if self.async_:
            r = M.await_(self.I, r)
        return r

    def request(self, doc, vs=None, op=None):
        d = {'query': doc}
        if vs is not None:
            d['variables'] = vs
        if op is not None:
            d['operationName'] = op
        return value(self.s, d)

    def loads(self):
        return [e.data[0] for e, ns in self.s.events('load')]


def has(u, d, key):
    return M.contains(u.I, d, Const(key))


def check_data(u, r, want, tag, what=''):
    s = u.s
    if not s.ok(has(u, r, 'data') and not has(u, r, 'errors'), R_DATA,
                '%sthe response to a valid operation is %s' % (
                    what, s.show(r))):
        return
    tree(u, s.item(r, Const('data')), want, tag, None, what + 'data')


def tree(u, got, want, tag, key, what):
    s = u.s
    if want is None:
        return
    keys = sorted(k.v for k in M.segs_of(u.I, s.call(Bi('list'), got)))
    if not s.ok(keys == sorted(want), R_DATA, '%s has the entries %s, the '
                'operation selects %s' % (what, keys, sorted(want))):
        return
    for k, v in want.items():
        x = s.item(got, Const(k))
        w = '%s of %s' % (k, what)
        if isinstance(v, Const):
            s.same(x, v, R_DATA, w)
        elif isinstance(v, dict):
            tree(u, x, v, tag, s.tok('id1'), w)
        elif isinstance(v, list):
            s.each(x, lambda y: tree(u, y, {
                a: b if isinstance(b, Const) else ANY
                for a, b in v[0].items()}, tag, None, w))
            s.checked += 1
        elif v is ANY:
            s.checked += 1
        else:
            t = (tag, v)
            if key is not None:
                s.same(x, val(t, u.I.term(key), ('c', 'str', v)), R_DATA, w)
            else:
                r3 = u.I.resolve(x)
                s.ok(isinstance(r3, Sym) and r3.term[:3] == (
                    'tok', 'val', t), R_DATA, '%s is %s' % (w, s.show(x)))


ANY = object()


def good(s, kind, doc, vs, op, tag, want, mutations=True):
    u = Setup(s, kind, mutations)
    r = u.dispatch(u.request(doc, vs, op))
    check_data(u, r, want, tag)
    for t in u.loads():
        s.ok(t[0] == tag, R_GRAPH, 'loader %s of the %s graph is called for '
             'a %s' % (t[1], t[0], tag))


def check_errors(u, r, what=''):
    s = u.s
    e = has(u, r, 'errors')
    if not s.ok(e and not has(u, r, 'data'), R_ERR, '%sthe response is %s' % (
            what, s.show(r))):
        return
    errors = s.item(r, Const('errors'))
    s.ok(s.I.truth(errors), R_ERR, '%sthe list of errors is empty' % what)
    s.each(errors, lambda x: s.ok(has(u, x, 'message'), R_ERR,
                                  '%san error without a message' % what))


def bad(s, kind, doc, vs, op, mutations=True):
    u = Setup(s, kind, mutations)
    exc, r = s.raises(lambda: u.dispatch(u.request(doc, vs, op)))
    if s.ok(exc is None, R_ERR, 'dispatch raises %s' % (
            exc is not None and s.I.exc_name(exc))):
        check_errors(u, r)
    called = u.loads()
    s.ok(not called, R_RUN, 'loaders are called: %s' % ' '.join(
        t[1] for t in called))


def batch(s, kind):
    u = Setup(s, kind)
    docs = ['{ a }', '{ a nope }', 'mutation { m }', '{ a', '{ b }']
    r = u.dispatch(s.list(*[u.request(d) for d in docs]))
    rs = M.segs_of(s.I, r)
    if not s.ok(len(rs) == 5, R_BATCH, '%d responses for 5 requests'
                % len(rs)):
        return
    check_data(u, rs[0], {'a': 'a'}, Q, 'request 1: ')
    check_errors(u, rs[1], 'request 2: ')
    check_data(u, rs[2], {'m': 'm'}, X, 'request 3: ')
    check_errors(u, rs[3], 'request 4: ')
    check_data(u, rs[4], {'b': 'b'}, Q, 'request 5: ')
    s.ok(u.loads() == [(Q, 'a'), (X, 'm'), (Q, 'b')], R_BATCH,
         'the loaders called are %s' % (u.loads(),))


def same_batch(s, kind):
    u = Setup(s, kind)
    doc = 'query A($v: Int) { o(p: $v) } query B { a b }'
    bad = 'query ($v: Int!) { a o(p: $v) }'
    r = u.dispatch(s.list(
        u.request(doc, {'v': 1}, 'A'), u.request(doc, {'v': 2}, 'A'),
        u.request(doc, None, 'B'), u.request(bad, {}),
        u.request(bad, {'v': 3}), u.request(doc, {'v': 1}, 'A')))
    rs = M.segs_of(s.I, r)
    if not s.ok(len(rs) == 6, R_BATCH, '%d responses for 6 requests'
                % len(rs)):
        return
    for i, v in ((0, 1), (1, 2), (5, 1), (4, 3)):
        what = 'request %d: ' % (i + 1)
        if s.ok(has(u, rs[i], 'data'), R_BATCH, '%sthe response is %s' % (
                what, s.show(rs[i]))):
            s.same(s.item(s.item(rs[i], Const('data')), Const('o')),
                   val((Q, 'o'), (('c', 'str', 'o'), s.I.term(s.dict(
                       p=Const(v))))), R_BATCH, '%so of data' % what)
    check_data(u, rs[2], {'a': 'a', 'b': 'b'}, Q, 'request 3: ')
    check_errors(u, rs[3], 'request 4: ')


def empty(s, kind):
    u = Setup(s, kind)
    r = u.dispatch(s.list())
    s.same(M.length(s.I, r), Const(0), R_BATCH, 'responses of no requests')


def star_batch(s, kind):
    u = Setup(s, kind)
    req = lambda x: s.dict(query=Const('query ($v: Int) { o(p: $v) }'),
                           variables=s.dict(v=s.tok('v', x, ty='int')))
    r = u.dispatch(s.list(s.star('B', req)))
    s.same(M.length(s.I, r), M.length(s.I, s.list(
        s.star('B', req))), R_BATCH, 'number of responses')
    got = s.call(s.code('''
def values(rs):
    return [r['data']['o'] for r in rs]
''', 'values'), r)
    s.same(got, s.list(s.star('B', lambda x: val(
        (Q, 'o'), (('c', 'str', 'o'), s.I.term(s.dict(
            p=s.tok('v', x, ty='int'))))))), R_BATCH,
        'data of the responses')


def star_bad(s, kind):
    u = Setup(s, kind)
    r = u.dispatch(s.list(s.star('B', lambda x: u.request('{ nope }'))))
    s.each(r, lambda x: check_errors(u, x))
    s.ok(not u.loads(), R_RUN, 'loaders are called')
