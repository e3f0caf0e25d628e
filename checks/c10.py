"""Nothing the library is given is changed by it: queries, graphs, option
values, variables, contexts and loaded values; transformations return new
objects which keep every attribute they were not asked to change."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, val, nm
from hikustat.qspec import value
from hikustat.frozen import Frozen

R_EXEC = 'C10.execute'
R_READ = 'C10.result'
R_OP = 'C10.operation'
R_ATTR = 'C10.attributes'
R_NEW = 'C10.new_objects'


def run(c):
    c.rule(R_EXEC, 'executing changes neither the query, nor the graph, nor '
           'option values, nor the context, nor loaded values')
    c.rule(R_READ, 'the result is read by the original query')
    c.rule(R_OP, 'validation, export, merging, transformation, '
           'denormalization and dispatching change nothing they are given')
    c.rule(R_ATTR, 'a transformed query or graph keeps the attributes of the '
           'original')
    c.rule(R_NEW, 'changing a transformed query or graph does not change the '
           'original')
    for ordered in (False, True):
        for mode in ('sync', 'first', 'last', 'async'):
            for times in (1, 2):
                c.scenario('execute: ordered=%s, %s, %d times' % (
                    ordered, mode, times),
                    lambda s, a=(ordered, mode, times): executes(s, *a),
                    R_EXEC, cost=3)
    for op in OPS:
        for which in QUERIES:
            c.scenario('%s, %s' % (op, which),
                       lambda s, a=(op, which): operation(s, *a), R_OP)
    for op in GRAPH_OPS:
        c.scenario(op, lambda s, o=op: graph_operation(s, o), R_OP)
    for what in DOCS:
        for kind in ('GraphQLEndpoint', 'BatchGraphQLEndpoint',
                     'AsyncGraphQLEndpoint', 'AsyncBatchGraphQLEndpoint'):
            c.scenario('%s, %s' % (kind, what),
                       lambda s, a=(kind, what): endpoint(s, *a), R_OP)
        c.scenario('reader, %s' % what, lambda s, w=what: reader(s, w), R_OP)
    for which in ('plain', 'overridden', 'any number'):
        c.scenario('query transformer, %s' % which,
                   lambda s, w=which: qtransform(s, w), R_ATTR)
    for which in GRAPH_TR:
        c.scenario('graph transformer, %s' % which,
                   lambda s, w=which: gtransform(s, w), R_ATTR)
    c.scenario('copy', copies, R_ATTR)
    c.scenario('defaults of options', defaults, R_ATTR)
    c.scenario('stripped query', stripped, R_ATTR)


class W10(World):

    post = False

    def type_(self, name):
        return self.s.get('hiku.types:' + name)

    def options(self):
        s = self.s
        return s.list(
            self.option('p', self.type_('Any')),
            self.option('d', self.type_('Any'), default=value(
                s, {'dk': [s.tok('dv')]})),
            s.mk('hiku.graph:Option', Const('e'), NONE, default=s.list(),
                 description=s.tok('descr', 'e')))

    def setup(self, coro=False):
        s = self.s
        wrap = self.coro if coro else (lambda f: f)
        rec = lambda t: value(s, {'p': s.tok(t, 'p'), 'q': {
            'u': s.tok(t, 'u')}, 'x': s.tok(t, 'x')})
        self.loaded = [rec('z'), rec('zz'), s.list(s.tok('i1'), s.tok('i2')),
                       s.list(s.tok('i1'), s.tok('i3'))]
        rl = wrap(self.root_loader('rl'))
        nl = wrap(self.node_loader('nl'))
        cl = wrap(self.const_loader('cl', lambda: s.list(self.loaded[0])))
        # a list of a loader is its own: the row list is built once
        row = s.list(s.list(self.loaded[1]), s.list(self.loaded[1]),
                     s.list(self.loaded[1]))
        self.rows_ = row

        def nrow(tag, args, kw):
            n = len(M.segs_of(s.I, args[1]))
            return s.list(*[s.list(self.loaded[1]) for _ in range(n)])
        zn = wrap(s.stub(nrow, tag='zn'))
        data = self.type_('TypeRef')
        R = M.getitem(s.I, self.type_('Record'), value(s, {
            'p': self.type_('Any'),
            'q': M.getitem(s.I, data, Const('D')),
            'x': self.type_('Any')}))
        self.data_types = s.dict_of([(Const('D'), M.getitem(
            s.I, self.type_('Record'), value(s, {'u': self.type_('Any')}))),
            (Const('R'), R)])
        Rref = M.getitem(s.I, data, Const('R'))
        D = lambda *p: s.tok('descr', *p)
        mk = lambda cl_, *a, **k: s.mk('hiku.graph:' + cl_, *a, **k)
        many = wrap(self.const_loader('many', lambda: self.loaded[2]))
        manyo = wrap(self.const_loader('manyo', lambda: self.loaded[3]))
        one = wrap(self.map_loader('one', lambda v: s.tok('i1')))
        maybe = wrap(self.map_loader('maybe', lambda v: self.nothing()))
        one_o = wrap(self.map_loader('oneo', lambda v: s.tok('i1')))
        self.node_items = s.list(
            mk('Field', Const('x'), self.type_('Integer'), nl,
               description=D('x')),
            mk('Field', Const('y'), NONE, nl, options=self.options()),
            mk('Field', Const('c'), Rref, zn),
            mk('Link', Const('one'), self.linktype('one', 'n'), one,
               requires=Const('x'), description=D('one')),
            mk('Link', Const('mb'), self.linktype('maybe', 'n'), maybe,
               requires=Const('x')),
            mk('Link', Const('oo'), self.linktype('one', 'n'), one_o,
               requires=Const('x'), options=self.options()))
        self.node_ = mk('Node', Const('n'), self.node_items,
                        description=D('n'))
        self.root_items = s.list(
            mk('Field', Const('a'), NONE, rl, description=D('a')),
            mk('Field', Const('b'), self.type_('String'), rl,
               options=self.options(), description=D('b')),
            mk('Field', Const('z'), Rref, cl, options=self.options()),
            mk('Link', Const('k'), self.linktype('many', 'n'), many,
               requires=NONE, description=D('k')),
            mk('Link', Const('o'), self.linktype('many', 'n'), manyo,
               requires=NONE, options=self.options()))
        self.root_ = mk('Root', self.root_items)
        # loaders which replace themselves when a graph is created
        post = s.code('''
class Post:
    def __init__(self, final):
        self.final = final

    def __postprocess__(self, field):
        field.func = self.final
        field.description = 'processed'
''', 'Post')
        self.post = self.root(*[
            mk('Field', Const('post'), self.type_('Any'),
               s.call(post, wrap(self.root_loader('pf')))),
            mk('Link', Const('postl'), self.linktype('many', 'n'),
               s.call(post, many), requires=NONE)]) if self.post else None
        self.items = s.list(self.node_, self.root_,
                            *([self.post] if self.post else []))
        fr = Frozen(s, self.items, self.data_types)
        self.g = fr.watch(lambda: mk('Graph', self.items, self.data_types))
        fr.verify(R_OP, 'creation of a graph')
        return self

    def opts(self, n=''):
        s = self.s
        return value(s, {'p': {'k': [s.tok('ov' + n, 1), {'in': s.tok(
            'ov' + n, 2)}]}})

    def query(self, which, ordered=False):
        s = self.s
        qf, ql, qn = self.qf, self.ql, self.qn
        if which == 'small':
            return qn(qf('a'), ql('k', qn(qf('x'))), ordered=ordered)
        alias = which == 'aliases'
        al = (lambda x: x) if alias else (lambda x: None)
        sub = lambda t: qn(
            qf('x'), qf('y', self.opts(t), al('yy')),
            ql('c', qn(qf('p'), ql('q', qn(qf('u')))), alias=al('cc')),
            ql('one', qn(qf('x', alias=al('x1')), ql('mb', qn(qf('x'))))),
            ql('oo', qn(qf('x')), self.opts('oo' + t), al('ooo')))
        more = [qf('b', self.opts('b2'), 'b2'),
                ql('k', qn(qf('x')), alias='k2'),
                ql('o', qn(qf('x')), self.opts('o2'), 'o2'),
                qf('a', alias='aa')] if alias else []
        if which == 'repeated':
            more = [qf('a'), ql('k', qn(qf('y', self.opts('1')))),
                    ql('o', qn(ql('one', qn(qf('y', self.opts('2'))))),
                       self.opts('o'))]
        return qn(qf('a'), qf('b', self.opts('b'), al('bb')),
                  ql('z', qn(qf('p'), ql('q', qn(qf('u')))), self.opts('z'),
                     al('zz')),
                  ql('k', sub('1'), alias=al('kk')),
                  ql('o', qn(qf('x')), self.opts('o')),
                  *more, ordered=ordered)


QUERIES = ('plain', 'aliases', 'repeated', 'small')


def executes(s, ordered, mode, times):
    w = W10(s).setup(mode == 'async')
    ctx = value(s, {'ck': {'c': [s.tok('cv')]}})
    q = w.query('aliases', ordered)
    ex = {'sync': w.sync, 'async': w.async_executor}.get(
        mode, lambda: w.scheduler(mode))()
    eng = s.mk('hiku.engine:Engine', ex)
    fr = Frozen(s, q, w.g, w.items, ctx, s.list(*w.loaded))
    for i in range(times):
        def go():
            r = s.meth(eng, 'execute', w.g, q, ctx)
            return M.await_(s.I, r) if mode == 'async' else r
        exc, r = s.raises(lambda: fr.watch(go))
        if exc is not None:
            s.ok(False, R_EXEC, 'execution raises %s' % s.I.exc_name(exc))
            return
        fr.verify(R_EXEC, 'execution')

        def reads():
            # the result read by the original query, by every name
            for n in ('a', 'bb', 'zz', 'kk', 'o', 'b2', 'k2', 'o2', 'aa'):
                w.read(r, Const(n), R_READ, 'result')
            kk = w.read(r, Const('kk'), R_READ, 'result')
            if kk is not None:
                for x in M.segs_of(s.I, kk):
                    for n in ('x', 'yy', 'cc', 'one', 'ooo'):
                        w.read(x, Const(n), R_READ, 'result of kk')
            return s.meth(s.mk('hiku.denormalize.base:Denormalize', w.g, r),
                          'process', q)
        exc, d = s.raises(lambda: fr.watch(reads))
        if not s.ok(exc is None, R_READ, 'denormalization by the original '
                    'query raises %s' % (exc and s.I.exc_name(exc))):
            return
        fr.verify(R_OP, 'reading and denormalization')
        want = value(s, {'p': s.tok('z', 'p'), 'q': {'u': s.tok('z', 'u')}})
        s.same(s.item(d, Const('zz')), want, R_READ, 'value of zz')
        s.same(s.item(d, Const('aa')), val('rl', s.I.term(Const('a'))), R_READ,
               'value of aa')


def op_validate(s, w, q):
    return s.call(s.get('hiku.validate.query:validate'), w.g, q)


def op_merge(s, w, q):
    return s.call(s.get('hiku.query:merge'), s.list(q, w.other))


def op_merge1(s, w, q):
    return s.call(s.get('hiku.query:merge'), s.list(q))


def op_init(s, w, q):
    return s.meth(s.mk('hiku.engine:InitOptions', w.g), 'visit', q)


def op_strip(s, w, q):
    return s.meth(s.mk('hiku.endpoint.graphql:_StripQuery'), 'visit', q)


def op_transform(s, w, q):
    return s.meth(s.mk('hiku.query:QueryTransformer'), 'visit', q)


def op_visit(s, w, q):
    return s.meth(s.mk('hiku.query:QueryVisitor'), 'visit', q)


def op_eq(s, w, q):
    I = s.I
    return s.call(s.code('def f(a, b):\n    return a == b, repr(a)\n', 'f'),
                  q, w.other)


def export(name):
    def op(s, w, q):
        exc, r = s.raises(lambda: s.call(s.get(
            'hiku.export.%s:export' % name), q))
        return r
    return op


OPS = {
    'validate': op_validate, 'merge': op_merge, 'merge one': op_merge1,
    'init options': op_init, 'strip': op_strip, 'transform': op_transform,
    'visit': op_visit, 'compare': op_eq,
    'export: simple': export('simple'), 'export: graphql': export('graphql'),
}


def operation(s, name, which):
    w = W10(s).setup()
    q = w.query(which)
    w.other = w.query('repeated')
    fr = Frozen(s, q, w.g, w.items, w.other)
    exc, r = s.raises(lambda: fr.watch(lambda: OPS[name](s, w, q)))
    s.ok(exc is None, R_OP, '%s raises %s' % (
        name, exc and s.I.exc_name(exc)))
    fr.verify(R_OP, name)
    if exc is None and name == 'validate':
        # and of a query which is not valid
        bad = w.qn(w.qf('nope'), w.ql('k', w.qn(w.qf('one'), w.qf(
            'y', value(s, {'zz': [1]})))), w.qf('b'))
        fr = Frozen(s, bad, w.g, w.items)
        exc, r = s.raises(lambda: fr.watch(
            lambda: op_validate(s, w, bad)))
        s.ok(exc is None, R_OP, 'validate raises %s' % (
            exc and s.I.exc_name(exc)))
        fr.verify(R_OP, 'validation of a wrong query')


def g_again(s, w):
    return s.mk('hiku.graph:Graph', w.items, w.data_types)


def g_transform(s, w):
    return s.meth(s.mk('hiku.graph:GraphTransformer'), 'visit', w.g)


def g_intro(cls):
    def op(s, w):
        return s.call(s.get('hiku.graph:apply'), w.g, s.list(s.mk(
            'hiku.introspection.graphql:' + cls, w.g, w.g)))
    return op


def g_metrics(cls):
    def op(s, w):
        metric = s.stub(attrs={'labels': s.stub(
            lambda a, k: s.stub(attrs={'observe': s.stub(
                lambda a, k: NONE)}))})
        return s.call(s.get('hiku.graph:apply'), w.g, s.list(s.mk(
            'hiku.telemetry.prometheus:' + cls, Const('m'), metric=metric)))
    return op


def g_caches(s, w):
    for n in ('root', 'nodes', 'nodes_map'):
        s.attr(w.g, n)
    return None


GRAPH_OPS = {
    'graph of the same items': g_again, 'graph transformer': g_transform,
    'introspection': g_intro('GraphQLIntrospection'),
    'asynchronous introspection': g_intro('AsyncGraphQLIntrospection'),
    'metrics': g_metrics('GraphMetrics'),
    'asynchronous metrics': g_metrics('AsyncGraphMetrics'),
    'parts of the graph': g_caches,
}


def graph_operation(s, name):
    w = W10(s)
    w.post = True
    w.setup()
    fr = Frozen(s, w.g, w.items, w.data_types)
    exc, r = s.raises(lambda: fr.watch(lambda: GRAPH_OPS[name](s, w)))
    if not s.ok(exc is None, R_OP, '%s raises %s' % (
            name, exc and s.I.exc_name(exc))):
        return
    fr.verify(R_OP, name)
    exc, r = s.raises(lambda: fr.watch(lambda: GRAPH_OPS[name](s, w)))
    s.ok(exc is None, R_OP, '%s, once more, raises %s' % (
        name, exc and s.I.exc_name(exc)))
    fr.verify(R_OP, name + ', once more')


# --- documents: their variables belong to the user
DOCS = {
    'list': ('query Q($v: Any) { b(p: $v) a }', {'v': [1, [2, 'x'], {}]}),
    'object': ('query Q($v: Any, $w: Any = {d: [1]}) '
               '{ b(p: {k: $v, l: [$w]}) k { x y(p: $v) } }',
               {'v': {'k': [1], 'o': {'p': 2}}}),
    'directive': ('query Q($v: Boolean!, $w: Any) { a @skip(if: $v) '
                  'b(p: $w) @include(if: $v) ...F } '
                  'fragment F on Query { z(p: $w) { p q { u } } }',
                  {'v': True, 'w': [{'x': [1]}], 'unused': [1]}),
    'invalid': ('query Q($v: Any) { a nope(p: $v) }', {'v': [1]}),
    'unreadable': ('query Q($v: Int) { a b(p: $v) ...F }',
                   {'v': [1, {'a': 1}]}),
}


def endpoint(s, kind, what):
    gql.install(s)
    w = W10(s).setup('Async' in kind)
    is_async = 'Async' in kind
    doc, variables = DOCS[what]
    eng = s.mk('hiku.engine:Engine',
               w.async_executor() if is_async else w.sync())
    ep = s.mk('hiku.endpoint.graphql:' + kind, eng, w.g)
    req = value(s, {'query': doc, 'variables': variables,
                    'operationName': 'Q'})
    data = s.list(req, req) if 'Batch' in kind else req
    fr = Frozen(s, data, w.g, w.items, s.list(*w.loaded),
                s.attr(ep, 'query_graph'))

    def go():
        r = s.meth(ep, 'dispatch', data)
        return M.await_(s.I, r) if is_async else r
    exc, r = s.raises(lambda: fr.watch(go))
    s.ok(exc is None, R_OP, 'dispatch raises %s' % (
        exc and s.I.exc_name(exc)))
    fr.verify(R_OP, 'dispatch')


def reader(s, what):
    gql.install(s)
    doc, variables = DOCS[what]
    v = value(s, variables)
    fr = Frozen(s, v)

    def go():
        return s.call(s.get('hiku.readers.graphql:read_operation'),
                      Const(doc), v)
    exc, op = s.raises(lambda: fr.watch(go))
    fr.verify(R_OP, 'reading')
    if exc is not None:
        s.ok(what == 'unreadable', R_OP, 'reading raises %s' %
             s.I.exc_name(exc))
        return
    # the query can be executed, which keeps the variables as they are
    w = W10(s).setup()
    q = s.attr(op, 'query')
    if what == 'invalid':
        return
    exc, r = s.raises(lambda: fr.watch(lambda: w.execute(w.g, q)))
    s.ok(exc is None, R_EXEC, 'execution raises %s' % (
        exc and s.I.exc_name(exc)))
    fr.verify(R_EXEC, 'execution')


# --- attributes of copies
def members(s, node):
    return [x for x in M.segs_of(s.I, s.attr(node, 'fields'))]


def is_link(s, x):
    return M.isinstance_(s.I, x, s.get('hiku.query:Link'))


def compare(s, old, new, what, named=None, opts=True):
    """node and its copy"""
    I = s.I
    named = named or (lambda f, attr: s.attr(f, attr))
    s.same(s.attr(new, 'ordered'), s.attr(old, 'ordered'), R_ATTR,
           '%s: ordered' % what)
    a, b = members(s, old), members(s, new)
    if not s.ok(len(a) == len(b), R_ATTR, '%s: %d selections of %d' % (
            what, len(b), len(a))):
        return
    for x, y in zip(a, b):
        if isinstance(x, Star):
            continue
        if not s.ok(I.o(x).cls == I.o(y).cls, R_ATTR,
                    '%s: kind of a selection' % what):
            continue
        for at in ('name', 'alias') + ('options',) * opts:
            s.same(s.attr(y, at), named(x, at), R_ATTR,
                   '%s: %s of %s' % (what, at, s.show(s.attr(x, 'name'))))
        if is_link(s, x):
            compare(s, s.attr(x, 'node'), s.attr(y, 'node'), what, named,
                    opts)


SRC = '''
def mk(Base):
    class T(Base):
        def visit_field(self, obj):
            obj = super().visit_field(obj)
            obj.alias = 'changed'
            return obj

        def visit_link(self, obj):
            obj = super().visit_link(obj)
            obj.alias = 'changed'
            obj.options = {'p': 'changed'}
            return obj

        def visit_node(self, obj):
            obj = super().visit_node(obj)
            obj.fields.reverse()
            return obj
    return T
'''


def qtransform(s, which):
    w = W10(s).setup()
    base = s.get('hiku.query:QueryTransformer')
    for ordered in (False, True):
        if which == 'any number':
            q = w.qn(s.star('F', lambda x: w.qf(
                s.name_('f', x), s.dict(o=s.tok('o', x)), s.name_('al', x))),
                s.star('L', lambda x: w.ql(
                    s.name_('l', x), w.qn(w.qf(s.name_('lf', x))),
                    s.dict(o=s.tok('lo', x)), s.name_('lal', x))),
                ordered=ordered)
            r = s.meth(s.call(base), 'visit', q)
            show = s.code('''
def show(node):
    return [(f.name, f.alias, f.options, [x.name for x in f.node.fields]
             if hasattr(f, 'node') else None) for f in node.fields]
''', 'show')
            s.same(s.call(show, r), s.call(show, q), R_ATTR, 'selections')
            continue
        q = w.query('aliases', ordered)
        if which == 'plain':
            r = s.meth(s.call(base), 'visit', q)
            compare(s, q, r, 'copy')
            continue
        fr = Frozen(s, q)
        T = s.call(s.call(s.code(SRC, 'mk'), base))
        exc, r = s.raises(lambda: fr.watch(lambda: s.meth(T, 'visit', q)))
        s.ok(exc is None, R_NEW, 'transformation raises %s' % (
            exc and s.I.exc_name(exc)))
        fr.verify(R_NEW, 'overridden transformer')


def copies(s):
    """an attribute given to copy() replaces the original one, others are
    kept"""
    w = W10(s)
    objs = {
        'Field': (w.qf('f', s.dict(o=s.tok('o')), 'al'),
                  ('name', 'options', 'alias')),
        'Link': (w.ql('l', w.qn(w.qf('x')), s.dict(o=s.tok('o')), 'al'),
                 ('name', 'node', 'options', 'alias')),
        'Node': (w.qn(w.qf('x'), ordered=True), ('fields', 'ordered'))}
    for n, (o, attrs) in objs.items():
        for at in (None,) + attrs:
            for new in (s.tok('new', Const(at)), NONE, FALSE):
                kw = {at: new} if at else {}
                fr = Frozen(s, o)
                exc, r = s.raises(lambda: fr.watch(
                    lambda: s.I.call(s.attr(o, 'copy'), [], kw)))
                if not s.ok(exc is None, R_ATTR, 'copy of %s raises %s' % (
                        n, exc and s.I.exc_name(exc))):
                    continue
                fr.verify(R_NEW, 'copy of %s' % n)
                s.ok(not (isinstance(r, Ref) and r.oid == o.oid), R_NEW,
                     'copy of %s is the same object' % n)
                s.ok(s.I.o(r).cls == s.I.o(o).cls, R_ATTR,
                     'copy of %s is of another class' % n)
                for a in attrs:
                    s.same(s.attr(r, a), new if a == at else s.attr(o, a),
                           R_ATTR, 'copy of %s with %s: %s' % (n, at, a))
    # cached values of the original do not leak into the copy
    f = w.qf('f', s.dict(o=s.tok('o')), 'al')
    for a in ('result_key', 'options_hash', 'index_key'):
        s.attr(f, a)
    c = s.I.call(s.attr(f, 'copy'), [], {
        'name': Const('g'), 'alias': NONE, 'options': NONE})
    s.same(s.attr(c, 'result_key'), Const('g'), R_ATTR, 'result key of a '
           'copy with another name')
    s.same(s.attr(c, 'options_hash'), NONE, R_ATTR, 'options hash of a copy '
           'without options')
    s.same(s.attr(c, 'index_key'), Const('g'), R_ATTR, 'index key of a copy '
           'with another name')
    n = w.qn(w.qf('x'))
    for a in ('fields_map', 'result_map'):
        s.attr(n, a)
    c = s.meth(n, 'copy', fields=s.list(w.qf('y')))
    keys = s.code('def keys(n):\n    return list(n.fields_map), '
                  'list(n.result_map)\n', 'keys')
    s.same(s.call(keys, c), Tup([s.list(Const('y')), s.list(Const('y'))]),
           R_ATTR, 'names of a copy with other fields')


def defaults(s):
    """InitOptions: names, aliases and order are kept, given options win
    over defaults"""
    w = W10(s).setup()
    for ordered in (False, True):
        q = w.query('aliases', ordered)
        r = s.meth(s.mk('hiku.engine:InitOptions', w.g), 'visit', q)
        compare(s, q, r, 'query with defaults', opts=False)
        full = lambda n: value(s, {
            'p': {'k': [s.tok('ov' + n, 1), {'in': s.tok('ov' + n, 2)}]},
            'd': {'dk': [s.tok('dv')]}, 'e': []})
        m = {s.attr(x, 'result_key').v: x for x in members(s, r)}
        sub = {s.attr(x, 'result_key').v: x
               for x in members(s, s.attr(m['kk'], 'node'))}
        for n, x, o in (('bb', m['bb'], 'b'), ('zz', m['zz'], 'z'),
                        ('o', m['o'], 'o'), ('b2', m['b2'], 'b2'),
                        ('o2', m['o2'], 'o2'), ('yy', sub['yy'], '1'),
                        ('ooo', sub['ooo'], 'oo1')):
            s.same(s.attr(x, 'options'), full(o), R_ATTR,
                   'options of %s' % n)


def stripped(s):
    w = W10(s)
    for ordered in (False, True):
        sub = lambda *f: w.qn(w.qf('__typename'), *f, ordered=ordered)
        q = w.qn(w.qf('__typename', alias='t'), w.qf('a', w.opts(), 'x'),
                 w.ql('k', sub(w.qf('x', w.opts('1')), w.ql(
                     'm', sub(), w.opts('2'), 'mm')), w.opts('3'), 'kk'),
                 w.qf('__typename'), w.qf('__typenames'),
                 w.qf('b', alias='__typename'), ordered=ordered)
        want = w.qn(w.qf('a', w.opts(), 'x'),
                    w.ql('k', w.qn(w.qf('x', w.opts('1')), w.ql(
                        'm', w.qn(ordered=ordered), w.opts('2'), 'mm'),
                        ordered=ordered), w.opts('3'), 'kk'),
                    w.qf('__typenames'), w.qf('b', alias='__typename'),
                    ordered=ordered)
        r = s.meth(s.mk('hiku.endpoint.graphql:_StripQuery'), 'visit', q)
        compare(s, want, r, 'query without __typename')


GSRC = '''
def mk(Base, Option):
    class T(Base):
        def visit_option(self, obj):
            obj = super().visit_option(obj)
            obj.name = 'changed_' + obj.name
            obj.default = 'changed'
            return obj

        def visit_field(self, obj):
            obj = super().visit_field(obj)
            obj.func = None
            obj.description = 'changed'
            if obj.options:
                obj.options.append(Option('more', None))
            return obj

        def visit_link(self, obj):
            obj = super().visit_link(obj)
            obj.func = None
            obj.description = 'changed'
            return obj

        def visit_node(self, obj):
            obj = super().visit_node(obj)
            obj.fields.reverse()
            obj.description = 'changed'
            return obj

        def visit_root(self, obj):
            obj = super().visit_root(obj)
            obj.fields.reverse()
            return obj
    return T
'''


def gt_plain(s, w):
    return s.meth(s.mk('hiku.graph:GraphTransformer'), 'visit', w.g), True


def gt_again(s, w):
    return s.mk('hiku.graph:Graph', w.items, w.data_types), True


def gt_apply(s, w):
    T = s.get('hiku.graph:GraphTransformer')
    return s.call(s.get('hiku.graph:apply'), w.g, s.list(
        s.call(T), s.call(T))), True


def gt_over(s, w):
    T = s.call(s.code(GSRC, 'mk'), s.get('hiku.graph:GraphTransformer'),
               s.get('hiku.graph:Option'))
    return s.meth(s.call(T), 'visit', w.g), False


def gt_intro(cls):
    def op(s, w):
        return GRAPH_OPS[cls](s, w), True
    return op


GRAPH_TR = {
    'plain': gt_plain, 'the same items': gt_again, 'apply': gt_apply,
    'overridden': gt_over,
    'introspection': gt_intro('introspection'),
    'asynchronous introspection': gt_intro('asynchronous introspection'),
    'metrics': gt_intro('metrics'),
    'asynchronous metrics': gt_intro('asynchronous metrics'),
}
ATTRS = {
    'Field': ('name', 'type', 'description', 'func'),
    'Link': ('name', 'type', 'type_enum', 'node', 'requires', 'description',
             'func'),
    'Option': ('name', 'type', 'default', 'description'),
    'Node': ('name', 'description'), 'Root': ('name', 'description'),
}


def gtransform(s, which):
    w = W10(s).setup()
    I = s.I
    fr = Frozen(s, w.g, w.items, w.data_types)
    exc, r = s.raises(lambda: fr.watch(lambda: GRAPH_TR[which](s, w)))
    if not s.ok(exc is None, R_ATTR, 'transformation raises %s' % (
            exc and s.I.exc_name(exc))):
        return
    fr.verify(R_NEW, 'transformation')
    new, keep = r
    if not keep:
        return
    extra = 'introspection' in which
    func = 'metrics' not in which
    s.ok(not (isinstance(new, Ref) and new.oid == w.g.oid), R_NEW,
         'the transformed graph is the original one')

    def kind(x):
        return M.cls_name(I, I.o(x).cls)

    def items(x, attr):
        v = s.attr(x, attr)
        return M.segs_of(I, v)

    def obj(a, b, path):
        ka, kb = kind(a), kind(b)
        if not s.ok(ka == kb, R_ATTR, '%s: a %s instead of a %s' % (
                path, kb, ka)):
            return
        for at in ATTRS[ka]:
            if at == 'func' and (not func or 'post' in path):
                continue
            x, y = s.attr(a, at), s.attr(b, at)
            if at in ('func', 'node', 'type_enum') and isinstance(x, Ref) \
                    and isinstance(y, Ref):
                s.ok(x.oid == y.oid, R_ATTR, '%s: %s of the %s' % (
                    path, at, ka))
            else:
                s.same(y, x, R_ATTR, '%s: %s of the %s' % (path, at, ka))
        for sub in ('options', 'fields'):
            if sub in I.o(a).attrs:
                many(items(a, sub), items(b, sub), path, sub)

    def many(a, b, path, what):
        more = [x for x in b if s.show(s.attr(x, 'name')) in (
            "'__typename'", "'__schema'", "'__type'")] if extra else []
        b = [x for x in b if not any(x is y for y in more)]
        if not s.ok(len(a) == len(b), R_ATTR, '%s: %d %s of %d' % (
                path, len(b), what, len(a))):
            return
        for x, y in zip(a, b):
            obj(x, y, path + '/' + s.show(s.attr(x, 'name')))
    old, now = M.segs_of(I, w.items), items(new, 'items')
    for i, x in enumerate(old):
        if s.ok(i < len(now), R_ATTR, 'a node is dropped'):
            obj(x, now[i], 'graph/%s' % s.show(s.attr(x, 'name')))
    if not extra:
        s.ok(len(now) == len(old), R_ATTR, 'number of nodes')
    s.same(s.attr(new, 'data_types'), w.data_types, R_ATTR, 'data types')
