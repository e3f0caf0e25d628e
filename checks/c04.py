"""Mutations run serially: the top-level selections of a mutation document are
executed one after another in the order of the document, after fragments are
expanded and duplicates merged, under every completion order."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, val, nm

R_ORD = 'C04.order'
R_SER = 'C04.serial'
R_VAL = 'C04.complete'

DOCS = [
    ('fields and links interleaved',
     'mutation { a k {x} b j {x} c }', ['a', 'k', 'b', 'j', 'c'], None),
    ('links first',
     'mutation { k {x} j {x} c b a }', ['k', 'j', 'c', 'b', 'a'], None),
    ('named fragment',
     'mutation { c ...F a } fragment F on M { k {x} b }',
     ['c', 'k', 'b', 'a'], None),
    ('nested fragments and inline fragments',
     'mutation { ... on M { j {x} ...F } a } fragment F on M '
     '{ b ... on M { k {x} c } }', ['j', 'b', 'k', 'c', 'a'], None),
    ('duplicates merge into the first',
     'mutation { b k {x} a k {y} b j {x} }', ['b', 'k', 'a', 'j'], None),
    ('aliases',
     'mutation { k1: k {x} b a k2: k {y} b2: b }',
     ['k', 'b', 'a', 'k', 'b'], ['k1', 'b', 'a', 'k2', 'b2']),
    ('one selection', 'mutation { k {x} }', ['k'], None),
    ('required fields',
     'mutation { r {x} a q {x} }', ['c', 'r', 'a', 'b', 'q'],
     ['r', 'a', 'q']),
    ('options',
     'mutation ($v: Int) { o(p: 1) k {x} o2: o(p: $v) a }',
     ['o', 'k', 'o', 'a'], ['o', 'k', 'o2', 'a']),
    ('adjacent fields of one loader',
     'mutation { a k {x} s t b s2: s }', ['a', 'k', ('s', 't'), 'b', 's'],
     ['a', 'k', 's', 't', 'b', 's2']),
    ('complex fields',
     'mutation { z {m} a z2: z {m} k {x} y {m} b }',
     ['z', 'a', 'z', 'k', 'y', 'b'], ['z', 'a', 'z2', 'k', 'y', 'b']),
    ('complex fields of a shared loader',
     'mutation { a s u {m} k {x} u2: u {m} t y {m} }',
     ['a', ('s', 'u'), 'k', ('u', 't'), 'y'],
     ['a', 's', 'u', 'k', 'u2', 't', 'y']),
]


def run(c):
    c.rule(R_ORD, 'the loaders of the top-level selections are called in '
           'document order')
    c.rule(R_SER, 'a loader is called only after the loading of the previous '
           'selection has completed')
    c.rule(R_VAL, 'every top-level selection is executed and readable')
    for title, doc, want, keys in DOCS:
        for mode in ('any', 'sync'):
            c.scenario('%s, %s' % (title, mode),
                       lambda s, d=doc, w=want, k=keys, m=mode:
                       document(s, d, w, k, m), R_ORD, doc, max_paths=4000)
    c.scenario('through the endpoint', endpoint, R_ORD,
               'mutation dispatched by the GraphQL endpoint')
    c.scenario('any number of fields', stars, R_ORD,
               'any number of fields, each with its own loader, between links')


def graph(w):
    s = w.s
    n = w.node('n', w.field('x', w.node_loader('lx')),
               w.field('y', w.node_loader('ly')))
    many = lambda t: w.const_loader(t, lambda: s.list(
        s.star(t, lambda i: s.tok('id' + t, i))))
    req = lambda t: w.map_key(t)
    shared = w.root_loader('st')
    return w.graph(n, w.root(
        w.field('a', w.root_loader('a')), w.field('b', w.root_loader('b')),
        w.field('c', w.root_loader('c')),
        w.field('o', w.root_loader('o'), options=s.list(w.option('p'))),
        w.field('s', shared), w.field('t', shared), w.field('u', shared),
        w.field('z', w.root_loader('z')), w.field('y', w.root_loader('y')),
        w.link('k', 'many', 'n', many('k')),
        w.link('j', 'many', 'n', many('j')),
        w.link('r', 'many', 'n', req('r'), requires='c'),
        w.link('q', 'many', 'n', req('q'), requires='b')))


def top(s):
    """top-level loader calls, in order, with scheduling events"""
    out = []
    for e, ns in s.events():
        if e.kind == 'load' and e.data[0] not in ('lx', 'ly'):
            t = e.data[0]
            if t == 'st':
                t = names(s, e.data[1][0])
            out.append((t, ns, e))
    return out


def names(s, seq):
    out = []
    for f in M.segs_of(s.I, seq):
        n = s.I.getattr(f, 'name')
        out.append(n.v if isinstance(n, Const) else n)
    return out[0] if len(out) == 1 else tuple(out)


def document(s, doc, want, keys, mode):
    gql.install(s)
    w = World(s)
    op = s.call(s.get('hiku.readers.graphql:read_operation'), Const(doc))
    r = w.execute(graph(w), s.attr(op, 'query'),
                  w.sync() if mode == 'sync' else w.scheduler(mode))
    verdict(s, r, want, keys)


def verdict(s, r, want, keys):
    got = [t for t, ns, e in top(s)]
    s.ok(got == want, R_ORD, 'top-level loaders are called in the order %s, '
         'the document says %s' % (show(got), show(want)))
    serial(s)
    for k in keys or want:
        exc, v = s.raises(lambda: M.getitem(s.I, r, Const(k)))
        s.ok(exc is None, R_VAL, 'selection %s is missing in the result' % k)


def show(x):
    return ' '.join('+'.join(map(str, i)) if isinstance(i, tuple) else str(i)
                    for i in x)


def serial(s):
    """no top-level loader is submitted while another one is outstanding"""
    lately, started = {}, None
    open_ = set()
    tops = set()
    for e, ns in s.events():
        if e.kind == 'submit':
            open_.add(e.data[0])
            last = e.data[0]
            lately[e.data[0]] = set(open_) - {e.data[0]}
        elif e.kind == 'load' and e.data[0] not in ('lx', 'ly'):
            started = e
        elif e.kind == 'complete':
            open_.discard(e.data[0])
            if started is not None:
                tops.add(e.data[0])
                started = None
    for k, others in lately.items():
        if k in tops:
            s.ok(not (others & tops), R_SER,
                 'the loader of a top-level selection is submitted while the '
                 'previous one is still running')


def endpoint(s):
    gql.install(s)
    w = World(s)
    g = graph(w)
    q = w.graph(w.root(w.field('z', w.root_loader('z'))))
    eng = s.mk('hiku.engine:Engine', w.scheduler('any'))
    ep = s.mk('hiku.endpoint.graphql:GraphQLEndpoint', eng, q, g)
    r = s.meth(ep, 'dispatch', s.dict(query=Const(
        'mutation { c k {x __typename} __typename b j {x} a }')))
    data = w.read(r, Const('data'), R_VAL, 'response')
    if data is not None:
        got = [t for t, ns, e in top(s)]
        want = ['c', 'k', 'b', 'j', 'a']
        s.ok(got == want, R_ORD, 'top-level loaders are called in the order '
             '%s, the document says %s' % (show(got), show(want)))
        serial(s)


def stars(s):
    gql.install(s)
    w = World(s)
    n = w.node('n', w.field('x', w.node_loader('lx')))
    mk = lambda tag: s.star(tag, lambda x: w.field(
        s.name_('f' + tag, x), w.root_loader(('l', tag, x))))
    many = lambda t: w.const_loader(t, lambda: s.list(s.tok('id' + t)))
    g = w.graph(n, w.root(mk('A'), mk('B'), w.link('k', 'many', 'n',
                                                   many('k')),
                          w.field('b', w.root_loader('b'))))
    op = s.call(s.get('hiku.readers.graphql:read_operation'), Const(
        'mutation { star_A k {x} star_B b }'))
    got = s.call(s.code('def names(fs):\n    return [f.name for f in fs]',
                        'names'), s.attr(s.attr(op, 'query'), 'fields'))
    doc = lambda t: s.star(t, lambda x: s.name_('f' + t, x))
    s.same(got, s.list(doc('A'), Const('k'), doc('B'), Const('b')), R_ORD,
           'selections of the query of the mutation, in the order of the '
           'document')
    s.ok(s.attr(s.attr(op, 'query'), 'ordered') == TRUE, R_ORD,
         'the query of a mutation is not ordered')
