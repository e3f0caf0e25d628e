"""Value alignment and completeness: every value read back from a result is the
one the loader returned for that identifier and that field.

The engine, the query model, the queue, the synchronous executor and the result
proxy are interpreted abstractly on graphs and queries whose fields, identifiers
and linked objects are summarised by arbitrary-length collections; loaders are
environment stubs whose return values are named after (identifier, field)."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm

R_VAL = 'C01.value'
R_LEN = 'C01.complete'


def run(c):
    c.rule(R_VAL, 'the value read back for a selection is the one its loader '
           'returned for that identifier and that field')
    c.rule(R_LEN, 'a sequence link yields one object per identifier its loader '
           'returned, in that order, duplicates kept')
    c.scenario('root fields', root_fields, R_VAL,
               'root fields of two loaders, any number of each, interleaved')
    c.scenario('any number of loaders', many_loaders, R_VAL,
               'root and node fields, each with a loader of its own')
    c.scenario('node fields', node_fields, R_VAL,
               'a sequence link to any number of objects, any number of '
               'fields of interleaved loaders')
    c.scenario('subset and order of selection', subset, R_VAL,
               'the query selects fields in an order unlike the graph and not '
               'all of them')
    c.scenario('nested links', nested, R_VAL,
               'a sequence link from each of any number of objects to any '
               'number of objects, shared ones included')
    c.scenario('single links', single_links, R_VAL,
               'one/optional links from each of any number of objects')
    c.scenario('two paths to one node', two_paths, R_VAL,
               'objects reached through two links with different fields')
    c.scenario('ordered selection', lambda s: node_fields(s, True), R_VAL,
               'the same under an ordered (mutation) selection')
    c.scenario('fields with options', with_options, R_VAL,
               'fields and links carrying options')


def fields(w, fa, fb):
    s = w.s
    mk = lambda tag, f: s.star(tag, lambda x: w.field(
        s.name_('f' + tag, x), f))
    return [mk('A', fa), w.field('w', fb), mk('B', fa), mk('C', fb),
            w.field('v', fa)]


def qfields(w):
    s = w.s
    mk = lambda tag: s.star(tag, lambda x: w.qf(s.name_('f' + tag, x)))
    return [mk('A'), w.qf('w'), mk('B'), mk('C'), w.qf('v')]


def read_each(w, obj, qs, rule, what, value):
    """every selection of qs read from obj gives value(tag, name term)"""
    s, I = w.s, w.I
    for q, tag in qs:
        def f(q, tag=tag):
            n = I.getattr(q, 'name')
            w.expect(obj, n, value(tag, I.term(n)), rule, what)
        I.seg(q, f)


def check_fields(w, obj, ident, fa, fb, what):
    """all five groups of fields hold their own value"""
    i = () if ident is None else (ident,)
    read_each(w, obj, zip(qfields(w), (fa, fb, fa, fb, fa)), R_VAL, what,
              lambda tag, n: val(tag, *(i + (n,))))


def objects(w, lst, ids, fn, what='linked objects'):
    """fn(identifier, proxy) for every linked object, the list being as long
    as the identifiers"""
    s = w.s
    if lst is None:
        return
    if not s.same(M.length(s.I, lst), M.segs_len(s.I, ids), R_LEN,
                  'number of %s' % what):
        return
    z = M.call_bi(s.I, 'zip', [s.list(*ids), lst], {})
    s.each(z, lambda t: fn(s.I.term(t.items[0]), t.items[1]))


def idents(s, tag):
    return [s.star(tag, lambda x: s.tok('id' + tag, x)), s.tok('idw' + tag),
            s.star(tag + "2", lambda x: s.tok('jd' + tag, x))]


def root_fields(s):
    w = World(s)
    la, lb = w.root_loader('la'), w.root_loader('lb')
    g = w.graph(w.root(*fields(w, la, lb)))
    q = w.qn(*qfields(w))
    r = w.execute(g, q)
    check_fields(w, r, None, 'la', 'lb', 'root')


def many_loaders(s):
    w = World(s)
    mk = lambda kind, tag: s.star(tag, lambda x: w.field(
        s.name_('f' + tag, x), getattr(w, kind)(('l', x))))
    ids = idents(s, 'I')
    g = w.graph(
        w.node('n', mk('node_loader', 'N'), w.field('w', w.node_loader('lw'))),
        w.root(mk('root_loader', 'R'), w.field('w', w.root_loader('lw')),
               w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    sel = lambda tag: [s.star(tag, lambda x: w.qf(s.name_('f' + tag, x))),
                       w.qf('w')]
    r = w.execute(g, w.qn(*(sel('R') + [w.ql('l', w.qn(*sel('N')))])))

    def value(*pre):
        def f(tag, n):
            if n[1][0] == 'tok':
                return val(('l', n[1][-1]), *(pre + (n,)))
            return val('lw', *(pre + (n,)))
        return f

    def each(obj, tag, *pre):
        def f(q):
            n = s.I.getattr(q, 'name')
            x = n.term[-1] if isinstance(n, Sym) else None
            v = val(('l', x), *(pre + (s.I.term(n),))) if x is not None \
                else val('lw', *(pre + (s.I.term(n),)))
            w.expect(obj, n, v, R_VAL, 'field')
        for q in sel(tag):
            s.I.seg(q, f)
    each(r, 'R')
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids,
            lambda i, p: each(p, 'N', i))


def node_fields(s, ordered=False):
    w = World(s)
    la, lb = w.node_loader('la'), w.node_loader('lb')
    ids = idents(s, 'I')
    link = w.const_loader('ll', s.list(*ids))
    g = w.graph(w.node('n', *fields(w, la, lb)),
                w.root(w.link('l', 'many', 'n', link)))
    q = w.qn(w.ql('l', w.qn(*qfields(w), ordered=ordered)), ordered=ordered)
    r = w.execute(g, q)
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids,
            lambda i, p: check_fields(w, p, i, 'la', 'lb', 'node'))


def subset(s):
    w = World(s)
    la, lb = w.node_loader('la'), w.tuple_row_loader('lb')
    ids = idents(s, 'I')
    link = w.const_loader('ll', Tup(ids))
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    g = w.graph(w.node('n', *[w.field(n, (la, lb)[i % 2])
                              for i, n in enumerate(names)]),
                w.root(w.link('l', 'many', 'n', link)))
    sel = ['f', 'c', 'a', 'd']
    r = w.execute(g, w.qn(w.ql('l', w.qn(*[w.qf(n) for n in sel]))))

    def one(i, p):
        for n in sel:
            w.expect(p, Const(n), val(
                'la' if names.index(n) % 2 == 0 else 'lb', i, ('c', 'str', n)),
                R_VAL, 'node')
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids, one)


def nested(s):
    w = World(s)
    ln, lm = w.node_loader('ln'), w.node_loader('lm')
    ids = idents(s, 'I')

    def children(v):
        t = s.I.term(v)
        # a shared object, any number of own ones, the shared one again
        return [s.tok('shared'), s.star(('ch', t), lambda x: s.tok(
            'child', t, x)), s.tok('shared')]
    kids = w.map_loader('kids', lambda v: s.list(*children(v)))
    g = w.graph(
        w.node('m', w.field('x', lm), w.field('y', lm)),
        w.node('n', w.field('a', ln), w.field('b', ln),
               w.link('ms', 'many', 'm', kids, requires='a')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    r = w.execute(g, w.qn(w.ql('l', w.qn(
        w.qf('b'), w.ql('ms', w.qn(w.qf('y'), w.qf('x')))))))

    def one(i, p):
        w.expect(p, Const('b'), val('ln', i, ('c', 'str', 'b')), R_VAL, 'n')

        def two(j, p2):
            for n in 'xy':
                w.expect(p2, Const(n), val('lm', j, ('c', 'str', n)), R_VAL,
                         'm')
        objects(w, w.read(p, Const('ms'), R_VAL, 'nested link'),
                children(val('ln', i, ('c', 'str', 'a'))), two,
                'nested objects')
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids, one)


def single_links(s):
    w = World(s)
    ln, lm = w.node_loader('ln'), w.node_loader('lm')
    ids = idents(s, 'I')
    g = w.graph(
        w.node('m', w.field('x', lm)),
        w.node('n', w.field('a', ln), w.field('b', ln),
               w.link('m1', 'one', 'm', w.map_loader(
                   'k1', lambda v: s.tok('one', s.I.term(v))), requires='a'),
               w.link('m2', 'maybe', 'm', w.map_loader(
                   'k2', lambda v: s.tok('opt', s.I.term(v))), requires='b'),
               w.link('m3', 'one', 'm', w.const_loader('k3', s.tok('c3')))),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids))),
               w.link('o', 'one', 'n', w.const_loader('lo', s.tok('o1')))))
    sel = lambda: w.qn(w.ql('m1', w.qn(w.qf('x'))), w.ql('m2', w.qn(
        w.qf('x'))), w.ql('m3', w.qn(w.qf('x'))))
    r = w.execute(g, w.qn(w.ql('l', sel()), w.ql('o', sel())))

    def one(i, p):
        a = val('ln', i, ('c', 'str', 'a'))
        b = val('ln', i, ('c', 'str', 'b'))
        for n, t in (('m1', s.tok('one', a.term)), ('m2', s.tok('opt', b.term)),
                     ('m3', s.tok('c3'))):
            m = w.read(p, Const(n), R_VAL, 'single link')
            if m is not None:
                w.expect(m, Const('x'), val('lm', t.term, ('c', 'str', 'x')),
                         R_VAL, 'object of ' + n)
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids, one)
    o = w.read(r, Const('o'), R_VAL, 'link')
    if o is not None:
        one(s.tok('o1').term, o)


def two_paths(s):
    w = World(s)
    la, lb = w.node_loader('la'), w.node_loader('lb')
    ids = idents(s, 'I')
    g = w.graph(
        w.node('n', w.field('a', la), w.field('b', lb), w.field('c', la)),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids))),
               w.link('k', 'many', 'n', w.const_loader('lk', s.list(*ids)))))
    r = w.execute(g, w.qn(w.ql('l', w.qn(w.qf('a'), w.qf('b'))),
                          w.ql('k', w.qn(w.qf('c'), w.qf('a')))))
    for name, ns in (('l', 'ab'), ('k', 'ca')):
        def one(i, p):
            for n in ns:
                w.expect(p, Const(n), val('lb' if n == 'b' else 'la', i,
                                          ('c', 'str', n)), R_VAL, name)
        objects(w, w.read(r, Const(name), R_VAL, 'link'), ids, one)


def with_options(s):
    w = World(s)
    opt = lambda: s.list(w.option('p'))
    ln = w.node_loader('ln')
    lroot = w.root_loader('lr')

    def ll(args, kw):
        o = M.getitem(s.I, args[0], Const('p'))
        t = s.I.term(o)
        return s.list(s.star(('ids', t), lambda x: s.tok('oid', t, x)))
    g = w.graph(
        w.node('n', w.field('a', ln, options=opt()), w.field('b', ln)),
        w.root(w.field('f', lroot, options=opt()), w.field('g', lroot),
               w.link('l', 'many', 'n', s.stub(ll), options=opt())))
    v1, v2, v3 = (s.tok('v%d' % i, ty='str') for i in (1, 2, 3))
    r = w.execute(g, w.qn(
        w.qf('f', options=s.dict(p=v1)), w.qf('g'),
        w.ql('l', w.qn(w.qf('b'), w.qf('a', options=s.dict(p=v3))),
             options=s.dict(p=v2))))
    od = lambda v: s.I.term(s.dict(p=v))
    w.expect(r, Const('f'), val('lr', (('c', 'str', 'f'), od(v1))), R_VAL,
             'root field')
    w.expect(r, Const('g'), val('lr', ('c', 'str', 'g')), R_VAL, 'root field')
    ids = [s.star(('ids', v2.term), lambda x: s.tok('oid', v2.term, x))]

    def one(i, p):
        w.expect(p, Const('b'), val('ln', i, ('c', 'str', 'b')), R_VAL, 'n')
        w.expect(p, Const('a'), val('ln', i, (('c', 'str', 'a'), od(v3))),
                 R_VAL, 'n')
    objects(w, w.read(r, Const('l'), R_VAL, 'link'), ids, one)
