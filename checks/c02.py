"""Batching: one call per distinct loader and node visit, with every selected
field and every identifier together; one call per selected link; nothing else
is called."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from checks.c01 import fields, qfields, idents

R_ONE = 'C02.once'
R_ARGS = 'C02.batch'
R_NONE = 'C02.unselected'


def run(c):
    c.rule(R_ONE, 'a loader is called once per visit of an unordered node, '
           'never once per identifier or per field')
    c.rule(R_ARGS, 'the call carries all selected fields of the loader and '
           'all identifiers')
    c.rule(R_NONE, 'loaders of unselected fields and links are not called')
    for mode in ('sync', 'last', 'all'):
        c.scenario('root visit, %s executor' % mode,
                   lambda s, m=mode: root_visit(s, m), R_ONE,
                   'interleaved fields of two loaders, links')
        c.scenario('node visit, %s executor' % mode,
                   lambda s, m=mode: node_visit(s, m), R_ONE,
                   'any number of identifiers and fields, links with and '
                   'without a required field')
        c.scenario('chain of links, %s executor' % mode,
                   lambda s, m=mode: chain_visit(s, m), R_ONE,
                   'sequence links of sequence links')
        for place in ('root', 'node'):
            c.scenario('every kind of selection of one loader, %s visit, %s '
                       'executor' % (place, mode), lambda s, a=(place, mode):
                       mixed(s, *a), R_ONE,
                       'plain fields, with options, aliases, complex fields, '
                       'fields required by links')
    c.scenario('a loader per field', per_field, R_ONE,
               'any number of fields, each with a loader of its own')


def executor(w, mode):
    return w.sync() if mode == 'sync' else w.scheduler(mode)


def calls(s, tag):
    return [(e, ns) for e, ns in s.events('load') if e.data[0] == tag]


def once(s, tag, n=1, within=()):
    cs = calls(s, tag)
    if n == 0:
        s.ok(not cs, R_NONE, 'loader %s is called although nothing selects it'
             % (tag,))
        return None
    if not s.ok(len(cs) == n, R_ONE, 'loader %s is called at %d places, '
                'expected %d' % (tag, len(cs), n)):
        return None
    for e, ns in cs:
        if not s.ok(ns == within, R_ONE, 'loader %s is called once per '
                    'element of %s' % (tag, ns)):
            return None
    return cs[0][0].data[1]


def same_set(w, got, want, what):
    """two sequences of names hold the same names"""
    s, I = w.s, w.I
    for a, b, msg in ((want, got, 'is missing'), (got, want, 'is extra')):
        d = I.new_dict()

        def put(x):
            M.dict_set(I, d, x, NONE)
        for x in b:
            I.seg(x, put)

        def test(x):
            s.ok(M.contains(I, d, x), R_ARGS, '%s: %s %s' % (
                what, s.show(x), msg))
        for x in a:
            I.seg(x, test)


def names(w, seq):
    out = w.I.new_list()
    w.I.iterate(seq, lambda f: M.list_append(
        w.I, out, w.I.getattr(f, 'name')))
    return M.segs_of(w.I, out)


def check_call(w, tag, qs, ids, what):
    s = w.s
    args = once(s, tag)
    if args is None:
        return
    if not s.ok(len(args) == (1 if ids is None else 2), R_ARGS,
                '%s: %s got %d arguments' % (what, tag, len(args))):
        return
    same_set(w, names(w, args[0]), qs, '%s, fields of %s' % (what, tag))
    if ids is not None:
        s.same(args[1], s.list(*ids), R_ARGS, '%s, identifiers of %s' % (
            what, tag))


def star_names(w, *tags):
    s = w.s
    return [s.star(t, lambda x: s.name_('f' + t, x)) if t.isupper()
            else Const(t) for t in tags]


def root_visit(s, mode):
    w = World(s)
    la, lb, lu = (w.root_loader(t) for t in ('la', 'lb', 'lu'))
    fs = fields(w, la, lb)
    g = w.graph(
        w.node('n', w.field('x', w.node_loader('lx'))),
        w.root(*(fs + [w.field('u', lu), w.field('req', lb),
                       w.field('req2', w.root_loader('lr')),
                       w.link('k', 'many', 'n', w.const_loader(
                           'lk', s.list(s.tok('k1')))),
                       w.link('kr', 'many', 'n', w.map_key('lkr'),
                              requires='req'),
                       w.link('kr2', 'many', 'n', w.map_key('lkr2'),
                              requires='req2'),
                       w.link('ku', 'many', 'n', w.const_loader(
                           'lku', s.list(s.tok('k2'))))])))
    q = w.qn(*(qfields(w) + [w.ql('k', w.qn(w.qf('x'))),
                             w.ql('kr', w.qn(w.qf('x'))),
                             w.ql('kr2', w.qn(w.qf('x')))]))
    w.execute(g, q, executor(w, mode))
    check_call(w, 'la', star_names(w, 'A', 'B', 'v'), None, 'root')
    check_call(w, 'lb', star_names(w, 'w', 'C', 'req'), None, 'root')
    check_call(w, 'lr', star_names(w, 'req2'), None, 'root')
    for t in ('lk', 'lkr', 'lkr2'):
        once(s, t)
    once(s, 'lx', 3)
    once(s, 'lu', 0)
    once(s, 'lku', 0)


def node_visit(s, mode):
    w = World(s)
    la, lb, lu = (w.node_loader(t) for t in ('la', 'lb', 'lu'))
    ids = idents(s, 'I')
    g = w.graph(
        w.node('m', w.field('x', w.node_loader('lx'))),
        w.node('n', *(fields(w, la, lb) + [
            w.field('u', lu), w.field('req', lb),
            w.field('req2', w.node_loader('lr')),
            w.link('k', 'many', 'm', w.const_loader('lk', s.list(
                s.tok('k1')))),
            w.link('kr', 'one', 'm', w.map_loader('lkr', lambda v: s.tok(
                'kr', s.I.term(v))), requires='req'),
            w.link('kr2', 'maybe', 'm', w.map_loader('lkr2', lambda v: s.tok(
                'kr2', s.I.term(v))), requires='req2'),
            w.link('ku', 'many', 'm', w.const_loader('lku', s.list(
                s.tok('k2'))))])),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    q = w.qn(w.ql('l', w.qn(*(qfields(w) + [
        w.ql('k', w.qn(w.qf('x'))), w.ql('kr', w.qn(w.qf('x'))),
        w.ql('kr2', w.qn(w.qf('x')))]))))
    w.execute(g, q, executor(w, mode))
    once(s, 'll')
    check_call(w, 'la', star_names(w, 'A', 'B', 'v'), ids, 'node')
    check_call(w, 'lb', star_names(w, 'w', 'C', 'req'), ids, 'node')
    check_call(w, 'lr', star_names(w, 'req2'), ids, 'node')
    for t in ('lk', 'lkr', 'lkr2'):
        once(s, t)
    once(s, 'lx', 3)
    once(s, 'lu', 0)
    once(s, 'lku', 0)


def chain_visit(s, mode):
    w = World(s)
    ids = idents(s, 'I')
    ln, lm = w.node_loader('ln'), w.node_loader('lm')

    def kid(tag):
        return lambda v: s.list(s.star((tag, s.I.term(v)), lambda x: s.tok(
            tag, s.I.term(v), x)))
    g = w.graph(
        w.node('o', w.field('x', w.node_loader('lo')),
               w.field('y', w.node_loader('ly'))),
        w.node('m', w.field('b', lm), w.field('c', lm), w.link(
            'os', 'many', 'o', w.map_loader('lmo', kid('o')), requires='b')),
        w.node('n', w.field('a', ln), w.link(
            'ms', 'many', 'm', w.map_loader('lnm', kid('m')), requires='a')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    q = w.qn(w.ql('l', w.qn(w.ql('ms', w.qn(
        w.ql('os', w.qn(w.qf('x'))), w.qf('c'))))))
    w.execute(g, q, executor(w, mode))
    for t in ('ll', 'ln', 'lnm', 'lm', 'lmo', 'lo'):
        once(s, t)
    once(s, 'ly', 0)


def per_field(s):
    w = World(s)
    ids = idents(s, 'I')
    mk = lambda tag, u: s.star(tag, lambda x: w.field(
        s.name_('f' + tag, x), w.node_loader((u, x))))
    g = w.graph(
        w.node('n', mk('A', 'la'), mk('B', 'lb')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    q = w.qn(w.ql('l', w.qn(s.star('A', lambda x: w.qf(s.name_('fA', x))))))
    w.execute(g, q)
    a = [(e, ns) for e, ns in s.events('load')
         if isinstance(e.data[0], tuple) and e.data[0][0] == 'la']
    b = [(e, ns) for e, ns in s.events('load')
         if isinstance(e.data[0], tuple) and e.data[0][0] == 'lb']
    s.ok(not b, R_NONE, 'loaders of unselected fields are called')
    s.ok(bool(a), R_ONE, 'the loaders of the selected fields are not called')
    for e, ns in a:
        n = e.data[0][1][1]
        s.ok(ns in ((n,), ()) and not any(
            ix_chain(x)[-1] != 'A' for x in ns), R_ONE,
            'loader of a field is called once per element of %s' % (ns,))
        fs = names(w, e.data[1][0])
        s.ok(len(fs) == 1 and not isinstance(fs[0], Star), R_ARGS,
             'the loader of one field is asked for %s' % s.show(
                 e.data[1][0]))


def mixed(s, place, mode):
    """fields with and without options, aliases, complex fields and required
    fields of one loader"""
    w = World(s)
    root = place == 'root'
    la = (w.root_loader if root else w.node_loader)('la')
    lx = w.node_loader('lx')
    rec = s.item(s.get('hiku.types:Record'), s.dict(
        p=s.get('hiku.types:Integer')))
    o = lambda: s.list(w.option('o'), w.option('d', default=s.tok('dd')))
    lk = w.map_key('lk') if root else w.map_loader(
        'lk', lambda v: s.list(s.tok('to', w.I.term(v))))
    lo = w.map_key('lo') if root else w.map_loader(
        'lo', lambda v: s.list(s.tok('too', w.I.term(v))))
    members = [
        w.field('a', la), w.field('b', la, options=o()),
        w.field('c', la, rec), w.field('d', la, rec, options=o()),
        w.field('e', la, options=s.list(w.option('d', default=NONE))),
        w.field('r', la), w.field('u', la, options=s.list(
            w.option('d', default=Const(0)))),
        s.star('F', lambda x: w.field(s.name_('fF', x), la)),
        s.star('G', lambda x: w.field(s.name_('fG', x), la, options=s.list(
            w.option('d', default=Const(1))))),
        w.link('k', 'many', 'm', lk, requires='r'),
        w.link('j', 'many', 'm', lo, requires='u',
               options=s.list(w.option('o')))]
    one = s.dict(o=s.tok('v1'))
    two = s.dict(o=s.tok('v2'), d=NONE)
    sub = lambda: w.qn(w.qf('p'))
    to_m = lambda: w.qn(w.qf('x'))
    sels = [
        w.qf('a'), w.qf('b', options=one), w.qf('b', options=two,
                                                alias='b2'),
        w.ql('k', to_m()), w.ql('c', sub()), w.qf('a', alias='a2'),
        w.ql('d', sub(), options=one), w.ql('d', sub(), options=two,
                                            alias='d2'),
        w.ql('j', to_m(), options=one), w.qf('e'),
        s.star('F', lambda x: w.qf(s.name_('fF', x))),
        s.star('G', lambda x: w.qf(s.name_('fG', x), options=s.dict(
            d=s.tok('dG', x)))), w.qf('u', options=s.dict(d=Const(0)))]
    m = w.node('m', w.field('x', lx))
    ids = None
    if root:
        g, q = w.graph(m, w.root(*members)), w.qn(*sels)
    else:
        ids = idents(s, 'I')
        g = w.graph(m, w.node('n', *members), w.root(w.link(
            'l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
        q = w.qn(w.ql('l', w.qn(*sels)))
    w.execute(g, q, executor(w, mode))
    check_call(w, 'la', star_names(w, 'a', 'b', 'c', 'd', 'e', 'r', 'u',
                                   'F', 'G'), ids, place)
    for t in ('lk', 'lo'):
        once(s, t)
    once(s, 'lx', 2)
