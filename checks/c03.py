"""Required fields before links: under every completion order, the loader of a
link with a required field is submitted only when the values of that field are
stored, and receives exactly those values in the order of the identifiers."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from checks.c01 import fields, qfields, idents, objects
from checks.c02 import calls

R_VAL = 'C03.values'
R_DEP = 'C03.after'


def run(c):
    c.rule(R_VAL, 'the loader of a link receives the values of the required '
           'field, one per identifier, in the order of the identifiers')
    c.rule(R_DEP, 'the loader of a link runs only after the loader of the '
           'required field and after its values are stored')
    for mode in ('any', 'last', 'all', 'first', 'sync'):
        for ordered in (False, True):
            o = ', ordered' if ordered else ''
            big = c.tier != 'quick' or mode != 'any'
            c.scenario('root links, %s%s' % (mode, o),
                       lambda s, m=mode, d=ordered, b=big:
                       root_links(s, m, d, b), R_DEP,
                       'root links whose required field is selected before, '
                       'after, aliased, not selected', max_paths=4000,
                       cost=9 if mode == 'any' else 1)
            c.scenario('node links, %s%s' % (mode, o),
                       lambda s, m=mode, d=ordered, b=big:
                       node_links(s, m, d, b), R_DEP,
                       'the same on a node reached for any number of '
                       'identifiers', max_paths=4000,
                       cost=10 if mode == 'any' else 1)
    for mode in ('any', 'all', 'last'):
        if mode == 'any' and c.tier == 'quick':
            continue
        c.scenario('required field with fields around, %s' % mode,
                   lambda s, m=mode: many(s, m), R_DEP,
                   'any number of fields of several loaders selected',
                   max_paths=4000, cost=5)
        c.scenario('required sub-graph field, %s' % mode,
                   lambda s, m=mode: subgraph(s, m), R_DEP,
                   'the required field is an expression over a low-level '
                   'graph', max_paths=4000, cost=5)
    for mode in ('any', 'all'):
        c.scenario('chain of required fields, %s' % mode,
                   lambda s, m=mode: chain(s, m), R_DEP,
                   'links of links', max_paths=4000)


def ex(w, mode):
    return w.sync() if mode == 'sync' else w.scheduler(mode)


def order(s, first, then, what):
    """the call of `first` completed before `then` was submitted"""
    tags = [e.data[0] for e, _ in s.events('load')]
    s.ok(first in tags and then in tags
         and tags.index(first) < tags.index(then), R_DEP,
         '%s: loader %s of the required field has to run before %s' % (
             what, first, then))


def got(s, tag, want, what):
    cs = calls(s, tag)
    if not s.ok(len(cs) >= 1, R_VAL, '%s: link loader %s is not called' % (
            what, tag)):
        return
    for e, ns in cs:
        args = e.data[1]
        if s.ok(len(args) == 1, R_VAL, '%s: link loader got %d arguments' % (
                what, len(args))):
            s.same(args[0], want, R_VAL, '%s: argument of %s' % (what, tag))


def single(w, tag):
    s = w.s

    def load(tag, args, kw):
        s.emit('load', tag, tuple(args))
        return s.tok('to', tag, s.I.term(args[0]))
    return s.stub(load, tag=tag)


def root_links(s, mode, ordered, big=True):
    w = World(s)
    la, lb, lc = (w.root_loader(t) for t in ('la', 'lb', 'lc'))
    g = w.graph(
        w.node('n', w.field('x', w.node_loader('lx'))),
        w.root(w.field('a', la), w.field('b', lb), w.field('c', lc),
               w.field('d', lb),
               w.link('ka', 'one', 'n', single(w, 'ka'), requires='a'),
               w.link('kb', 'maybe', 'n', single(w, 'kb'), requires='b'),
               w.link('kc', 'one', 'n', single(w, 'kc'), requires='c')))
    x = lambda: w.qn(w.qf('x'), ordered=ordered)
    sel = [w.qf('a'), w.ql('kb', x()), w.ql('ka', x()), w.ql('kc', x()),
           w.qf('d'), w.qf('c', alias='z')]
    if not big:
        sel = sel[1:3]
    q = w.qn(*sel, ordered=ordered)
    r = w.execute(g, q, ex(w, mode))
    for f, k in (('la', 'ka'), ('lb', 'kb'), ('lc', 'kc'))[:3 if big else 2]:
        order(s, f, k, 'root')
        v = val(f, ('c', 'str', f[1]))
        got(s, k, v, 'root')
        o = w.read(r, Const(k), R_VAL, 'root link')
        if o is not None:
            w.expect(o, Const('x'), val('lx', ('tok', 'to', k, v.term),
                                        ('c', 'str', 'x')), R_VAL, 'root link')


def node_links(s, mode, ordered, big=True):
    w = World(s)
    la, lb, lc = (w.node_loader(t) for t in ('la', 'lb', 'lc'))
    ids = idents(s, 'I')
    mk = lambda k: w.map_loader(k, lambda v: s.tok('to', k, s.I.term(v)))
    g = w.graph(
        w.node('m', w.field('x', w.node_loader('lx'))),
        w.node('n', w.field('a', la), w.field('b', lb), w.field('c', lc),
               w.field('d', lb),
               w.link('ka', 'one', 'm', mk('ka'), requires='a'),
               w.link('kb', 'maybe', 'm', mk('kb'), requires='b'),
               w.link('kc', 'one', 'm', mk('kc'), requires='c')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    x = lambda: w.qn(w.qf('x'))
    sel = [w.qf('a'), w.ql('kb', x()), w.ql('ka', x()), w.ql('kc', x()),
           w.qf('d'), w.qf('c', alias='z')]
    if not big:
        sel = sel[1:3]
    q = w.qn(w.ql('l', w.qn(*sel, ordered=ordered)))
    w.execute(g, q, ex(w, mode))
    for f, k in (('la', 'ka'), ('lb', 'kb'), ('lc', 'kc'))[:3 if big else 2]:
        order(s, f, k, 'node')
        got(s, k, values(s, ids, f, f[1]), 'node')


def values(s, ids, tag, name):
    out = s.I.new_list()
    s.each(s.list(*ids), lambda i: M.list_append(
        s.I, out, val(tag, s.I.term(i), ('c', 'str', name))))
    return out


def many(s, mode):
    w = World(s)
    la, lb = w.node_loader('la'), w.node_loader('lb')
    ids = idents(s, 'I')
    mk = lambda k: w.map_loader(k, lambda v: s.tok('to', k, s.I.term(v)))
    g = w.graph(
        w.node('m', w.field('x', w.node_loader('lx'))),
        w.node('n', *(fields(w, la, lb) + [
            w.field('r', lb), w.link('k', 'one', 'm', mk('k'), requires='r'),
            w.link('j', 'one', 'm', mk('j'), requires='w'),
            w.link('i', 'one', 'm', mk('i'), requires='v')])),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    x = lambda: w.qn(w.qf('x'))
    w.execute(g, w.qn(w.ql('l', w.qn(*(
        [w.ql('k', x())] + qfields(w) + [w.ql('j', x()), w.ql('i', x())])))),
        ex(w, mode))
    for k, f, n in (('k', 'lb', 'r'), ('j', 'lb', 'w'), ('i', 'la', 'v')):
        order(s, f, k, 'node')
        got(s, k, values(s, ids, f, n), 'node')


def chain(s, mode):
    w = World(s)
    ids = idents(s, 'I')
    ln, lm = w.node_loader('ln'), w.node_loader('lm')
    kid = lambda tag: (lambda v: s.list(
        s.star((tag, s.I.term(v)), lambda x: s.tok(tag, s.I.term(v), x))))
    g = w.graph(
        w.node('o', w.field('x', w.node_loader('lo'))),
        w.node('m', w.field('b', lm), w.link(
            'os', 'many', 'o', w.map_loader('lmo', kid('o')), requires='b')),
        w.node('n', w.field('a', ln), w.link(
            'ms', 'many', 'm', w.map_loader('lnm', kid('m')), requires='a')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    w.execute(g, w.qn(w.ql('l', w.qn(w.ql('ms', w.qn(
        w.ql('os', w.qn(w.qf('x')))))))), ex(w, mode))
    got(s, 'lnm', values(s, ids, 'ln', 'a'), 'n')
    out = s.I.new_list()

    def one(i):
        a = val('ln', s.I.term(i), ('c', 'str', 'a'))
        M.list_extend(s.I, out, kid('m')(a))
    s.each(s.list(*ids), one)
    got(s, 'lmo', values(s, M.segs_of(s.I, out), 'lm', 'b'), 'm')
    for f, k in (('ln', 'lnm'), ('lm', 'lmo')):
        order(s, f, k, 'chain')


def subgraph(s, mode):
    w = World(s)
    ids = idents(s, 'I')
    lo = w.node_loader('lo')
    low = w.graph(w.node('t', w.field('p', lo), w.field('q', lo)), w.root())
    sg = s.mk('hiku.sources.graph:SubGraph', low, Const('t'))
    S = s.get('hiku.expr.core:S')
    expr = lambda n: s.meth(sg, 'c', s.attr(s.attr(S, 'this'), n))
    mk = lambda k: w.map_loader(k, lambda v: s.tok('to', k, s.I.term(v)))
    g = w.graph(
        w.node('m', w.field('x', w.node_loader('lx'))),
        w.node('n', w.field('a', expr('p')), w.field('b', expr('q')),
               w.field('c', w.node_loader('lc')),
               w.link('k', 'one', 'm', mk('k'), requires='a'),
               w.link('j', 'one', 'm', mk('j'), requires='c')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    x = lambda: w.qn(w.qf('x'))
    w.execute(g, w.qn(w.ql('l', w.qn(
        w.ql('k', x()), w.qf('b'), w.ql('j', x())))), ex(w, mode))
    order(s, 'lo', 'k', 'sub-graph')
    got(s, 'k', values(s, ids, 'lo', 'p'), 'sub-graph')
    got(s, 'j', values(s, ids, 'lc', 'c'), 'sub-graph')
