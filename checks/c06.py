"""Cardinality of links: Nothing for a required single link fails the query,
for an optional link reads as None, sequences read as one list per source
object in order; the linked node is visited with exactly the identifiers linked
to, and not at all when there are none."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from hikustat.driver import describe_exc
from checks.c01 import idents

R_ONE = 'C06.required'
R_VAL = 'C06.value'
R_IDS = 'C06.visited'
R_NOT = 'C06.unvisited'

KINDS = ('root', 'node', 'node required', 'root required')


def run(c):
    c.rule(R_ONE, 'Nothing for a non-optional single link fails the query')
    c.rule(R_VAL, 'an optional link reads None for Nothing and the object '
           'otherwise; a sequence link reads one list per source object in '
           'the order returned')
    c.rule(R_IDS, 'the linked node is visited with exactly the identifiers '
           'that were linked to')
    c.rule(R_NOT, 'the linked node is not visited when nothing is linked')
    for kind in KINDS:
        for card, table in (('one', ONE), ('maybe', MAYBE), ('many', MANY)):
            for name, fn in table.items():
                for mode in ('sync', 'last'):
                    c.scenario('%s %s: %s, %s' % (kind, card, name, mode),
                               lambda s, k=kind, cd=card, f=fn, m=mode:
                               case(s, k, cd, f, m), R_VAL)


# what the link returns for the i-th of the source objects (term t, position)

class Gone:
    """Nothing"""


def const(*vals):
    """different values by the position of the source object"""
    return lambda s, t, i: vals[i % len(vals)](s, t) \
        if callable(vals[i % len(vals)]) else vals[i % len(vals)]


to = lambda s, t: s.tok('to', t)
gone = lambda s, t: Gone
falsy = (Const(0), Const(''), NONE, Const(False))
manyof = lambda s, t: [s.star(('m', t), lambda x: s.tok('m', t, x))]
shared = lambda s, t: [s.tok('shared')]
both = lambda s, t: shared(s, t) + manyof(s, t) + shared(s, t)

ONE = {
    'objects': const(to),
    'same object': const(lambda s, t: s.tok('shared')),
    'falsy identifiers': const(*falsy),
    'Nothing everywhere': const(gone),
    'Nothing in the middle': const(to, gone, to),
    'Nothing first': const(gone, to, to),
    'Nothing last': const(to, to, gone),
}
MAYBE = dict(ONE)
MANY = {
    'objects': const(manyof),
    'shared and repeated': const(both),
    'empty everywhere': const(lambda s, t: []),
    'empty in the middle': const(manyof, lambda s, t: [], manyof),
    'only one non-empty': const(lambda s, t: [], manyof, lambda s, t: []),
    'falsy identifiers': const(lambda s, t: list(falsy)),
}


def case(s, kind, card, fn, mode):
    w = World(s)
    nothing = w.nothing()
    req = kind.endswith('required')
    seen = []

    def lift(v):
        if v is Gone:
            return nothing
        if isinstance(v, list):
            return s.list(*v)
        return v

    def load(args, kw):
        s.emit('load', 'k', tuple(args))
        if kind == 'node required':
            out = s.I.new_list()
            k = [0]
            for sg in M.segs_of(s.I, args[0]):
                s.I.seg(sg, lambda v: M.list_append(s.I, out, lift(fn(
                    s, s.I.term(v), k[0]))))
                k[0] += 1
            return out
        return lift(fn(s, ('c', 'str', kind), 0))
    lx = w.node_loader('lx')
    m = w.node('m', w.field('x', lx), w.link(
        'deep', 'many', 'p', w.const_loader('deep', s.list(s.tok('d')))))
    p = w.node('p', w.field('x', w.node_loader('lp')))
    k = w.link('k', card, 'm', s.stub(load), requires='a' if req else None)
    qk = w.ql('k', w.qn(w.qf('x'), w.ql('deep', w.qn(w.qf('x')))))
    ids = idents(s, 'I')
    if kind.startswith('root'):
        g = w.graph(m, p, w.root(w.field('a', w.root_loader('la')), k))
        q = w.qn(qk)
    else:
        g = w.graph(m, p, w.node('n', w.field('a', w.node_loader('la')), k),
                    w.root(w.link('l', 'many', 'n', w.const_loader(
                        'll', s.list(*ids)))))
        q = w.qn(w.ql('l', w.qn(qk)))
    if kind == 'node required':
        per = [(lambda t, i=i: fn(s, val('la', t, ('c', 'str', 'a')).term, i))
               for i in range(3)]
    else:
        per = [lambda t: fn(s, ('c', 'str', kind), 0)] * 3
    used = 3 if kind == 'node required' else 1
    bad = card == 'one' and any(
        fn(s, ('c', 'str', '?'), i) is Gone for i in range(used))
    exc, r = s.raises(lambda: w.execute(
        g, q, w.sync() if mode == 'sync' else w.scheduler(mode)))
    if bad:
        s.ok(exc is not None, R_ONE, 'Nothing returned for a non-optional '
             'link is accepted')
        return
    if not s.ok(exc is None, R_VAL, 'a valid link result fails: %s' % (
            describe_exc(s.I, s.last_raise) if exc is not None else '')):
        return

    expected = []        # segments of linked identifiers

    def expect(p, want):
        v = w.read(p, Const('k'), R_VAL, 'link')
        if v is None:
            return
        if want is Gone:
            s.same(v, NONE, R_VAL, 'link without an object')
        elif isinstance(want, list):
            n = M.length(s.I, v) if M.length else None
            if s.same(n, M.segs_len(s.I, want), R_VAL,
                      'number of linked objects'):
                z = M.call_bi(s.I, 'zip', [s.list(*want), v], {})
                s.each(z, lambda t: obj(t.items[0], t.items[1]))
        else:
            obj(want, v)

    def obj(ident, p):
        w.expect(p, Const('x'), val('lx', s.I.term(ident),
                                    ('c', 'str', 'x')), R_VAL,
                 'linked object')
    if kind.startswith('root'):
        want = per[0](('c', 'str', kind))
        expect(r, want)
        expected += flat(want)
    else:
        lst = w.read(r, Const('l'), R_VAL, 'list')
        if lst is None:
            return
        got = M.segs_of(s.I, lst)
        if not s.ok(len(got) == len(ids), R_VAL, 'number of objects'):
            return
        for i, (a, b) in enumerate(zip(ids, got)):
            z = M.call_bi(s.I, 'zip', [s.list(a), s.list(b)], {})
            s.each(z, lambda t, i=i: expect(t.items[1], per[i](
                s.I.term(t.items[0]))))
            box = s.I.new_list()
            s.I.seg(a, lambda x, i=i: M.list_extend(s.I, box, s.list(*flat(
                per[i](s.I.term(x))))))
            expected += list(M.segs_of(s.I, box))
    visited(w, expected)


def flat(want):
    if want is Gone:
        return []
    return want if isinstance(want, list) else [want]


def visited(w, expected):
    s, I = w.s, w.I
    calls = [e for e, ns in s.events('load') if e.data[0] == 'lx']
    deep = [e for e, ns in s.events('load') if e.data[0] == 'deep']
    if not expected:
        s.ok(not calls and not deep, R_NOT, 'the linked node is visited '
             'although nothing is linked')
        return
    if not s.ok(bool(calls) and bool(deep), R_IDS,
                'the linked node is not visited'):
        return
    got = calls[0].data[1][1] if len(calls[0].data[1]) > 1 else s.list()
    for a, b, msg in ((expected, M.segs_of(I, got), 'is not loaded'),
                      (M.segs_of(I, got), expected, 'is loaded but not '
                       'linked to')):
        d = I.new_dict()
        for x in b:
            I.seg(x, lambda v: M.dict_set(I, d, v, NONE))
        for x in a:
            I.seg(x, lambda v: s.ok(M.contains(I, d, v), R_IDS,
                                    'identifier %s %s' % (s.show(v), msg)))
