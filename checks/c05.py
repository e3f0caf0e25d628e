"""Malformed loader results: a field loader's result that is not one value per
requested field (per identifier), or a link loader's result that does not fit
the cardinality of the link, fails the query with TypeError before anything is
loaded through it; well-formed results are accepted."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from hikustat.driver import describe_exc
from checks.c01 import idents

R_REJ = 'C05.reject'
R_ACC = 'C05.accept'
R_USE = 'C05.unused'


def run(c):
    c.rule(R_REJ, 'a loader result of the wrong shape makes the query fail '
           'with TypeError')
    c.rule(R_ACC, 'a loader result of the right shape is accepted')
    c.rule(R_USE, 'nothing is loaded through a malformed link result')
    for name, (mk, ok) in ROOT.items():
        c.scenario('root fields: ' + name, case(root_fields, mk, ok),
                   R_ACC if ok else R_REJ)
    for name, (mk, ok) in NODE.items():
        c.scenario('node fields: ' + name, case(node_fields, mk, ok),
                   R_ACC if ok else R_REJ)
    for name, (mk, ok) in ONE.items():
        for card in ('one', 'maybe'):
            c.scenario('node %s link: %s' % (card, name),
                       case(node_link, mk, ok, card), R_ACC if ok else R_REJ)
    for name, (mk, ok) in MANY.items():
        c.scenario('node sequence link: ' + name,
                   case(node_link, mk, ok, 'many'), R_ACC if ok else R_REJ)
    for name, (mk, ok) in FLAT.items():
        for where in ('root', 'node', 'root required'):
            c.scenario('%s sequence link, one list: %s' % (where, name),
                       case(flat_link, mk, ok, where), R_ACC if ok else R_REJ)


def case(build, mk, ok, *extra):
    def f(s):
        w = World(s)
        go = build(w, mk, *extra)
        exc, r = s.raises(go)
        if ok:
            s.ok(exc is None, R_ACC, 'a well-formed result is rejected: %s' % (
                describe_exc(s.I, s.last_raise) if exc is not None else ''))
        else:
            if s.ok(exc is not None, R_REJ, 'the malformed result is '
                    'accepted'):
                s.ok(s.is_exc(exc, 'TypeError'), R_REJ, 'the malformed result '
                     'raises %s instead of TypeError' % describe_exc(
                         s.I, s.last_raise), s.last_raise.stack[-1:] and
                     s.last_raise.stack[-1])
            bad = [e.data[0] for e, _ in s.events('load')
                   if e.data[0] == 'lx']
            s.ok(not bad, R_USE, 'the linked node is loaded although the '
                 'result of the link is malformed')
    return f


# results are built by functions of (scenario, fields, identifiers)

def values(s, fields, *pre):
    out = s.I.new_list()
    s.each(fields, lambda f: M.list_append(
        s.I, out, val(*(pre + (s.I.term(s.attr(f, 'name')),)))))
    return out


def rows(s, fields, ids):
    out = s.I.new_list()
    s.each(ids, lambda i: M.list_append(
        s.I, out, values(s, fields, s.I.term(i))))
    return out


def segs(s, v):
    return list(M.segs_of(s.I, v))


def tup(s, v):
    return Tup(segs(s, v))


def gen(s, v):
    return s.call(s.code('def gen(xs):\n    for x in xs:\n        yield x\n',
                         'gen'), v)


def bad_row(kind):
    """all rows are right but the one in the middle"""
    def f(s, fields, ids):
        out = segs(s, rows(s, fields, ids))
        r = out[1]
        out[1] = {
            'short': lambda: s.list(*segs(s, r)[:-1]),
            'long': lambda: s.list(*(segs(s, r) + [s.tok('extra')])),
            'none': lambda: NONE,
            'dict': lambda: s.dict(a=s.tok('a')),
            'number': lambda: Const(1),
        }[kind]()
        return s.list(*out)
    return f


def each_row(kind):
    def f(s, fields, ids):
        out = s.I.new_list()

        def one(i):
            r = values(s, fields, s.I.term(i))
            M.list_append(s.I, out, {
                'short': lambda: s.list(*segs(s, r)[1:]),
                'long': lambda: s.list(*(segs(s, r) + [s.tok('extra')])),
                'none': lambda: NONE,
                'tuple': lambda: tup(s, r),
                'set': lambda: M.call_bi(s.I, 'set', [r], {}),
            }[kind]())
        s.each(ids, one)
        return out
    return f


ROOT = {
    'list': (lambda s, f, i: values(s, f), True),
    'tuple': (lambda s, f, i: tup(s, values(s, f)), True),
    'too short': (lambda s, f, i: s.list(*segs(s, values(s, f))[:-1]), False),
    'too long': (lambda s, f, i: s.list(*(segs(s, values(s, f))
                                          + [s.tok('extra')])), False),
    'a generator': (lambda s, f, i: gen(s, values(s, f)), True),
    'empty': (lambda s, f, i: s.list(), False),
    'None': (lambda s, f, i: NONE, False),
    'a number': (lambda s, f, i: Const(7), False),
    'a mapping': (lambda s, f, i: s.dict(a=s.tok('a'), b=s.tok('b'),
                                         c=s.tok('c')), False),
    'a set': (lambda s, f, i: M.call_bi(s.I, 'set', [values(s, f)], {}),
              False),
    'an object': (lambda s, f, i: s.stub(attrs={}), False),
}
NODE = {
    'list of lists': (lambda s, f, i: rows(s, f, i), True),
    'tuple of tuples': (lambda s, f, i: tup(s, each_row('tuple')(s, f, i)),
                        True),
    'a row missing': (lambda s, f, i: s.list(*segs(s, rows(s, f, i))[:-1]),
                      False),
    'a row too many': (lambda s, f, i: s.list(*(
        segs(s, rows(s, f, i)) + [values(s, f)])), False),
    'empty': (lambda s, f, i: s.list(), False),
    'None': (lambda s, f, i: NONE, False),
    'one row short': (bad_row('short'), False),
    'one row long': (bad_row('long'), False),
    'one row None': (bad_row('none'), False),
    'one row a mapping': (bad_row('dict'), False),
    'one row a number': (bad_row('number'), False),
    'all rows short': (each_row('short'), False),
    'all rows long': (each_row('long'), False),
    'all rows None': (each_row('none'), False),
    'all rows sets': (each_row('set'), False),
    'a mapping of rows': (lambda s, f, i: s.dict(a=values(s, f)), False),
    'a number per identifier': (lambda s, f, i: flat(
        s, i, lambda t: Const(2)), False),
    'a generator': (lambda s, f, i: gen(s, rows(s, f, i)), True),
}


def flat(s, v, fn):
    out = s.I.new_list()
    s.each(v, lambda i: M.list_append(s.I, out, fn(s.I.term(i))))
    return out


one = lambda s: (lambda t: s.tok('to', t))
lst = lambda s: (lambda t: s.list(s.star(('to', t), lambda x: s.tok(
    'to', t, x))))


def bad_elem(build, kind):
    def f(s, v):
        out = segs(s, flat(s, v, build(s)))
        out[1] = kind(s)
        return s.list(*out)
    return f


ONE = {
    'list': (lambda s, v: flat(s, v, one(s)), True),
    'tuple': (lambda s, v: tup(s, flat(s, v, one(s))), True),
    'a generator': (lambda s, v: gen(s, flat(s, v, one(s))), True),
    'too short': (lambda s, v: s.list(*segs(s, flat(s, v, one(s)))[:-1]),
                  False),
    'too long': (lambda s, v: s.list(*(segs(s, flat(s, v, one(s)))
                                       + [s.tok('extra')])), False),
    'empty': (lambda s, v: s.list(), False),
    'None': (lambda s, v: NONE, False),
    'single identifier': (lambda s, v: Const(1), False),
    'a mapping': (lambda s, v: s.dict(a=s.tok('a'), b=s.tok('b'),
                                      c=s.tok('c')), False),
    'a set': (lambda s, v: M.call_bi(s.I, 'set', [flat(s, v, one(s))], {}),
              False),
}
MANY = {
    'list of lists': (lambda s, v: flat(s, v, lst(s)), True),
    'list of tuples': (lambda s, v: flat(s, v, lambda t: Tup(
        [s.tok('to', t)])), True),
    'a generator': (lambda s, v: gen(s, flat(s, v, lst(s))), True),
    'empty lists': (lambda s, v: flat(s, v, lambda t: s.list()), True),
    'too short': (lambda s, v: s.list(*segs(s, flat(s, v, lst(s)))[1:]),
                  False),
    'too long': (lambda s, v: s.list(*(segs(s, flat(s, v, lst(s)))
                                       + [s.list()])), False),
    'empty': (lambda s, v: s.list(), False),
    'None': (lambda s, v: NONE, False),
    'one element None': (bad_elem(lst, lambda s: NONE), False),
    'one element a number': (bad_elem(lst, lambda s: Const(3)), False),
    'one element a mapping': (bad_elem(lst, lambda s: s.dict(
        a=s.tok('a'))), False),
    'one element a set': (bad_elem(lst, lambda s: M.call_bi(
        s.I, 'set', [s.list(s.tok('a'))], {})), False),
    'all elements numbers': (lambda s, v: flat(s, v, lambda t: Const(5)),
                             False),
    'a mapping of lists': (lambda s, v: s.dict(a=s.list(), b=s.list(),
                                               c=s.list()), False),
}
FLAT = {
    'list': (lambda s: s.list(s.star('T', lambda x: s.tok('t', x))), True),
    'tuple': (lambda s: Tup([s.tok('t1'), s.tok('t2')]), True),
    'empty': (lambda s: s.list(), True),
    'None': (lambda s: NONE, False),
    'a number': (lambda s: Const(3), False),
    'a mapping': (lambda s: s.dict(a=s.tok('a')), False),
    'a set': (lambda s: M.call_bi(s.I, 'set', [s.list(s.tok('a'))], {}),
              False),
    'an object': (lambda s: s.stub(attrs={}), False),
}


def root_fields(w, mk):
    s = w.s

    def load(args, kw):
        return mk(s, args[0], None)
    f = s.stub(load)
    g = w.graph(w.root(
        w.field('a', f), s.star('A', lambda x: w.field(s.name_('fA', x), f)),
        w.field('b', f)))
    q = w.qn(w.qf('a'), s.star('A', lambda x: w.qf(s.name_('fA', x))),
             w.qf('b'))
    return lambda: w.execute(g, q)


def node_fields(w, mk):
    s = w.s

    def load(args, kw):
        return mk(s, args[0], args[1])
    f = s.stub(load)
    g = w.graph(
        w.node('n', w.field('a', f),
               s.star('A', lambda x: w.field(s.name_('fA', x), f)),
               w.field('b', f)),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(
            *idents(s, 'I'))))))
    q = w.qn(w.ql('l', w.qn(w.qf('a'), s.star('A', lambda x: w.qf(
        s.name_('fA', x))), w.qf('b'))))
    return lambda: w.execute(g, q)


def node_link(w, mk, card):
    s = w.s

    def load(args, kw):
        s.emit('load', 'k', tuple(args))
        return mk(s, args[0])
    g = w.graph(
        w.node('m', w.field('x', w.node_loader('lx'))),
        w.node('n', w.field('a', w.node_loader('la')),
               w.link('k', card, 'm', s.stub(load), requires='a')),
        w.root(w.link('l', 'many', 'n', w.const_loader('ll', s.list(
            *idents(s, 'I'))))))
    q = w.qn(w.ql('l', w.qn(w.ql('k', w.qn(w.qf('x'))))))
    return lambda: w.execute(g, q)


def flat_link(w, mk, where):
    s = w.s

    def load(args, kw):
        s.emit('load', 'k', tuple(args))
        return mk(s)
    kw = {'requires': 'a'} if where == 'root required' else {}
    k = w.link('k', 'many', 'm', s.stub(load), **kw)
    m = w.node('m', w.field('x', w.node_loader('lx')))
    qk = w.ql('k', w.qn(w.qf('x')))
    if where.startswith('root'):
        g = w.graph(m, w.root(w.field('a', w.root_loader('la')), k))
        q = w.qn(qk)
    else:
        g = w.graph(m, w.node('n', w.field('a', w.node_loader('la')), k),
                    w.root(w.link('l', 'many', 'n', w.const_loader(
                        'll', s.list(*idents(s, 'I'))))))
        q = w.qn(w.ql('l', w.qn(qk)))
    return lambda: w.execute(g, q)
