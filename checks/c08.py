"""Selections of one field or link with different options are stored and read
back independently; selections which differ in the alias only read the same
value."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from hikustat.driver import describe_exc
from checks.c01 import idents

R_SEP = 'C08.separate'
R_SAME = 'C08.same'

# pairs of different option values, as functions of the scenario
K = Const


def lst(*xs):
    return lambda s: s.list(*[x(s) if callable(x) else x for x in xs])


def dct(**kw):
    return lambda s: s.dict(**{k: v(s) if callable(v) else v
                               for k, v in kw.items()})


def tup(*xs):
    return lambda s: Tup([x(s) if callable(x) else x for x in xs])


def tok(*n):
    return lambda s: s.tok(*n)


DIFF = {
    'strings': (K('a'), K('b')),
    'string and number': (K('1'), K(1)),
    'minus one and minus two': (K(-1), K(-2)),
    'true and one': (K(True), K(1)),
    'false and zero': (K(False), K(0)),
    'null and empty': (NONE, K('')),
    'null and false': (NONE, K(False)),
    'null and zero': (NONE, K(0)),
    'integer and float': (K(1), K(1.5)),
    'empty list and null': (lst(), NONE),
    'empty list and empty mapping': (lst(), dct()),
    'empty mapping and null': (dct(), NONE),
    'lists in different order': (lst(K(1), K(2)), lst(K(2), K(1))),
    'list and its prefix': (lst(K(1), K(2)), lst(K(1))),
    'list and its element': (lst(K(1)), K(1)),
    'nested lists': (lst(lst(K(1)), lst(K(2))), lst(lst(K(1), K(2)))),
    'nested lists, minus one': (lst(lst(K(-1))), lst(lst(K(-2)))),
    'list and repetition': (lst(K(1)), lst(K(1), K(1))),
    'mappings with swapped values': (dct(a=K(1), b=K(2)),
                                     dct(a=K(2), b=K(1))),
    'mappings with swapped keys': (dct(a=K('b')), dct(b=K('a'))),
    'mapping and its part': (dct(a=K(1)), dct(a=K(1), b=K(1))),
    'mapping of null': (dct(a=NONE), dct()),
    'mapping and pairs': (dct(a=K(1)), lst(lst(K('a'), K(1)))),
    'deep mappings': (dct(a=dct(b=lst(K(1), dct(c=K(-1))))),
                      dct(a=dct(b=lst(K(1), dct(c=K(-2)))))),
    'deep true and one': (dct(a=lst(K(True))), dct(a=lst(K(1)))),
    'unrelated values': (tok('v1'), tok('v2')),
    'unrelated values in lists': (lst(tok('v1'), tok('v2')),
                                  lst(tok('v2'), tok('v1'))),
}
# pairs of mappings of options, given as (options, options)
MAPS = {
    'option name': (dct(a=K(1)), dct(b=K(1))),
    'further option': (dct(a=K(1)), dct(a=K(1), b=K(1))),
    'swapped options': (dct(a=K(1), b=K(2)), dct(a=K(2), b=K(1))),
    'value is a name': (dct(a=K('b'), b=K('a')), dct(a=K('a'), b=K('b'))),
    'no options': (dct(a=K(1)), None),
    'no options and null': (dct(a=NONE), None),
}
PLACES = ('root field', 'node field', 'root link', 'node link',
          'node link required', 'complex field')


def run(c):
    c.rule(R_SEP, 'selections with different options have values of their '
           'own')
    c.rule(R_SAME, 'selections which differ in nothing but the alias read '
           'the same value')
    for place in PLACES:
        for name, (a, b) in DIFF.items():
            c.scenario('%s: %s' % (place, name),
                       lambda s, p=place, a=a, b=b: separate(
                           s, p, dct(a=a)(s), dct(a=b)(s)), R_SEP)
        for name, (a, b) in MAPS.items():
            c.scenario('%s: %s' % (place, name),
                       lambda s, p=place, a=a, b=b: separate(
                           s, p, a(s), b(s) if b else NONE), R_SEP)
        c.scenario('%s: any number of options' % place,
                   lambda s, p=place: stars(s, p), R_SEP)
        for name, mk in SAME.items():
            c.scenario('%s: same %s' % (place, name),
                       lambda s, p=place, m=mk: same(s, p, m), R_SAME)


SAME = {
    'value': lambda s: (dct(a=K(1))(s), dct(a=K(1))(s)),
    'order of options': lambda s: (dct(a=K(1), b=K(2))(s),
                                   s.dict_of([(K('b'), K(2)),
                                              (K('a'), K(1))])),
    'list': lambda s: (dct(a=lst(K(1), tok('v')))(s),
                       dct(a=lst(K(1), tok('v')))(s)),
    'mapping': lambda s: (dct(a=dct(b=K(1), c=lst()))(s),
                          dct(a=s.dict_of([(K('c'), s.list()),
                                           (K('b'), K(1))]))(s)),
    'none': lambda s: (NONE, NONE),
    'unhashable and opaque': lambda s: (dct(a=tok('v'))(s),
                                        dct(a=tok('v'))(s)),
}


def world(s, place, key=None):
    """graph with the field or link `f` at the place, and the query of the
    given selections"""
    w = World(s)
    I = s.I
    got = []

    opt = lambda o: label(s, o)
    at_root = place.startswith('root') or place == 'complex field'
    req = 'a' if place.endswith('required') else None
    decl = s.list(w.option('a', default=NONE), w.option('b', default=NONE)) \
        if key is None else key
    m = w.node('m', w.field('x', w.node_loader('lx')))

    def record(args, kw):
        out = I.new_list()
        s.each(args[0], lambda f: M.list_append(I, out, s.dict(y=val(
            'lf', opt(I.getattr(f, 'options'))))))
        return out
    if 'link' in place:
        def load(args, kw):
            o = args[-1]
            s.emit('load', 'lf', tuple(args))
            if req:
                out = I.new_list()
                I.iterate(args[0], lambda v: M.list_append(
                    I, out, s.list(s.name_('to', I.term(v), opt(o)))))
                return out
            return s.list(s.name_('to', opt(o)))
        item = w.link('f', 'many', 'm', s.stub(load), requires=req,
                      options=decl)
    else:
        item = w.field('f', (w.root_loader if at_root else w.node_loader)(
            'lf', key=lambda f: opt(I.getattr(f, 'options')))
            if place != 'complex field' else s.stub(record), options=decl)
    la = (w.root_loader if at_root else w.node_loader)('la')
    ids = idents(s, 'I')
    if at_root:
        g = w.graph(m, w.root(w.field('a', la), item))
    else:
        g = w.graph(m, w.node('n', w.field('a', la), item), w.root(
            w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))

    def sel(o, alias):
        if 'link' in place:
            return w.ql('f', w.qn(w.qf('x')), options=o, alias=alias)
        if place == 'complex field':
            return w.ql('f', w.qn(w.qf('y')), options=o, alias=alias)
        return w.qf('f', options=o, alias=alias)

    def query(*sels):
        q = w.qn(*sels)
        return q if at_root else w.qn(w.ql('l', q))

    def objects(r, fn):
        """fn(object, term of its identifier)"""
        if at_root:
            return fn(r, None)
        lst_ = w.read(r, K('l'), R_SEP, 'list')
        if lst_ is None:
            return
        z = M.call_bi(I, 'zip', [s.list(*ids), lst_], {})
        s.each(z, lambda t: fn(t.items[1], I.term(t.items[0])))

    def check(obj, ident, alias, o, rule):
        """o: the term of the options the loader received"""
        v = w.read(obj, nm(alias), rule, 'selection')
        if v is None:
            return
        what = 'value of the selection with options %s' % (o,)
        if 'link' in place:
            if req:
                to = ('tok', 'to', val('la', ident, ('c', 'str', 'a')).term,
                      o)
            else:
                to = ('tok', 'to', o)
            z = M.segs_of(I, v)
            if s.ok(len(z) == 1, rule, 'number of linked objects'):
                w.expect(z[0], K('x'), val('lx', to, ('c', 'str', 'x')),
                         rule, what)
        elif place == 'complex field':
            w.expect(v, K('y'), val('lf', o), rule, what)
        elif at_root:
            s.same(v, val('lf', o), rule, what)
        else:
            s.same(v, val('lf', ident, o), rule, what)
    return w, g, sel, query, objects, check


def label(s, o):
    """stands for the options a loader got"""
    t = ('c', None) if o == NONE else s.I.term(o)
    return t if "'ix'" in repr(t) else repr(t)


def full(s, o):
    """the options a loader gets: declared a and b, null by default"""
    d = s.dict()
    for k in ('a', 'b'):
        v = NONE if o == NONE else M.call(s.I, s.I.getattr(o, 'get'),
                                          [K(k)], {})
        M.dict_set(s.I, d, K(k), v)
    return label(s, d)


def separate(s, place, o1, o2):
    w, g, sel, query, objects, check = world(s, place)
    t1, t2 = full(s, o1), full(s, o2)
    r = w.execute(g, query(sel(o1, 'p'), sel(o2, 'q')))
    if t1 == t2:        # the same options, once defaults are filled in
        return

    def obj(p, ident):
        check(p, ident, 'p', t1, R_SEP)
        check(p, ident, 'q', t2, R_SEP)
    objects(r, obj)


def same(s, place, mk):
    w, g, sel, query, objects, check = world(s, place)
    o1, o2 = mk(s)
    t1 = full(s, o1)
    r = w.execute(g, query(sel(o1, 'p'), sel(o2, 'q'), sel(o1, None)))
    ks = [s.attr(x, 'index_key') for x in (
        sel(o1, 'p'), sel(o2, 'q'), sel(o1, None))]
    for k in ks[1:]:
        s.ok(s.I.eq3(ks[0], k), R_SAME, 'the storage key depends on the '
             'alias or on the order of the options')

    def obj(p, ident):
        for a in ('p', 'q', 'f'):
            check(p, ident, a, t1, R_SAME)
    objects(r, obj)


def stars(s, place):
    """any number of equal options next to the one which differs"""
    w = World(s)

    def opts(v):
        d = s.dict()
        s.each(s.list(s.star('A', lambda x: Tup(
            [s.name_('oA', x), s.tok('vA', x)]))),
            lambda p: M.dict_set(s.I, d, p.items[0], p.items[1]))
        M.dict_set(s.I, d, K('z'), v)
        return d
    decl = s.list(s.star('A', lambda x: w.option(s.name_('oA', x))),
                  w.option('z'))
    w, g, sel, query, objects, check = world(s, place, decl)
    o1, o2 = opts(K(-1)), opts(K(-2))
    t1, t2 = label(s, o1), label(s, o2)
    r = w.execute(g, query(sel(o1, 'p'), sel(o2, 'q')))

    def obj(p, ident):
        check(p, ident, 'p', t1, R_SEP)
        check(p, ident, 'q', t2, R_SEP)
    objects(r, obj)
