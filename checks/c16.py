"""An option value is accepted exactly when it conforms to the declared type
of the option, through every nested element."""
from hikustat.values import *   # noqa
from hikustat.world import nm
from checks.c15 import W15

R_BAD = 'C16.rejected'
R_GOOD = 'C16.accepted'
R_RAISE = 'C16.decided'

DATA = {
    'Sc': 'Integer', 'St': 'String', 'Ls': ('seq', 'String'),
    'Op': ('opt', 'Integer'), 'Rr': ('ref', 'R'), 'Rs': ('ref', 'Sc'),
    'R': ('rec', {'i': 'Integer', 's': ('opt', 'String')}),
    'T': ('rec', {'v': 'Integer', 'kids': ('seq', ('ref', 'T'))}),
    'M': ('map', 'String', ('ref', 'R')),
}
REC = ('rec', {'i': 'Integer', 's': 'String'})
TYPES = {
    'untyped': None, 'Any': 'Any', 'Boolean': 'Boolean', 'String': 'String',
    'Integer': 'Integer', 'Float': 'Float',
    'Optional[Any]': ('opt', 'Any'), 'Optional[Boolean]': ('opt', 'Boolean'),
    'Optional[String]': ('opt', 'String'),
    'Optional[Integer]': ('opt', 'Integer'),
    'Optional[Float]': ('opt', 'Float'),
    'Optional[Optional[Integer]]': ('opt', ('opt', 'Integer')),
    'Sequence[Any]': ('seq', 'Any'), 'Sequence[Boolean]': ('seq', 'Boolean'),
    'Sequence[String]': ('seq', 'String'),
    'Sequence[Integer]': ('seq', 'Integer'),
    'Sequence[Float]': ('seq', 'Float'),
    'Sequence[Optional[Integer]]': ('seq', ('opt', 'Integer')),
    'Optional[Sequence[Integer]]': ('opt', ('seq', 'Integer')),
    'Sequence[Sequence[Integer]]': ('seq', ('seq', 'Integer')),
    'Mapping[String, Integer]': ('map', 'String', 'Integer'),
    'Mapping[Integer, String]': ('map', 'Integer', 'String'),
    'Mapping[Any, Any]': ('map', 'Any', 'Any'),
    'Mapping[String, Optional[Integer]]': ('map', 'String',
                                           ('opt', 'Integer')),
    'Mapping[String, Sequence[Integer]]': ('map', 'String',
                                           ('seq', 'Integer')),
    'Record': REC, 'Record[{}]': ('rec', {}),
    'Record of optionals': ('rec', {'i': ('opt', 'Integer'),
                                    's': ('opt', 'String')}),
    'Optional[Record]': ('opt', REC), 'Sequence[Record]': ('seq', REC),
    'Record of sequences': ('rec', {'i': ('seq', 'Integer'), 's': 'Any'}),
    'Record of records': ('rec', {'i': REC, 's': ('seq', REC)}),
    'Mapping of records': ('map', 'String', REC),
    'named scalar': ('ref', 'Sc'), 'named string': ('ref', 'St'),
    'named sequence': ('ref', 'Ls'), 'named optional': ('ref', 'Op'),
    'named record': ('ref', 'R'), 'name of a name': ('ref', 'Rr'),
    'name of a named scalar': ('ref', 'Rs'),
    'recursive record': ('ref', 'T'), 'named mapping': ('ref', 'M'),
    'Sequence of a name': ('seq', ('ref', 'Sc')),
    'Optional of a name': ('opt', ('ref', 'R')),
    'Mapping of a name': ('map', 'String', ('ref', 'Sc')),
    'Record of names': ('rec', {'i': ('ref', 'Sc'), 's': ('ref', 'St')}),
}


class K:
    """an arbitrary value of a primitive kind"""

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'any ' + self.kind


class Many:
    """any number of arbitrary elements; in a dict, of arbitrary keys"""

    def __init__(self, item, key=None):
        self.item = item
        self.key = key

    def __repr__(self):
        return '%s...' % (self.item,)


class D:
    """a dict given by its pairs, some of them Many"""

    def __init__(self, *pairs):
        self.pairs = pairs

    def __repr__(self):
        return '{%s}' % ', '.join(
            repr(p) if isinstance(p, Many) else '%r: %r' % p
            for p in self.pairs)


INT, STR, FLT, BOOL = K('int'), K('str'), K('float'), K('bool')
OK = {'i': INT, 's': STR}
VALUES = [
    None, True, False, BOOL, 0, 1, -1, INT, '', 'x', STR, 0.0, 1.5, FLT,
    [], [None], [INT], [STR], [FLT], [BOOL], [True], [''], [0], [1, None],
    [INT, STR], [STR, INT], [INT, INT, STR], [[]], [[INT]], [[STR]], [INT, []],
    [[INT], [INT, STR]], [[INT], INT],
    [Many(INT)], [Many(STR)], [Many(FLT)], [Many(BOOL)],
    [Many(INT), STR], [STR, Many(INT)], [INT, Many(STR)],
    [Many(INT), None, Many(INT)], [Many([INT])], [Many([INT]), [STR]],
    [Many([Many(INT)])], [Many([INT]), [Many(INT), STR]],
    {}, {'x': INT}, {'x': STR}, {'x': None}, {'x': INT, 'y': STR},
    {'x': [INT]}, {'x': [INT], 'y': [STR]}, {'x': [Many(INT), STR]},
    D((INT, STR)), D((INT, INT)), D((1, 'x'), ('y', 'x')), D((1, 'x')),
    D(Many(INT, 'str')), D(Many(STR, 'str')), D(Many(INT, 'int')),
    D(Many(STR, 'int')), D(Many(INT, 'str'), ('z', STR)),
    D(('z', STR), Many(INT, 'str')), D(Many(None, 'str')),
    OK, {'i': INT}, {'s': STR}, {'i': STR, 's': STR}, {'i': INT, 's': INT},
    {'i': INT, 's': None}, {'i': None, 's': STR}, {'i': None, 's': None},
    {'i': INT, 's': STR, 'x': INT}, {'i': 0, 's': ''}, {'i': True, 's': 'x'},
    {'i': INT, 's': STR, 'x': None}, {'i': INT, 'x': STR},
    {'s': STR, 'i': INT}, D(('i', INT), ('s', STR), (1, INT)),
    {'i': [INT], 's': INT}, {'i': [Many(INT), STR], 's': None},
    {'i': OK, 's': [OK]}, {'i': OK, 's': []}, {'i': OK, 's': [OK, {}]},
    {'i': OK, 's': [Many(OK), {'i': INT}]}, {'i': {'i': INT}, 's': [OK]},
    {'i': OK, 's': [Many(OK)]},
    [OK], [OK, {}], [{'i': INT, 's': INT}], [Many(OK)],
    [Many(OK), {'i': INT}], [Many(OK), {'i': INT, 's': STR, 'x': STR}],
    {'x': OK}, {'x': OK, 'y': {'i': STR, 's': STR}},
    D(Many(OK, 'str')), D(Many(OK, 'str'), ('z', {})),
    {'v': INT, 'kids': []}, {'v': INT, 'kids': [{'v': INT, 'kids': []}]},
    {'v': INT, 'kids': [{'v': INT, 'kids': [{'v': STR, 'kids': []}]}]},
    {'v': INT, 'kids': [Many({'v': INT, 'kids': []})]},
    {'v': INT, 'kids': [Many({'v': INT, 'kids': []}), {'v': INT}]},
]


def kind(v):
    if isinstance(v, K):
        return v.kind
    return type(v).__name__


def items(v):
    for x in v:
        yield x.item if isinstance(x, Many) else x


def pairs(v):
    for p in (v.pairs if isinstance(v, D) else v.items()):
        yield (K(p.key), p.item) if isinstance(p, Many) else p


def conforms(t, v):
    if t is None or t == 'Any':
        return True
    if isinstance(t, str):
        return kind(v) == {'Boolean': 'bool', 'String': 'str',
                           'Integer': 'int', 'Float': 'float'}[t]
    if t[0] == 'opt':
        return v is None or conforms(t[1], v)
    if t[0] == 'ref':
        return conforms(DATA[t[1]], v)
    if t[0] == 'seq':
        return isinstance(v, list) and all(conforms(t[1], x)
                                           for x in items(v))
    if not isinstance(v, (dict, D)):
        return False
    if t[0] == 'map':
        return all(conforms(t[1], k) and conforms(t[2], x)
                   for k, x in pairs(v))
    ps = list(pairs(v))
    return {k for k, _ in ps if isinstance(k, str)} == set(t[1]) \
        and len(ps) == len(t[1]) \
        and all(conforms(t[1][k], x) for k, x in ps)


def build(s, v, at=()):
    n = [0]

    def sub(x):
        n[0] += 1
        return build(s, x, at + (n[0],))

    def star(x, fn):
        name = 'N%s' % '_'.join(map(str, at + (n[0],)))
        n[0] += 1
        return s.star(name, fn)

    if isinstance(v, K):
        return s.tok('v', *at, ty=v.kind)
    if isinstance(v, list):
        out = []
        for x in v:
            if isinstance(x, Many):
                out.append(star(x, lambda i, x=x: build(
                    s, x.item, at + (n[0], i))))
            else:
                out.append(sub(x))
        return s.list(*out)
    if isinstance(v, (dict, D)):
        d = s.dict()
        for p in (v.pairs if isinstance(v, D) else v.items()):
            if isinstance(p, Many):
                t = {'str': 'name', 'int': 'int'}[p.key]
                st = star(p, lambda i, p=p: Tup([
                    Sym(('tok', 'k') + at + (n[0], i), t),
                    build(s, p.item, at + (n[0], i))]))
                s.meth(d, 'update', s.list(st))
            else:
                s.meth(d, '__setitem__', sub(p[0]), sub(p[1]))
        return d
    return Const(v)


# an option in every place a query may give it; -> (graph, query)
def on_field(w, o, opts):
    s = w.s
    return (w.graph(w.root(w.field('f', w.fn, options=s.list(*o)))),
            w.qn(w.qf('f', opts)))


PLACES = {
    'field': lambda w, o, opts: (
        [w.root(w.field('f', w.fn, options=w.s.list(*o)))],
        w.qn(w.qf('f', opts))),
    'aliased field': lambda w, o, opts: (
        [w.root(w.field('g', w.fn), w.field('f', w.fn, options=w.s.list(*o)))],
        w.qn(w.qf('g'), w.qf('f', opts, 'z'))),
    'complex field': lambda w, o, opts: (
        [w.root(w.field('f', w.fn, w.type_(REC), options=w.s.list(*o)))],
        w.qn(w.ql('f', w.qn(w.qf('i')), opts))),
    'link': lambda w, o, opts: (
        [w.node('a', w.field('v', w.fn)),
         w.root(w.link('l', 'many', 'a', w.fn, options=w.s.list(*o)))],
        w.qn(w.ql('l', w.qn(w.qf('v')), opts))),
    'field of a node': lambda w, o, opts: (
        [w.node('a', w.field('v', w.fn, options=w.s.list(*o))),
         w.root(w.link('l', 'one', 'a', w.fn))],
        w.qn(w.ql('l', w.qn(w.qf('v', opts))))),
    'link of a node': lambda w, o, opts: (
        [w.node('a', w.field('v', w.fn),
                w.link('m', 'maybe', 'a', w.fn, options=w.s.list(*o))),
         w.root(w.link('l', 'one', 'a', w.fn))],
        w.qn(w.ql('l', w.qn(w.qf('v'), w.ql('m', w.qn(w.qf('v')), opts))))),
}


def run(c):
    c.rule(R_BAD, 'an error is reported for a value which does not conform '
           'to the declared type')
    c.rule(R_GOOD, 'no error is reported for a conforming value')
    c.rule(R_RAISE, 'validation does not raise')
    for tn, t in TYPES.items():
        for v in VALUES:
            c.scenario('%s: %r' % (tn, v),
                       lambda s, a=(t, v): single(s, *a), R_RAISE)
    some = ['Boolean', 'Integer', 'Optional[String]', 'Sequence[Integer]',
            'Mapping[String, Integer]', 'Record', 'named record', 'untyped']
    vals = [v for i, v in enumerate(VALUES) if c.tier == 'thorough'
            or i % 4 == 0 or i % 2 == 0 and kind(v) in ('dict', 'D')]
    for place in PLACES:
        for tn in TYPES if c.tier == 'thorough' else some:
            t = TYPES[tn]
            if place != 'field':
                for v in vals:
                    c.scenario('%s of a %s: %r' % (tn, place, v),
                               lambda s, a=(t, v, place): single(s, *a),
                               R_RAISE)
            # the value is the default of the option
            for v in vals:
                c.scenario('default of %s of a %s: %r' % (tn, place, v),
                           lambda s, a=(t, v, place): default(s, *a),
                           R_RAISE)
    # an option among others
    for tn in some:
        for v in vals:
            for how in ('first', 'last', 'any number'):
                c.scenario('%s, %s among others: %r' % (tn, how, v),
                           lambda s, a=(TYPES[tn], v, how): among(s, *a),
                           R_RAISE)


    for tn, (t, good_, bad_) in SIMILAR.items():
        for where in ('two links', 'nested links', 'two fields',
                      'links with options', 'two nodes', 'complex fields'):
            for order in (0, 1):
                c.scenario('similar %s, %s%s' % (
                    tn, where, ', the other way round' * order),
                    lambda s, a=(t, good_, bad_, where, order): similar(
                        s, *a), R_BAD)
    for where in ('two fields', 'links with options', 'two nodes',
                  'complex fields'):
        for order in (0, 1):
            for t1, t2, v in (('Integer', 'String', INT),
                              (('opt', 'String'), 'String', None),
                              (('seq', 'Integer'), ('seq', 'String'), [INT]),
                              (None, 'Float', STR)):
                c.scenario('one value for %s and %s, %s%s' % (
                    t1, t2, where, ', the other way round' * order),
                    lambda s, a=(t1, t2, v, where, order): two_types(s, *a),
                    R_BAD)


# values equal to each other, only one conforms
SIMILAR = {
    'True and 1': ('Integer', 1, True), '1.0 and 1': ('Integer', 1, 1.0),
    'False and 0': ('Integer', 0, False), '1 and 1.0': ('Float', 1.0, 1),
    '0 and 0.0': ('Float', 0.0, 0), '1 and True': ('Boolean', True, 1),
    '0 and False': ('Boolean', False, 0),
    '[True] and [1]': (('seq', 'Integer'), [1], [True]),
    '{1: x} and {True: x}': (('map', 'Integer', 'Any'), D((1, 'x')),
                             D((True, 'x'))),
    'records': (REC, {'i': 1, 's': 'x'}, {'i': True, 's': 'x'}),
}


def two(s, types, values, where):
    """two options called o, of these types, with these values"""
    w = W16(s)
    w.fn = w.node_loader('ld')
    o = [s.list(w.option('o', NONE if t is None else w.type_(t)))
         for t in types]
    v = [s.dict(o=build(s, x, (i,))) for i, x in enumerate(values)]
    qn, qf, ql = w.qn, w.qf, w.ql
    if where in ('two links', 'nested links'):
        # the same field of the same node
        items = [w.node('a', w.field('v', w.fn, options=o[0]),
                        w.link('c', 'one', 'a', w.fn)),
                 w.root(w.link('l', 'one', 'a', w.fn),
                        w.link('m', 'many', 'a', w.fn))]
        q = qn(ql('l', qn(qf('v', v[0]))), ql('m', qn(qf('v', v[1])))) \
            if where == 'two links' else \
            qn(ql('l', qn(qf('v', v[0]), ql('c', qn(qf('v', v[1]))))))
    elif where == 'two fields':
        items = [w.root(w.field('f', w.fn, options=o[0]),
                        w.field('g', w.fn, options=o[1]))]
        q = qn(qf('f', v[0]), qf('g', v[1]))
    elif where == 'complex fields':
        items = [w.root(w.field('f', w.fn, w.type_(REC), options=o[0]),
                        w.field('g', w.fn, w.type_(REC), options=o[1]))]
        q = qn(ql('f', qn(qf('i')), v[0]), ql('g', qn(qf('i')), v[1]))
    elif where == 'two nodes':
        items = [w.node('a', w.field('v', w.fn, options=o[0])),
                 w.node('b', w.field('v', w.fn, options=o[1])),
                 w.root(w.link('l', 'one', 'a', w.fn),
                        w.link('m', 'one', 'b', w.fn))]
        q = qn(ql('l', qn(qf('v', v[0]))), ql('m', qn(qf('v', v[1]))))
    else:
        items = [w.node('a', w.field('v', w.fn)),
                 w.root(w.link('l', 'one', 'a', w.fn, options=o[0]),
                        w.link('m', 'one', 'a', w.fn, options=o[1]))]
        q = qn(ql('l', qn(qf('v')), v[0]), ql('m', qn(qf('v')), v[1]))
    exc, errors = s.raises(lambda: s.call(
        s.get('hiku.validate.query:validate'), w.graph_(items), q))
    if not s.ok(exc is None, R_RAISE, 'validation raises %s' % (
            exc is not None and s.I.exc_name(exc))):
        return
    errors = s.call(Bi('list'), errors)
    if all(conforms(*x) for x in zip(types, values)):
        s.same(errors, s.list(), R_GOOD, 'errors about conforming values')
    else:
        s.ok(s.I.truth(errors), R_BAD, 'a value of another type is accepted')


def similar(s, t, good_, bad_, where, order):
    two(s, (t, t), (good_, bad_)[::-1 if order else 1], where)


def two_types(s, t1, t2, v, where, order):
    two(s, (t1, t2)[::-1 if order else 1], (v, v), where)


class W16(W15):

    def graph_(self, items):
        s = self.s
        return self.graph(*items, data_types=s.dict(
            **{k: self.type_(t) for k, t in DATA.items()}))


def verdict(s, w, place, opts, given, good):
    w.fn = w.node_loader('ld')
    items, q = PLACES[place](w, opts, given)
    g = w.graph_(items)
    exc, errors = s.raises(lambda: s.call(
        s.get('hiku.validate.query:validate'), g, q))
    if not s.ok(exc is None, R_RAISE, 'validation raises %s' % (
            exc is not None and s.I.exc_name(exc))):
        return
    errors = s.call(Bi('list'), errors)
    if good:
        s.same(errors, s.list(), R_GOOD, 'errors about a conforming value')
    else:
        s.ok(s.I.truth(errors), R_BAD,
             'a value of another type is accepted')


def single(s, t, v, place='field'):
    w = W16(s)
    verdict(s, w, place, [w.option('o', w.type_(t))],
            s.dict(o=build(s, v)), conforms(t, v))


def default(s, t, v, place):
    w = W16(s)
    for_ = s.dict() if place in ('field', 'link') else NONE
    verdict(s, w, place, [w.option('o', w.type_(t), default=build(s, v))],
            for_, conforms(t, v))


def among(s, t, v, how):
    w = W16(s)
    o = w.option('o', w.type_(t))
    a, b = w.option('a', w.type_('Integer')), w.option(
        'b', w.type_(('opt', 'String')))
    d = s.dict()
    it = lambda k, x: s.meth(d, '__setitem__', Const(k), x)
    if how == 'any number':
        i = w.type_('Integer')
        opts = [s.star('P', lambda x: w.option(s.name_('p', x), i)), o,
                s.star('Q', lambda x: w.option(s.name_('q', x), i))]
        s.meth(d, 'update', s.list(s.star('P', lambda x: Tup([
            s.name_('p', x), s.tok('pv', x, ty='int')]))))
        it('o', build(s, v))
        s.meth(d, 'update', s.list(s.star('Q', lambda x: Tup([
            s.name_('q', x), s.tok('qv', x, ty='int')]))))
    else:
        opts = [o, a, b] if how == 'first' else [a, b, o]
        it('b', NONE)
        it('o', build(s, v))
        it('a', s.tok('av', ty='int'))
    verdict(s, w, 'field', opts, d, conforms(t, v))
