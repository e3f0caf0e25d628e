"""Introspection describes the whole graph: every node, record data type and
root; every public field with its options; every declared type, nullable
exactly for Optional (and the scalar Any, which stands for everything GraphQL
has no name for); the asynchronous variant describes the same schema."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, nm
from hikustat.qspec import value
from checks.c15 import W15

R_TYPES = 'C21.types'
R_FIELDS = 'C21.fields'
R_ARGS = 'C21.options'
R_REF = 'C21.type_of'
R_RAISE = 'C21.never_raises'
R_BY_NAME = 'C21.type_by_name'

DEPTH = 5
REF = 'kind name ' + 'ofType { kind name ' * DEPTH + '}' * DEPTH
FULL = '''
{ __schema {
  queryType { name } mutationType { name } subscriptionType { name }
  types { kind name description
    fields { name description isDeprecated deprecationReason
      args { name description defaultValue type { %(r)s } }
      type { %(r)s } }
    inputFields { name defaultValue type { %(r)s } }
    interfaces { name } possibleTypes { name } enumValues { name }
    ofType { name } }
  directives { name locations args { name defaultValue type { %(r)s } } }
} }
''' % {'r': REF}
TYPES_ONLY = '''
{ __schema { types { kind name
    fields { name args { name defaultValue type { %(r)s } }
      type { %(r)s } }
    inputFields { name defaultValue type { %(r)s } } } } }
''' % {'r': REF}
BY_NAME = '''
{ %s __type(name: "%s") { kind name description
    fields { name args { name defaultValue type { %s } }
             type { %s } } } }
'''

INLINE = ('rec', {'p': 'Integer'})
DATA = {
    'R': ('rec', {'i': 'Integer', 's': 'String', 'f': 'Float',
                  'b': 'Boolean', 'a': 'Any', 'oi': ('opt', 'Integer'),
                  'si': ('seq', 'Integer'), 'ssi': ('seq', ('seq',
                                                            'Integer')),
                  'osoi': ('opt', ('seq', ('opt', 'Integer'))),
                  'm': ('map', 'String', 'Integer'), 'in': INLINE,
                  'sin': ('seq', INLINE), 'r': ('ref', 'R'),
                  'orr': ('opt', ('ref', 'R')), 'sr': ('seq', ('ref', 'R')),
                  'sq': ('ref', 'Sq'), 'sc': ('ref', 'Sc')}),
    'Q': ('rec', {'x': 'Integer'}),
    'Sc': 'Integer', 'Sq': ('seq', ('ref', 'Q')), 'Op': ('opt', ('ref', 'Q')),
    'Os': ('opt', ('seq', 'Integer')),
    'Al': ('ref', 'Q'), 'Ma': ('map', 'String', 'Integer'),
}
TYPES = {
    'untyped': None, 'any': 'Any', 'int': 'Integer', 'str': 'String',
    'float': 'Float', 'bool': 'Boolean',
    'optint': ('opt', 'Integer'), 'optany': ('opt', 'Any'),
    'ints': ('seq', 'Integer'), 'anys': ('seq', 'Any'),
    'optints': ('opt', ('seq', 'Integer')),
    'intopts': ('seq', ('opt', 'Integer')),
    'optintopts': ('opt', ('seq', ('opt', 'String'))),
    'optopt': ('opt', ('opt', 'Float')),
    'matrix': ('seq', ('seq', 'Boolean')),
    'omatrix': ('opt', ('seq', ('opt', ('seq', ('opt', 'Boolean'))))),
    'map': ('map', 'String', 'Integer'), 'optmap': ('opt', ('map', 'String',
                                                           'Any')),
    'maps': ('seq', ('map', 'String', 'Integer')),
    'rec': INLINE, 'recs': ('seq', INLINE), 'optrec': ('opt', INLINE),
    'ref': ('ref', 'Q'), 'optref': ('opt', ('ref', 'Q')),
    'refs': ('seq', ('ref', 'Q')), 'orefs': ('opt', ('seq', ('opt', (
        'ref', 'Q')))),
    'refsc': ('ref', 'Sc'), 'refsq': ('ref', 'Sq'), 'refop': ('ref', 'Op'),
    'refal': ('ref', 'Al'), 'refma': ('ref', 'Ma'),
    'optoptints': ('opt', ('opt', ('seq', 'Integer'))),
    'opt op of seq': ('opt', ('ref', 'Os')),
    'optsq': ('opt', ('ref', 'Sq')), 'seqop': ('seq', ('ref', 'Op')),
}
NAMES = {'Integer': 'Int', 'String': 'String', 'Float': 'Float',
         'Boolean': 'Boolean'}


def ref(t, inp=False):
    """the expected description of a type"""
    if t is None or t == 'Any' or t[0] in ('map', 'rec'):
        return {'kind': 'SCALAR', 'name': 'Any'}
    if isinstance(t, str):
        return non_null({'kind': 'SCALAR', 'name': NAMES[t]})
    if t[0] == 'opt':
        r = ref(t[1], inp)
        return r['ofType'] if r['kind'] == 'NON_NULL' else r
    if t[0] == 'seq':
        return non_null({'kind': 'LIST', 'name': None,
                         'ofType': ref(t[1], inp)})
    if t[1] in DATA and DATA[t[1]][0] != 'rec':
        return ref(DATA[t[1]], inp)
    if inp:
        return non_null({'kind': 'INPUT_OBJECT', 'name': 'IO' + t[1]})
    return non_null({'kind': 'OBJECT', 'name': t[1]})


def non_null(r):
    return {'kind': 'NON_NULL', 'name': None, 'ofType': r}


def full(r, depth=DEPTH):
    """with the nested selections of REF"""
    if isinstance(r, dict):
        r = dict(r)
        if depth:
            r['ofType'] = full(r.get('ofType'), depth - 1)
    return r


MOD = 'hiku.endpoint.graphql:'
KINDS = {'GraphQLEndpoint': False, 'AsyncGraphQLEndpoint': True}
DEFAULTS = {'none': (None, 'null'), 'zero': (0, '0'), 'false': (False,
                                                                'false'),
            'empty': ('', '""'), 'text': ('a"b', '"a\\"b"'),
            'list': ([1, 'x'], '[1, "x"]'), 'dict': ({'k': None},
                                                     '{"k": null}')}


def run(c):
    c.rule(R_TYPES, 'every node, record data type, root and builtin scalar '
           'is listed exactly once')
    c.rule(R_FIELDS, 'every public field and link of a type is described '
           'exactly once, with its description')
    c.rule(R_ARGS, 'every option of a field or link is described with its '
           'default')
    c.rule(R_REF, 'the type of every field and option is described as '
           'declared')
    c.rule(R_RAISE, 'introspection of a valid graph never raises')
    c.rule(R_BY_NAME, '__type describes the same types as __schema')
    for kind in KINDS:
        for mut in (False, True):
            m = ', mutations' * mut
            c.scenario('%s: empty%s' % (kind, m), lambda s, a=(kind, mut):
                       whole(s, *a, what='empty'), R_TYPES)
            for t in TYPES:
                if mut and TYPES[t] and TYPES[t][0] in ('opt', 'seq') \
                        and c.tier == 'quick':
                    continue
                c.scenario('%s: type %s%s' % (kind, t, m),
                           lambda s, a=(kind, mut, t): types(s, *a), R_REF)
            for cat in ('private', 'links', 'options', 'descriptions',
                        'same names',
                        'several roots'):
                c.scenario('%s: %s%s' % (kind, cat, m),
                           lambda s, a=(kind, mut, cat): whole(
                               s, *a), R_FIELDS)
            for cat in ('fields', 'links', 'options', 'fields and links'):
                for where in ('n', 'Query'):
                    c.scenario('%s: any number of %s of %s%s' % (
                        kind, cat, where, m), lambda s, a=(kind, mut, cat,
                                                           where):
                        anynumber(s, *a), R_FIELDS)
            for name in ('n', 'Query', 'Mutation', 'nope', 'Boolean9'):
                for op in ('', 'mutation') if mut else ('',):
                    c.scenario('%s: __type %s%s%s' % (
                        kind, name, m, op and ', in a mutation'),
                        lambda s, a=(kind, mut, name, op): by_name(s, *a),
                        R_BY_NAME)


class G(W15):
    """a graph and its expected description"""

    def __init__(self, s, kind, mut, data=(), brief=False):
        self.uses = {}
        for n in data:
            self.use(n)
        self.brief = brief
        super().__init__(s)
        gql.install(s)
        self.async_ = KINDS[kind]
        self.kind = kind
        self.mut = mut
        fn = (lambda f: self.coro(f)) if self.async_ else (lambda f: f)
        self.ld = fn(self.root_loader('r'))
        self.nld = fn(self.node_loader('n'))
        self.nodes = {}
        self.data = {}
        self.types = []

    def use(self, t):
        """the data types a type refers to"""
        if isinstance(t, str):
            if t in DATA and t not in self.uses:
                self.uses[t] = DATA[t]
                self.use(DATA[t])
        elif isinstance(t, dict):
            for x in t.values():
                self.use(x)
        elif t is not None:
            for x in t[1:]:
                self.use(x)

    def descr(self, name, fields, descr=NONE, kind='OBJECT', inputs=()):
        d = value(self.s, {'kind': kind, 'name': name} if self.brief else {
            'kind': kind, 'name': name, 'description': descr,
            'interfaces': [], 'possibleTypes': [], 'enumValues': [],
            'ofType': None})
        M.dict_set(self.I, d, Const('fields'), self.s.list(*fields))
        M.dict_set(self.I, d, Const('inputFields'), self.s.list(*inputs))
        return d

    def fdescr(self, name, type_, descr=NONE, args=()):
        if self.brief:
            return value(self.s, {'name': name, 'type': full(type_),
                                  'args': self.s.list(*args)})
        return value(self.s, {
            'name': name, 'description': descr, 'isDeprecated': False,
            'deprecationReason': None, 'args': self.s.list(*args),
            'type': full(type_)})

    def adescr(self, name, type_, default=None, descr=NONE):
        if self.brief:
            return value(self.s, {'name': name, 'defaultValue': default,
                                  'type': full(type_)})
        return value(self.s, {
            'name': name, 'description': descr, 'defaultValue': default,
            'type': full(type_)})

    def expected_data(self):
        out = []
        for n, t in self.uses.items():
            if t[0] != 'rec':
                continue
            out.append(self.descr(n, [self.fdescr(k, ref(v))
                                      for k, v in t[1].items()]))
            out.append(self.descr('IO' + n, [], kind='INPUT_OBJECT', inputs=[
                value(self.s, {'name': k, 'defaultValue': None,
                               'type': full(ref(v, True))})
                for k, v in t[1].items()]))
        return out

    def scalars(self):
        return [self.descr(n, [], kind='SCALAR') for n in (
            'String', 'Int', 'Boolean', 'Float', 'Any')]

    def run(self, doc, items, mitems=None):
        s = self.s
        data = s.dict(**{k: self.type_(t) for k, t in self.uses.items()})
        g = self.graph(*items, data_types=data)
        args = [g]
        if self.mut:
            args.append(self.graph(*(mitems or items), data_types=data))
        ex = self.async_executor() if self.async_ else self.sync()
        ep = s.mk(MOD + self.kind, s.mk('hiku.engine:Engine', ex), *args)

        def go():
            r = s.meth(ep, 'dispatch', value(s, {'query': doc}))
            return M.await_(self.I, r) if self.async_ else r
        exc, r = s.raises(go)
        if not s.ok(exc is None, R_RAISE, 'introspection raises %s' % (
                exc is not None and s.I.exc_name(exc))):
            return None
        if not s.ok(M.contains(self.I, r, Const('data')), R_RAISE,
                    'introspection is answered with %s' % s.show(r)):
            return None
        return s.item(r, Const('data'))

    def loader_fields(self):
        return ('f', self.ld), ('x', self.nld)


def match(w, got, want, rule, what):
    """the same items, in any order"""
    s = w.s
    segs = list(M.segs_of(w.I, got))
    for e in want:
        es = M.segs_of(w.I, s.list(e))[0]
        label = '' if isinstance(es, Star) else s.show(s.item(
            es, Const('name')))
        hit = None
        for g in segs:
            if isinstance(es, Star) != isinstance(g, Star):
                continue
            if s.same3(s.list(g), s.list(es)) is True:
                hit = g
                break
        if hit is not None:
            s.checked += 1
            segs.remove(hit)
            continue
        for g in segs:
            if not isinstance(g, Star) and not isinstance(es, Star) and \
                    s.same3(s.item(g, Const('name')),
                            s.item(es, Const('name'))) is True:
                hit = g
        if hit is not None:
            segs.remove(hit)
            differ(w, hit, es, rule, '%s %s' % (what, label))
        else:
            s.ok(False, rule, '%s %s is not listed' % (what, label))
    for g in segs:
        s.ok(False, rule, '%s %s is listed more than once or should not be '
             'listed' % (what, 'number of' if isinstance(g, Star) else
                         s.show(s.item(g, Const('name')))))


KEYS = {'fields': R_FIELDS, 'args': R_ARGS, 'inputFields': R_FIELDS,
        'type': R_REF, 'defaultValue': R_ARGS}


def differ(w, got, want, rule, what):
    s = w.s
    for k in M.segs_of(w.I, s.call(Bi('list'), want)):
        e, g = s.item(want, k), s.item(got, k)
        if s.same3(g, e) is True:
            continue
        r = KEYS.get(k.v, rule)
        if k.v in ('fields', 'args', 'inputFields'):
            match(w, g, M.segs_of(w.I, e), r, '%s: %s' % (what, k.v))
        elif k.v == 'type':
            s.ok(False, r, 'type of %s: %s instead of %s' % (
                what, flat(s, g), flat(s, e)))
        else:
            s.same(g, e, r, '%s of %s' % (k.v, what))


def flat(s, r):
    out = ''
    while r != NONE:
        n = s.item(r, Const('name'))
        k = s.item(r, Const('kind'))
        if not isinstance(k, Const):
            return out + s.show(r)
        out += {'NON_NULL': '!', 'LIST': 'list of '}.get(
            k.v, s.show(k) + ' ' + s.show(n) + ' ')
        if not M.contains(s.I, r, Const('ofType')):
            break
        r = s.item(r, Const('ofType'))
    return out


STR = non_null({'kind': 'SCALAR', 'name': 'String'})


def schema(w, data, items, what=''):
    """compares the whole schema"""
    s = w.s
    sc = s.item(data, Const('__schema'))
    if w.brief:
        match(w, s.item(sc, Const('types')),
              w.scalars() + items + w.expected_data(), R_TYPES, 'type')
        return
    s.same(s.item(sc, Const('queryType')), value(s, {'name': 'Query'}),
           R_TYPES, 'queryType')
    s.same(s.item(sc, Const('mutationType')), value(s, {
        'name': 'Mutation'} if w.mut else None), R_TYPES, 'mutationType')
    s.same(s.item(sc, Const('subscriptionType')), NONE, R_TYPES,
           'subscriptionType')
    match(w, s.item(sc, Const('types')),
          w.scalars() + items + w.expected_data(), R_TYPES, 'type')
    b = full(non_null({'kind': 'SCALAR', 'name': 'Boolean'}))
    match(w, s.item(sc, Const('directives')), [value(s, {
        'name': n, 'locations': ['FIELD', 'FRAGMENT_SPREAD',
                                 'INLINE_FRAGMENT'],
        'args': [{'name': 'if', 'defaultValue': None, 'type': b}]})
        for n in ('skip', 'include')], R_TYPES, 'directive')


def roots(w, fields, mfields=None):
    out = [w.descr('Query', fields)]
    if w.mut:
        out.append(w.descr('Mutation', fields if mfields is None
                           else mfields))
    return out


def types(s, kind, mut, t):
    """a field, an option of each kind of type"""
    w = G(s, kind, mut, brief=True)
    T = TYPES[t]
    w.use(T)
    ty = lambda: w.type_(T)
    inp = ref(T, True)

    def members(fn, nxt):
        o = lambda: s.list(
            w.option('o', ty()),
            w.option('d', ty(), default=NONE),
            w.option('i', w.type_('Integer'), default=Const(3)))
        return [w.field('f', fn, ty()), w.field('g', fn, ty(), options=o()),
                w.link('l', 'many', nxt, fn, options=o())]

    def expected(nxt):
        a = lambda: [w.adescr('o', inp), w.adescr('d', inp, 'null'),
                     w.adescr('i', ref('Integer'), '3')]
        return [w.fdescr('f', ref(T)), w.fdescr('g', ref(T), args=a()),
                w.fdescr('l', ref(('seq', ('ref', nxt))), args=a())]
    items = [w.node('n', *members(w.nld, 'n')),
             w.root(*members(w.ld, 'n'))]
    data = w.run(TYPES_ONLY, items)
    if data is None:
        return
    schema(w, data, [w.descr('n', expected('n'))] + roots(w, expected('n')))


def by_name(s, kind, mut, name, op):
    w = G(s, kind, mut)
    i = w.type_('Integer')
    items = [w.node('n', w.field('f', w.nld, i),
                    w.field('_hidden', w.nld, i)),
             w.node('n2', w.field('f2', w.nld)),
             w.root(w.field('r', w.ld, i, options=s.list(
                 w.option('o', i, default=Const(1)))),
                 w.link('l', 'one', 'n', w.ld))]
    mitems = items[:2] + [w.root(w.field('m', w.ld, w.type_('String')))]
    data = w.run(op + BY_NAME % ('', name, REF, REF), items, mitems)
    if data is None:
        return
    plain = lambda n, t, args=(): {'name': n, 'args': list(args),
                                   'type': full(ref(t))}
    want = {
        'n': [plain('f', 'Integer')],
        'Query': [plain('r', 'Integer', [
            {'name': 'o', 'defaultValue': '1',
             'type': full(ref('Integer'))}]), plain('l', ('ref', 'n'))],
    }
    if mut:
        want['Mutation'] = [plain('m', 'String')]
    got = s.item(data, Const('__type'))
    if name not in want:
        s.same(got, NONE, R_BY_NAME, '__type of an unknown name')
        return
    s.same(got, value(s, {'kind': 'OBJECT', 'name': name,
                          'description': None, 'fields': want[name]}),
           R_BY_NAME, '__type of %s' % name)


def whole(s, kind, mut, what):
    w = G(s, kind, mut, DATA if what == 'empty' else ())
    i = w.type_('Integer')
    mr = [w.field('mf', w.ld, i)]
    me = [w.fdescr('mf', ref('Integer'))]
    if what == 'empty':
        items = [w.root(w.field('f', w.ld, i))]
        exp = []
        q = [w.fdescr('f', ref('Integer'))]
    elif what == 'private':
        items = [w.node('n', w.field('_p', w.nld, i), w.field('a', w.nld, i),
                        w.link('_l', 'one', 'n', w.nld),
                        w.field('__q', w.nld), w.field('b_', w.nld, i)),
                 w.root(w.field('_r', w.ld, i), w.field('s', w.ld, i),
                        w.link('_t', 'one', 'n', w.ld))]
        exp = [w.descr('n', [w.fdescr('a', ref('Integer')),
                             w.fdescr('b_', ref('Integer'))])]
        q = [w.fdescr('s', ref('Integer'))]
    elif what == 'several roots':
        items = [w.root(w.field('s', w.ld, i)), w.node('n', w.field(
            'a', w.nld, i)), w.root(w.field('t', w.ld), w.link(
                'l', 'one', 'n', w.ld)), w.root(w.field('u', w.ld, i))]
        exp = [w.descr('n', [w.fdescr('a', ref('Integer'))])]
        q = [w.fdescr('s', ref('Integer')), w.fdescr('t', ref(None)),
             w.fdescr('l', ref(('ref', 'n'))),
             w.fdescr('u', ref('Integer'))]
    elif what == 'links':
        cards = {'one': ('ref', 'm'), 'maybe': ('opt', ('ref', 'm')),
                 'many': ('seq', ('ref', 'm'))}
        items = [w.node('n', *[w.link(k, k, 'm', w.nld) for k in cards]),
                 w.node('m', w.field('a', w.nld),
                        w.link('back', 'many', 'n', w.nld, requires='a')),
                 w.root(*[w.link(k, k, 'm', w.ld) for k in cards])]
        q = [w.fdescr(k, ref(t)) for k, t in cards.items()]
        exp = [w.descr('n', q), w.descr('m', [
            w.fdescr('a', ref(None)),
            w.fdescr('back', ref(('seq', ('ref', 'n'))))])]
    elif what == 'options':
        o = lambda: s.list(*[w.option('o_' + k, NONE, default=value(s, v))
                             for k, (v, _) in DEFAULTS.items()],
                           w.option('req', i), w.option('unt'))
        e = [w.adescr('o_' + k, ref(None), v)
             for k, (_, v) in DEFAULTS.items()]
        e += [w.adescr('req', ref('Integer')), w.adescr('unt', ref(None))]
        mem = lambda f: [w.field('f', f, i, options=o()),
                         w.link('l', 'one', 'n', f, options=o()),
                         w.field('z', f, i)]
        items = [w.node('n', *mem(w.nld)), w.root(*mem(w.ld))]
        q = [w.fdescr('f', ref('Integer'), args=e),
             w.fdescr('l', ref(('ref', 'n')), args=e),
             w.fdescr('z', ref('Integer'))]
        exp = [w.descr('n', q)]
    elif what == 'descriptions':
        D = s.tok
        mk = lambda cl, *a, **k: s.mk('hiku.graph:' + cl, *a, **k)
        op = lambda t: s.list(mk('Option', Const('o'), i,
                                 description=D('do', Const(t))))
        mem = lambda t, f: [
            mk('Field', Const('f'), i, f, options=op(t),
               description=D('df', Const(t))),
            mk('Link', Const('l'), w.linktype('one', 'n'), f, requires=NONE,
               options=op(t), description=D('dl', Const(t)))]
        more = lambda f: [w.field('f2', f, i, options=s.list(
            w.option('o', i))), w.link('l2', 'one', 'n', f)]
        items = [mk('Node', Const('n'), s.list(*(mem('n', w.nld)
                                                 + more(w.nld))),
                    description=D('dn')),
                 w.root(*(mem('r', w.ld) + more(w.ld)))]
        ex = lambda t: [
            w.fdescr(n, ty, D(d, Const(t)), [w.adescr(
                'o', ref('Integer'), descr=D('do', Const(t)))])
            for n, ty, d in (('f', ref('Integer'), 'df'),
                             ('l', ref(('ref', 'n')), 'dl'))] + [
            w.fdescr('f2', ref('Integer'), args=[w.adescr(
                'o', ref('Integer'))]), w.fdescr('l2', ref(('ref', 'n')))]
        exp = [w.descr('n', ex('n'), D('dn'))]
        q = ex('r')
    elif what == 'same names':
        # the same names in several nodes, everything else different
        D = s.tok
        mk = lambda cl, *a, **k: s.mk('hiku.graph:' + cl, *a, **k)
        K = {'n': ('Integer', 'one', 'n', 'String', 1),
             'm': (('opt', 'String'), 'many', 'n', ('seq', 'Integer'), None),
             'k': (None, 'maybe', 'm', ('opt', 'Float'), 'x'),
             'r': (('seq', 'Boolean'), 'one', 'k', None, [2])}
        card = {'one': lambda n: ('ref', n),
                'maybe': lambda n: ('opt', ('ref', n)),
                'many': lambda n: ('seq', ('ref', n))}

        def mem(t, f):
            ty, cd, to, oty, df = K[t]
            o = lambda: s.list(
                mk('Option', Const('o'), w.type_(oty) if oty else NONE,
                   description=D('do', Const(t)), default=value(s, df)))
            return [mk('Field', Const('f'), w.type_(ty) if ty else NONE, f,
                       options=o(), description=D('df', Const(t))),
                    mk('Link', Const('l'), w.linktype(cd, to), f,
                       requires=NONE, options=o(),
                       description=D('dl', Const(t)))]

        def ex(t):
            ty, cd, to, oty, df = K[t]
            a = lambda: [w.adescr('o', ref(oty), {
                1: '1', None: 'null', 'x': '"x"'}.get(df, '[2]')
                if not isinstance(df, list) else '[2]',
                D('do', Const(t)))]
            return [w.fdescr('f', ref(ty), D('df', Const(t)), a()),
                    w.fdescr('l', ref(card[cd](to)), D('dl', Const(t)),
                             a())]
        items = [mk('Node', Const(n), s.list(*mem(n, w.nld)))
                 for n in 'nmk'] + [w.root(*mem('r', w.ld))]
        exp = [w.descr(n, ex(n)) for n in 'nmk']
        q = ex('r')
    named = [x for x in items if s.attr(x, 'name') != NONE]
    if what == 'several roots':
        mr = [w.field('mf', w.ld, i)]
        mitems = named + [w.root(*mr), w.root(w.field('mg', w.ld, i))]
        me.append(w.fdescr('mg', ref('Integer')))
    else:
        mitems = named + [w.root(*mr)]
    data = w.run(FULL, items, mitems)
    if data is not None:
        schema(w, data, exp + roots(w, q, me))


def anynumber(s, kind, mut, cat, where):
    w = G(s, kind, mut)
    i = w.type_('Integer')

    def members(f):
        out = []
        if cat == 'options':
            return [w.field('z', f, w.type_(('opt', 'Integer')),
                            options=s.list(s.star('O', lambda x: w.option(
                                s.name_('o', x), i))))]
        if 'fields' in cat:
            out.append(s.star('F', lambda x: w.field(s.name_('f', x), f, i)))
        if 'links' in cat:
            out.append(s.star('L', lambda x: w.link(s.name_('l', x), 'many',
                                                    'n', f)))
        return out + [w.field('z', f, i)]
    z = w.field('zz', w.nld, i)
    items = [w.node('n', *(members(w.nld) if where == 'n' else [z])),
             w.root(*(members(w.ld) if where != 'n' else
                      [w.field('zz', w.ld, i)]))]
    want = []
    inp = value(s, full(ref('Integer'), 3))
    if cat == 'options':
        want.append(value(s, {'name': 'z', 'args': [
            s.star('O', lambda x: value(s, {'name': s.name_('o', x),
                                            'type': inp}))],
            'type': full(ref(('opt', 'Integer')), 3)}))
    else:
        d = lambda n, t: value(s, {'name': n, 'args': [], 'type': full(
            ref(t), 3)})
        if 'fields' in cat:
            want.append(s.star('F', lambda x: d(s.name_('f', x), 'Integer')))
        if 'links' in cat:
            want.append(s.star('L', lambda x: d(s.name_('l', x), (
                'seq', ('ref', 'n')))))
        want.append(d('z', 'Integer'))
    r2 = 'kind name ' + 'ofType { kind name ' * 3 + '}' * 3
    data = w.run('{ __type(name: "%s") { name fields { name '
                 'args { name type { %s } } type { %s } } } }'
                 % (where, r2, r2), items)
    if data is None:
        return
    got = s.item(data, Const('__type'))
    s.same(got, value(s, {'name': where, 'fields': s.list(*want)}), R_FIELDS,
           '__type of %s' % where)
