"""Every kind of type is handled by every component which branches on types."""
from hikustat.values import *   # noqa
from hikustat import gql, models as M
from hikustat.driver import describe_exc
from hikustat.qspec import value
from hikustat.world import nm
from checks.c15 import W15

R_DISP = 'C30.dispatch'
R_DOC = 'C30.schema_documentation'
R_COMPLEX = 'C30.complex_fields'
R_OPT = 'C30.option_validation'
R_INTRO = 'C30.introspection'
R_CHECK = 'C30.expression_types'
R_REQ = 'C30.requirements'

INLINE = ('rec', {'i': 'Integer', 's': ('opt', 'String')})
DATA = {
    'Sc': 'Integer', 'Rc': INLINE, 'Sq': ('seq', ('ref', 'Rc')),
    'Op': ('opt', ('ref', 'Rc')), 'Al': ('ref', 'Rc'),
    'Ma': ('map', 'String', ('ref', 'Sc')), 'Ls': ('seq', 'Float'),
    'Nr': ('rec', {'r': ('ref', 'Rc'), 'rs': ('seq', ('ref', 'Rc')),
                   'm': ('map', 'Integer', 'Boolean'), 'f': 'Float'}),
}
BASE = ['Any', 'Boolean', 'String', 'Integer', 'Float', INLINE] + [
    ('ref', n) for n in DATA]


def up(ts):
    out = []
    for t in ts:
        out += [('opt', t), ('seq', t), ('map', 'String', t)]
    return out


D1 = up(BASE) + [('map', 'Integer', 'Any'), ('map', ('ref', 'Sc'), 'Float'),
                 ('rec', {'a': ('seq', INLINE), 'b': 'Float',
                          'c': ('map', 'String', INLINE), 'd': 'Any'}),
                 ('rec', {'x': INLINE})]
SOME = ['Any', 'Float', INLINE, ('ref', 'Rc'), ('ref', 'Sq'), ('ref', 'Op')]
D2 = [x for x in up(up(SOME)) if x[:2] != ('opt', ('opt', 'Any'))]
TYPES = BASE + D1 + D2


def label(t):
    if isinstance(t, str):
        return t
    k = {'opt': 'Optional', 'seq': 'Sequence', 'map': 'Mapping',
         'rec': 'Record'}.get(t[0])
    if t[0] == 'ref':
        return t[1]
    if t[0] == 'rec':
        return 'Record[%s]' % ', '.join(
            '%s: %s' % (n, label(x)) for n, x in t[1].items())
    return '%s[%s]' % (k, ', '.join(label(x) for x in t[1:]))


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run(c):
    c.rule(R_DISP, 'each kind of type is given to the handler of its kind, '
           'with the type itself; element types are visited, in order')
    c.rule(R_DOC, 'the schema documentation describes every type')
    c.rule(R_COMPLEX, 'selections are accepted exactly for fields whose type '
           'is a record, possibly optional, in a sequence, or named')
    c.rule(R_OPT, 'option values of every type are accepted when they '
           'conform, reported when they do not')
    c.rule(R_INTRO, 'introspection describes every type')
    c.rule(R_CHECK, 'an argument is accepted exactly when its type fits '
           'the declared one')
    c.rule(R_REQ, 'an expression of a field of any type requests this field '
           'and gets its value')
    c.scenario('accept', accept, R_DISP)
    c.scenario('visitor', visitor, R_DISP)
    c.scenario('constructors', constructors, R_DISP)
    for i, ts in enumerate(chunks(TYPES, 12)):
        for where in ('root', 'node', 'data'):
            c.scenario('documentation: %s %d' % (where, i), lambda s, a=(
                ts, where): documentation(s, *a), R_DOC)
        c.scenario('complex fields %d' % i, lambda s, a=ts: complex_(s, a),
                   R_COMPLEX)
        c.scenario('options %d' % i, lambda s, a=ts: options(s, a), R_OPT)
        c.scenario('introspection %d' % i, lambda s, a=ts: intro(s, a),
                   R_INTRO, cost=2)
        c.scenario('expression types %d' % i, lambda s, a=ts: checks(s, a),
                   R_CHECK, cost=3)
        c.scenario('requirements %d' % i, lambda s, a=ts: reqs(s, a), R_REQ,
                   cost=3)
    c.scenario('expression types: records', lambda s: checks(s, RECS),
               R_CHECK, cost=3)
    for how in ('links', 'descriptions', 'untyped'):
        c.scenario('documentation: %s' % how, lambda s, a=how: doc_of(s, a),
                   R_DOC)


class W30(W15):
    def __init__(self, s):
        super().__init__(s)
        self.made = {}

    def t(self, spec):
        k = label(spec) if spec is not None else None
        if k not in self.made:
            self.made[k] = self.type_(spec)
        return self.made[k]

    def data(self):
        return self.s.dict(**{n: self.t(x) for n, x in DATA.items()})


def resolve(t):
    while t[0] == 'ref':
        t = DATA[t[1]]
    return t


# --- dispatch
KINDS = {
    'any': 'Any', 'boolean': 'Boolean', 'string': 'String',
    'integer': 'Integer', 'float': 'Float', 'optional': ('opt', 'Integer'),
    'sequence': ('seq', 'Integer'), 'mapping': ('map', 'String', 'Integer'),
    'record': INLINE, 'typeref': ('ref', 'Rc'),
}
METHODS = list(KINDS) + ['callable', 'typedef']


def callable_(w, *types):
    s = w.s
    return s.item(s.get('hiku.types:Callable'), s.list(
        *[w.t(x) for x in types]))


def accept(s):
    w = W30(s)
    seen = []

    def method(kind):
        def visit(args, kw):
            seen.append((kind, args[0]))
            return Const('result of ' + kind)
        return s.stub(visit)
    v = s.stub(None, attrs={'visit_' + k: method(k) for k in METHODS})
    types = [(k, w.t(t)) for k, t in KINDS.items()]
    types.append(('callable', callable_(w, 'Integer', 'Any')))
    types.append(('typedef', M.getitem(w.I, s.get('hiku.typedef.types:'
                                                  'TypeDef'), Tup([
        Const('n'), w.t('Integer')]))))
    for kind, t in types:
        del seen[:]
        exc, r = s.raises(lambda: s.meth(t, 'accept', v))
        s.ok(exc is None and [k for k, _ in seen] == [kind], R_DISP,
             'a %s is given to %s' % (kind, [k for k, _ in seen] if exc is
                                      None else s.I.exc_name(exc)))
        if exc is None:
            s.ok(s.same3(r, Const('result of ' + kind)), R_DISP,
                 'accept of a %s does not return what its handler returns'
                 % kind)
        for _, x in seen:
            s.ok(x == t, R_DISP, 'the handler of a %s gets another type'
                 % kind)


def leaves(t):
    """kinds of types, in the order of a visitor"""
    if isinstance(t, str):
        return [t]
    if t[0] == 'ref':
        return [t[1]]
    if t[0] == 'rec':
        return sum((leaves(x) for x in t[1].values()), [])
    return sum((leaves(x) for x in t[1:]), [])


def visitor(s):
    w = W30(s)
    seen = []
    mk = s.code('''
def mk(Base, seen):
    class V(Base):
        def visit_any(self, obj):
            seen('Any')
        def visit_boolean(self, obj):
            seen('Boolean')
        def visit_string(self, obj):
            seen('String')
        def visit_integer(self, obj):
            seen('Integer')
        def visit_float(self, obj):
            seen('Float')
        def visit_typeref(self, obj):
            seen(obj.__type_name__)
    return V()
''', 'mk')
    v = s.call(mk, s.get('hiku.types:TypeVisitor'), s.stub(
        lambda a, k: (seen.append(w.I.resolve(a[0]).v), NONE)[1]))
    types = [(label(t), w.t(t), leaves(t)) for t in TYPES]
    types.append(('Callable', callable_(w, 'Integer', 'Any', INLINE),
                  ['Integer', 'Any'] + leaves(INLINE)))
    for name, t, want in types:
        del seen[:]
        exc, r = s.raises(lambda: s.meth(v, 'visit', t))
        s.ok(exc is None and seen == want, R_DISP, 'the visitor of %s visits '
             '%s instead of %s' % (name, seen if exc is None else
                                   s.I.exc_name(exc), want))


def constructors(s):
    """element types are kept; names stand for references"""
    w = W30(s)
    T = lambda n: s.get('hiku.types:' + n)
    for n, attrs in (('Sequence', ['__item_type__']),
                     ('Optional', ['__type__'])):
        for t in ('Integer', INLINE, ('ref', 'Rc')):
            x = s.item(T(n), w.t(t))
            s.same(s.attr(x, attrs[0]), w.t(t), R_DISP, 'element type of ' + n)
        x = s.item(T(n), Const('name'))
        s.same(s.attr(s.attr(x, attrs[0]), '__type_name__'), Const('name'),
               R_DISP, 'the name in ' + n)
        exc, r = s.raises(lambda: s.item(x, w.t('Integer')))
        s.ok(exc is not None and s.is_exc(exc, 'TypeError'), R_DISP,
             '%s accepts parameters twice' % n)
    x = M.getitem(w.I, T('Mapping'), Tup([Const('a'), w.t('Float')]))
    s.same(s.attr(s.attr(x, '__key_type__'), '__type_name__'), Const('a'),
           R_DISP, 'the key type of Mapping')
    s.same(s.attr(x, '__value_type__'), w.t('Float'), R_DISP,
           'the value type of Mapping')


# --- schema documentation
CONT = ('opt', 'seq', 'map', 'rec')
LINE = {'Any': 'Unknown', 'Float': 'Unknown'}


class Doc:
    def __init__(self):
        self.lines = []
        self.notes = {}

    def arg(self, t, depth, note=None):
        if note is not None:
            self.notes[len(self.lines) - 1] = note
        if isinstance(t, tuple) and t[0] in CONT:
            self.put(t, depth + 1)
        else:
            self.lines[-1] += ' ' + (t[1] if isinstance(t, tuple)
                                     else LINE.get(t, t))

    def put(self, t, depth):
        say = lambda x, d=0: self.lines.append('  ' * (depth + d) + x)
        if t[0] == 'rec':
            say('Record')
            for n, x in t[1].items():
                note = None
                if isinstance(x, Noted):
                    x, note = x.type, x.note
                say(':' + n, 1)
                self.arg(x, depth + 1, note)
        else:
            say({'opt': 'Option', 'seq': 'List', 'map': 'Dict'}[t[0]])
            for x in t[1:]:
                self.arg(x, depth)

    def text(self, defs):
        for i, (n, t) in enumerate(defs):
            note = None
            if isinstance(t, Noted):
                t, note = t.type, t.note
            if i:
                self.lines.append('')
            self.lines.append('type ' + n)
            self.arg(t, 0, note)
        return '\n'.join(x + ('  ; ' + self.notes[i] if i in self.notes
                              else '') for i, x in enumerate(
                                  self.lines)) + '\n'


class Noted:
    def __init__(self, type_, note):
        self.type = type_
        self.note = note


def dumped(s, w, items, data, want):
    g = w.graph(*items, data_types=data)
    exc, r = s.raises(lambda: s.mk('hiku.typedef.kinko:dumps', g))
    if not s.ok(exc is None, R_DOC, 'the documentation raises %s' % (
            exc and describe_exc(s.I, s.last_raise))):
        return
    r = s.I.resolve(r)
    want = Doc().text(want)
    if not isinstance(r, Const):
        s.unknown('the text of the documentation')
        return
    if r.v == want:
        s.checked += 1
        return
    for n, (a, b) in enumerate(zip(r.v.split('\n'), want.split('\n'))):
        if a != b:
            s.ok(False, R_DOC, 'line %d of the documentation is %r instead '
                 'of %r' % (n + 1, a, b))
            return
    s.ok(False, R_DOC, 'the documentation has %d lines instead of %d' % (
        len(r.v.split('\n')), len(want.split('\n'))))


def documentation(s, types, where):
    w = W30(s)
    fn = s.stub(lambda a, k: NONE)
    named = {'f%d' % i: t for i, t in enumerate(types)}
    shown = {n: t for n, t in named.items() if t != 'Any'}
    rest = {'z': 'Integer'}
    if where == 'data':
        dumped(s, w, [w.root(w.field('z', fn, w.t('Integer')))], s.dict(
            **{n: w.t(t) for n, t in named.items()}),
            list(shown.items()) + list(rest.items()))
        return
    fields = [w.field(n, fn, w.t(t)) for n, t in named.items()]
    if where == 'root':
        items = [w.node('n', w.field('z', fn, w.t('Integer'))),
                 w.root(*fields)]
        want = [('n', ('rec', rest))] + list(shown.items())
    else:
        items = [w.root(w.field('z', fn, w.t('Integer'))),
                 w.node('n', *fields)]
        want = [('n', ('rec', shown))] + list(rest.items())
    dumped(s, w, items, w.data(), list(DATA.items()) + want)


def doc_of(s, how):
    w = W30(s)
    fn = s.stub(lambda a, k: NONE)
    I = w.t('Integer')
    if how == 'links':
        links = lambda: [w.link('l' + c, c, 'n', fn, None)
                         for c in ('one', 'maybe', 'many')]
        types = {'lone': ('ref', 'n'), 'lmaybe': ('opt', ('ref', 'n')),
                 'lmany': ('seq', ('ref', 'n'))}
        dumped(s, w, [w.node('n', w.field('z', fn, I), *links()),
                      w.root(*links())], s.dict(),
               [('n', ('rec', dict(z='Integer', **types)))] + list(
                   types.items()))
    elif how == 'untyped':
        dumped(s, w, [w.node('n', w.field('a', fn), w.field('b', fn, I),
                             w.field('c', fn, w.t('Any'))),
                      w.root(w.field('d', fn), w.field('e', fn, I))],
               w.data(), list(DATA.items()) + [
                   ('n', ('rec', {'b': 'Integer'})), ('e', 'Integer')])
    else:
        G = 'hiku.graph:'
        field = lambda n, t: s.mk(G + 'Field', Const(n), w.t(t), fn,
                                  description=Const('about ' + n))
        link = s.mk(G + 'Link', Const('l'), s.item(
            s.get('hiku.types:Sequence'), w.typeref('n')), fn,
            requires=NONE, description=Const('about l'))
        types = {'b': ('seq', INLINE), 'c': 'Float', 'd': ('opt', 'String'),
                 'e': ('map', 'String', ('seq', 'Integer')), 'f': INLINE}
        fields = [field(n, t) for n, t in types.items()]
        node = s.mk(G + 'Node', Const('n'), s.list(
            w.field('a', fn, I), *fields, link),
            description=Const('about n'))
        noted = {n: Noted(t, 'about ' + n) for n, t in types.items()}
        noted['l'] = Noted(('seq', ('ref', 'n')), 'about l')
        want = [('n', Noted(('rec', dict(a='Integer', **noted)),
                            'about n'))] + list(noted.items())
        dumped(s, w, [node, w.root(*fields, link)], s.dict(), want)


# --- complex fields
def assumed(t, nested=False):
    if t[0] == 'ref':
        return assumed(DATA[t[1]], nested)
    if t[0] == 'rec':
        return t[1]
    if t[0] in ('opt', 'seq') and not nested:
        return assumed(t[1], True)
    return None


def complex_(s, types):
    w = W30(s)
    fn = s.stub(lambda a, k: NONE)
    fields = [w.field('f%d' % i, fn, w.t(t)) for i, t in enumerate(types)]
    g = w.graph(w.node('n', *fields), w.root(
        w.field('z', fn), w.link('l', 'many', 'n', fn, None), *fields),
        data_types=w.data())
    val = s.get('hiku.validate.query:validate')

    def errors(sel):
        out = []
        for q in (w.qn(sel), w.qn(w.ql('l', w.qn(sel)))):
            exc, r = s.raises(lambda: s.call(val, g, q))
            if exc is not None:
                s.ok(False, R_COMPLEX, 'validation raised %s' % describe_exc(
                    s.I, s.last_raise))
                return None
            out.append(len(M.segs_of(w.I, r)))
        return out
    for i, t in enumerate(types):
        rec = assumed(t)
        name = 'f%d' % i
        if rec is None and record_inside(t):
            # records the engine can not select from: not decided here
            continue
        sel = [w.qf(n) if assumed(x) is None else w.ql(n, w.qn(*[
            w.qf(m) for m, y in assumed(x).items() if assumed(y) is None]))
            for n, x in (rec or {'i': 'Integer'}).items()]
        got = errors(w.ql(name, w.qn(*sel)))
        s.ok(got is not None and (all(n == 0 for n in got) if rec
             is not None else all(got)), R_COMPLEX,
             'a selection of a field of type %s is %s: %s' % (
                 label(t), 'reported' if rec else 'accepted', got))
        if rec is not None:
            got = errors(w.ql(name, w.qn(w.qf('nope'))))
            s.ok(got is not None and all(got), R_COMPLEX, 'an unknown field '
                 'of a field of type %s is not reported' % label(t))
        else:
            got = errors(w.qf(name))
            s.ok(got is not None and not any(got), R_COMPLEX,
                 'a field of type %s is reported' % label(t))


def record_inside(t):
    if isinstance(t, str):
        return False
    if t[0] == 'rec':
        return True
    if t[0] == 'ref':
        return record_inside(DATA[t[1]])
    return any(record_inside(x) for x in t[1:])


# --- options
def good(t, n=0):
    if isinstance(t, str):
        return {'Any': 'x', 'Boolean': True, 'String': 's', 'Integer': 7,
                'Float': 1.5}[t]
    if t[0] == 'ref':
        return good(DATA[t[1]], n)
    if t[0] == 'rec':
        return {k: good(x, n) for k, x in t[1].items()}
    if t[0] == 'opt':
        return good(t[1], n) if n == 0 else None
    if t[0] == 'seq':
        return [good(t[1], n), good(t[1])] if n < 2 else []
    return {good(t[1]): good(t[2], n)} if n < 2 else {}


NO = object()


def bad(t):
    """values which do not conform"""
    if isinstance(t, str):
        return {'Any': [], 'Boolean': ['s', 1, None], 'String': [7, None],
                'Integer': ['s', 1.5, True, None], 'Float': ['s', None]}[t]
    if t[0] == 'ref':
        return bad(DATA[t[1]])
    if t[0] == 'rec':
        out = ['s', [], None]
        for k, x in t[1].items():
            out += [dict(good(t), **{k: y}) for y in bad(x)[:2]]
        return out
    if t[0] == 'opt':
        return [x for x in bad(t[1]) if x is not None]
    if t[0] == 'seq':
        return ['s', 7, None, {}] + [[good(t[1]), x] for x in bad(t[1])[:3]]
    return ['s', 7, None, []] + [{good(t[1]): x} for x in bad(t[2])[:3]] + [
        {x: good(t[2])} for x in bad(t[1])[:1]]


def options(s, types):
    w = W30(s)
    fn = s.stub(lambda a, k: NONE)
    val = s.get('hiku.validate.query:validate')
    g = w.graph(w.root(*[w.field('f%d' % i, fn, options=s.list(
        w.option('o', w.t(t)))) for i, t in enumerate(types)]),
        data_types=w.data())
    for i, t in enumerate(types):
        for vs, ok in (([good(t), good(t, 1), good(t, 2)], True),
                       (bad(t), False)):
            for v in vs:
                q = w.qn(w.qf('f%d' % i, value(s, {'o': v})))
                exc, r = s.raises(lambda: s.call(val, g, q))
                if not s.ok(exc is None, R_OPT, 'validation of %r as %s '
                            'raised %s' % (v, label(t), exc and describe_exc(
                                s.I, s.last_raise))):
                    continue
                s.ok((len(M.segs_of(w.I, r)) == 0) == ok, R_OPT,
                     '%r as %s is %s' % (v, label(t), 'reported' if ok
                                         else 'accepted'))


# --- introspection
SCALARS = {'Integer': 'Int', 'String': 'String', 'Float': 'Float',
           'Boolean': 'Boolean'}


def ident(t, inp):
    if t == 'Any' or t[0] in ('map', 'rec'):
        return ('SCALAR', 'Any')
    if isinstance(t, str):
        return ('NON_NULL', ('SCALAR', SCALARS[t]))
    if t[0] == 'opt':
        r = ident(t[1], inp)
        return r[1] if r[0] == 'NON_NULL' else r
    if t[0] == 'seq':
        return ('NON_NULL', ('LIST', ident(t[1], inp)))
    if DATA[t[1]][0] != 'rec':
        return ident(DATA[t[1]], inp)
    return ('NON_NULL', ('INPUT_OBJECT', 'IO' + t[1]) if inp
            else ('OBJECT', t[1]))


def intro(s, types):
    gql.install(s)
    w = W30(s)
    fn = s.stub(lambda a, k: NONE)
    g = w.graph(w.root(*[w.field('f%d' % i, fn, w.t(t), options=s.list(
        w.option('o', w.t(t)))) for i, t in enumerate(types)]),
        data_types=w.data())
    ep = s.mk('hiku.endpoint.graphql:GraphQLEndpoint',
              s.mk('hiku.engine:Engine', w.sync()), g)
    ref = 'kind name ' + 'ofType { kind name ' * 7 + '}' * 7
    doc = ('{ __type(name: "Query") { fields { name type { %s } '
           'args { name type { %s } } } } }' % (ref, ref))
    exc, r = s.raises(lambda: s.meth(ep, 'dispatch', value(
        s, {'query': doc})))
    if not s.ok(exc is None and M.contains(w.I, r, Const('data')), R_INTRO,
                'introspection gives %s' % (describe_exc(
                    s.I, s.last_raise) if exc is not None else s.show(r))):
        return
    fields = {w.I.resolve(s.item(f, Const('name'))).v: f for f in M.segs_of(
        w.I, s.item(s.item(s.item(r, Const('data')), Const('__type')),
                    Const('fields')))}

    def read(x):
        k = w.I.resolve(s.item(x, Const('kind'))).v
        if k in ('NON_NULL', 'LIST'):
            return (k, read(s.item(x, Const('ofType'))))
        return (k, w.I.resolve(s.item(x, Const('name'))).v)
    for i, t in enumerate(types):
        f = fields.get('f%d' % i)
        if not s.ok(f is not None, R_INTRO, 'a field of type %s is not '
                    'described' % label(t)):
            continue
        got = read(s.item(f, Const('type')))
        s.ok(got == ident(t, False), R_INTRO, '%s is described as %s instead '
             'of %s' % (label(t), got, ident(t, False)))
        for a in M.segs_of(w.I, s.item(f, Const('args'))):
            got = read(s.item(a, Const('type')))
            s.ok(got == ident(t, True), R_INTRO, 'the option of type %s is '
                 'described as %s instead of %s' % (
                     label(t), got, ident(t, True)))


# --- expressions
def fits(t1, t2):
    t1, t2 = resolve(t1), resolve(t2)
    if t2 == 'Any':
        return True
    k1, k2 = [x if isinstance(x, str) else x[0] for x in (t1, t2)]
    if k1 == k2:
        if k1 in ('opt', 'seq', 'map'):
            return all(fits(a, b) for a, b in zip(t1[1:], t2[1:]))
        if k1 == 'rec':
            return all(n in t1[1] and fits(t1[1][n], x)
                       for n, x in t2[1].items())
        return True
    return k2 == 'opt' and fits(t1, t2[1])


RECS = [('rec', x) for x in (
    {}, {'i': 'Any'}, {'i': 'Integer'}, {'i': 'String'},
    {'i': ('opt', 'Integer')}, {'i': ('opt', 'String')},
    {'i': ('opt', 'Any')}, {'s': ('opt', 'String')}, {'i': ('ref', 'Sc')},
    {'i': ('seq', 'Integer')}, {'i': ('seq', ('opt', 'Integer'))},
    {'i': 'Integer', 's': 'String'}, {'s': 'String', 'i': 'Integer'},
    {'i': 'Integer', 's': 'String', 'x': 'Any'},
    {'i': INLINE}, {'i': ('rec', {'i': 'Integer'})}, {'i': ('ref', 'Rc')},
    {'i': ('rec', {'i': 'String'})}, {'i': ('opt', ('ref', 'Rc'))},
    {'i': ('opt', ('rec', {'i': 'String'}))},
    {'i': ('map', 'String', 'Integer')}, {'i': ('map', 'String', 'Any')},
)]


def checks(s, types):
    w = W30(s)
    check = s.get('hiku.expr.checker:check_type')
    data = w.data()
    others = BASE + D1[::2] + D2[::9] if types is not RECS else RECS + [
        (k, x) for k in ('opt', 'seq') for x in RECS[::2]]
    for t2 in types:
        for t1 in others:
            for a, b in ((t1, t2), (t2, t1)) if t1 != t2 else ((t1, t2),):
                exc, r = s.raises(lambda: s.call(check, data, w.t(a),
                                                 w.t(b)))
                got = exc is None
                s.ok(got or s.is_exc(exc, 'TypeError'), R_CHECK, 'checking '
                     '%s against %s raised %s' % (
                         label(a), label(b), exc and describe_exc(
                             s.I, s.last_raise)))
                s.ok(got == fits(a, b), R_CHECK, 'an argument of type %s is '
                     '%s as %s' % (label(a), 'accepted' if got
                                   else 'rejected', label(b)))


def reqs(s, types):
    """fields of a sub-graph which are fields of a node of any type"""
    w = W30(s)
    asked = []

    def low(args, kw):
        names = [w.I.resolve(s.attr(f, 'name')).v
                 for f in M.segs_of(w.I, args[0])]
        asked.extend(names)
        return s.list(*[s.list(*[value(s, good(types[int(n[1:])]))
                                 for n in names])
                        for _ in M.segs_of(w.I, args[1])])
    ld = s.stub(low)
    lg = w.graph(w.node('t', *[w.field('f%d' % i, ld, w.t(t))
                               for i, t in enumerate(types)]),
                 data_types=w.data())
    sg = s.mk('hiku.sources.graph:SubGraph', lg, Const('t'))
    link = s.stub(lambda a, k: s.list(Const('i1'), Const('i2')))
    S = s.get('hiku.expr.core:S')
    each = s.get('hiku.expr.core:each')
    for i, t in enumerate(types):
        n = 'f%d' % i
        exprs = {'a field': sg}
        if resolve(t)[0] == 'seq':
            exprs['each'] = s.meth(sg, 'c', s.call(each, s.attr(S, 'x'),
                                   s.attr(s.attr(S, 'this'), n),
                                   s.attr(S, 'x')))
        exprs['a list'] = s.meth(sg, 'c', s.list(s.attr(s.attr(
            S, 'this'), n)))
        for how, e in exprs.items():
            if record_inside(t) and assumed(t) is None:
                continue
            del asked[:]

            def go():
                g = w.graph(w.node('h', w.field(n, e)), w.root(
                    w.link('l', 'many', 'h', link, None)))
                q = w.qn(w.ql('l', w.qn(w.qf(n))))
                return w.execute(g, q, w.sync())
            exc, r = s.raises(go)
            if not s.ok(exc is None, R_REQ, '%s of type %s: raised %s' % (
                    how, label(t), exc and describe_exc(s.I, s.last_raise))):
                continue
            s.ok(asked == [n], R_REQ, '%s of type %s requests %s' % (
                how, label(t), asked))
            if assumed(t) is not None:
                continue
            v = good(t)
            want = [v] if how == 'a list' else v
            rows = w.read(r, Const('l'), R_REQ, 'the result')
            for x in M.segs_of(w.I, rows):
                got = w.read(x, Const(n), R_REQ, 'an object')
                s.ok(got is not None and s.same3(got, value(s, want)), R_REQ,
                     '%s of type %s is %s instead of %s' % (
                         how, label(t), s.show(got), want))
