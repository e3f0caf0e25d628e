"""Queries which are exported and read back are the same queries."""
import itertools

from hikustat.values import *   # noqa
from hikustat import extlib, gql, models as M
from hikustat.driver import describe_exc
from hikustat.qspec import F, L, value, selections

R_TRIP = 'C23.same_selections'
R_DUP = 'C23.not_repeated'
R_ALIAS = 'C23.aliases'
R_BUILD = 'C23.builder'

# Messages of the environment, with the presence of fields of Protocol
# Buffers; encoded messages are copies.
PB = '''
class Struct:
    def __init__(self, touch):
        self._touch = touch
        self.data = {}

    def __setitem__(self, key, value):
        self._touch()
        self.data[key] = value

    def __getitem__(self, key):
        return self.data[key]

    def __contains__(self, key):
        return key in self.data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def update(self, values):
        for key, value in values.items():
            self[key] = value

    def Clear(self):
        self._touch()
        self.data = {}

    def SetInParent(self):
        self._touch()

    def CopyFrom(self, other):
        self.Clear()
        self.data = dict(other.data)


class Field:
    def __init__(self, touch):
        self._touch = touch
        self._name = ''
        self._has_options = False
        self._options = None

    def _touch_options(self):
        self._has_options = True
        self._touch()

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, value):
        if not isinstance(value, str):
            raise TypeError('a name is not a string')
        self._touch()
        self._name = value

    @property
    def options(self):
        if self._options is None:
            self._options = Struct(self._touch_options)
        return self._options

    def HasField(self, name):
        if name != 'options':
            raise ValueError('no such field: ' + name)
        return self._has_options

    def SetInParent(self):
        self._touch()

    def CopyFrom(self, other):
        self._touch()
        self._name = other._name
        self._has_options = other._has_options
        self._options = None
        if other._options is not None:
            self.options.data = dict(other._options.data)


class Link(Field):
    def __init__(self, touch):
        Field.__init__(self, touch)
        self._has_node = False
        self._node = None

    def _touch_node(self):
        self._has_node = True
        self._touch()

    @property
    def node(self):
        if self._node is None:
            self._node = Node(self._touch_node)
        return self._node

    def HasField(self, name):
        if name == 'node':
            return self._has_node
        return Field.HasField(self, name)

    def CopyFrom(self, other):
        Field.CopyFrom(self, other)
        self._has_node = other._has_node
        self._node = None
        if other._has_node:
            self.node.CopyFrom(other.node)


class Item:
    def __init__(self, field=None, link=None):
        self._which = None
        self._field = None
        self._link = None
        if field is not None:
            self.field.CopyFrom(field)
        if link is not None:
            self.link.CopyFrom(link)

    def _touch_field(self):
        if self._which == 'link':
            self._link = None
        self._which = 'field'

    def _touch_link(self):
        if self._which == 'field':
            self._field = None
        self._which = 'link'

    @property
    def field(self):
        if self._field is None:
            self._field = Field(self._touch_field)
        return self._field

    @property
    def link(self):
        if self._link is None:
            self._link = Link(self._touch_link)
        return self._link

    def WhichOneof(self, name):
        if name != 'value':
            raise ValueError('no such oneof: ' + name)
        return self._which

    def HasField(self, name):
        if name not in ('field', 'link'):
            raise ValueError('no such field: ' + name)
        return self._which == name

    def CopyFrom(self, other):
        self._which = self._field = self._link = None
        if other._which == 'field':
            self.field.CopyFrom(other.field)
        elif other._which == 'link':
            self.link.CopyFrom(other.link)


class Items:
    def __init__(self, touch):
        self._touch = touch
        self._items = []

    def add(self, **kw):
        self._touch()
        item = Item(**kw)
        self._items.append(item)
        return item

    def append(self, item):
        self.add().CopyFrom(item)

    def extend(self, items):
        for i in items:
            self.append(i)

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


class Node:
    def __init__(self, touch=None, items=None):
        self._touch = touch or self._nothing
        self.items = Items(self._touch)
        if items is not None:
            self.items.extend(items)

    def _nothing(self):
        pass

    def SetInParent(self):
        self._touch()

    def CopyFrom(self, other):
        if other is self:
            return
        self._touch()
        del self.items._items[:]
        for i in other.items:
            self.items.append(i)

    def MergeFrom(self, other):
        for i in other.items:
            self.items.append(i)

    def SerializeToString(self):
        return Bytes(self)

    def ParseFromString(self, data):
        self.CopyFrom(data.node)


class Bytes:
    def __init__(self, node):
        self.node = Node()
        self.node.CopyFrom(node)


def from_string(data):
    node = Node()
    node.CopyFrom(data.node)
    return node


def new_field(name='', options=None):
    def touch():
        pass
    f = Field(touch)
    if name:
        f.name = name
    if options is not None:
        f.options.CopyFrom(options)
    return f


def new_link(name='', options=None, node=None):
    def touch():
        pass
    f = Link(touch)
    if name:
        f.name = name
    if options is not None:
        f.options.CopyFrom(options)
    if node is not None:
        f.node.CopyFrom(node)
    return f


def plain(value):
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def parse_dict(values, message, ignore_unknown_fields=False):
    message.Clear()
    for key, value in values.items():
        message[key] = plain(value)
    return message


def message_to_dict(message):
    return plain(dict(message.data))


class Namespace:
    def __init__(self):
        self.Node = Node
        self.Item = Item
        self.Field = new_field
        self.Link = new_link
        self.FromString = from_string
        self.ParseDict = parse_dict
        self.MessageToDict = message_to_dict
'''

OPTS = [None, {}, {'x': 's'}, {'x': 't'}, {'y': 's'},
        {'x': 's', 'y': 't', 'z': ''}, {'y': 's', 'x': 't'},
        {'x': {'k': 's', 'l': {'m': 't'}}, 'y': ['s', 't', ['u']]},
        {'x': None, 'y': True, 'z': False}, {'x': []}, {'x': {}}]
NAMES = ['a', 'name', 'on', 'query', 'fragment', 'nil', 'true', 'false',
         'null', 'type', '_', '_a', 'a1', 'A', 'aB_c', 'items', 'add',
         'options', 'node', 'field', 'link', 'e1', 'Infinity', 'if',
         'x' * 40]


def with_(x, o):
    return x[:3] + (o,) + x[4:]


def trees():
    """name -> selections"""
    out = {'a field': [F('a')], 'fields': [F('a'), F('b'), F('c')],
           'reversed': [F('c'), F('b'), F('a')]}
    for n in NAMES:
        out['field %s' % n] = [F(n)]
        out['link %s' % n] = [L(n, F(n), L(n, F(n)))]
        out['option %s' % n] = [with_(F('a'), {n: n}),
                                with_(L('b', F(n)), {n: n})]
    for i, o in enumerate(OPTS):
        out['field with options %d' % i] = [F('z'), with_(F('a'), o), F('b')]
        out['link with options %d' % i] = [
            F('z'), with_(L('a', with_(F('b'), o), F('c')), o), F('b')]
        for j, p in enumerate(OPTS[:6]):
            out['options of parent and child %d %d' % (i, j)] = [
                with_(L('a', with_(L('b', F('c')), o)), p), F('c')]
            out['different options %d %d' % (i, j)] = [
                with_(F('a'), o), with_(F('a'), p)] if o != p else [F('a')]
            out['links with different options %d %d' % (i, j)] = [
                with_(L('a', F('b')), o), with_(L('a', F('c')), p), F('d')]
    out['deep'] = [L('a', L('b', L('c', L('d', F('e')), F('f')), F('g')),
                     F('h')), F('i')]
    out['same names everywhere'] = [
        F('a'), L('b', F('a'), L('b', F('a'), L('b', F('a')))),
        L('c', L('b', F('a')), F('a'))]
    out['repeated fields'] = [F('a'), F('b'), F('a'), L('c', F('a'), F('a'))]
    out['repeated links'] = [L('a', F('b')), F('c'), L('a', F('d'), F('b'))]
    out['repeated links below'] = [
        L('a', L('b', F('c'))), L('a', L('b', F('d')), F('e')),
        L('a', L('b', L('f', F('g'))))]
    out['siblings after links'] = [
        L('a', F('b')), F('c'), L('d', F('e')), F('f'), L('g', F('h')),
        F('i')]
    out['many'] = [F('f%d' % i) for i in range(20)] + [
        L('l%d' % i, F('f%d' % i), F('x')) for i in range(12)]
    return out


def shapes():
    """short sequences of the selections of a small set"""
    items = [F('a'), F('b', o='1'), F('a', o='1'), L('c', F('a')),
             L('c', F('b'), L('d', F('a')), o='1'),
             L('d', L('c', F('a', o='2'), F('b')), F('a')),
             L('a', F('d'))]
    for n in (1, 2, 3):
        for xs in itertools.product(items, repeat=n):
            yield list(xs)


ALIASED = {
    'field': [F('a', alias='x')], 'link': [L('a', F('b'), alias='x')],
    'the same field twice': [F('a', alias='x'), F('a', alias='y'), F('a')],
    'swapped': [F('a', alias='b'), F('b', alias='a')],
    'options': [F('a', alias='x', o='1'), F('a', alias='y', o='2')],
    'links': [L('a', F('b', alias='c'), F('c', alias='b'), alias='x'),
              L('a', F('b'), alias='y', o='1'), L('a', F('d'))],
    'own name': [F('a', alias='a'), L('b', F('c', alias='c'), alias='b')],
    'below': [L('a', L('b', F('c', alias='x'), L('d', F('e', alias='y'),
                                                 alias='z')))],
}


def run(c):
    c.rule(R_TRIP, 'the query which is read has the selections of the query '
           'which was exported: names, options, nesting')
    c.rule(R_DUP, 'nothing is selected more than once')
    c.rule(R_ALIAS, 'the GraphQL form keeps aliases')
    c.rule(R_BUILD, 'the builder gives the query which is written')
    ts = trees()
    names = list(ts)
    for fmt in FORMATS:
        for i in range(0, len(names), 8):
            c.scenario('%s: %s, ...' % (fmt, names[i]),
                       lambda s, a=(fmt, names[i:i + 8]): [
                           trip(s, a[0], ts[n], n) for n in a[1]], R_TRIP)
        xs = list(shapes())
        for i in range(0, len(xs), 40):
            c.scenario('%s: sequences %d' % (fmt, i),
                       lambda s, a=(fmt, xs[i:i + 40]): [
                           trip(s, a[0], x, 'sequence') for x in a[1]],
                       R_TRIP, cost=5)
    for n, x in ALIASED.items():
        c.scenario('GraphQL, aliases: %s' % n, lambda s, a=(x, n):
                   trip(s, 'GraphQL', *a), R_ALIAS)
    for n in list(ts)[::7] + ['deep', 'repeated fields']:
        c.scenario('builder: %s' % n, lambda s, n=n: built(s, ts[n]),
                   R_BUILD)
    for n, x in ALIASED.items():
        c.scenario('builder: aliases, %s' % n, lambda s, x=x: built(s, x),
                   R_BUILD)
    for fmt in ('simple values', 'Protocol Buffers'):
        c.scenario('%s: any number of selections' % fmt,
                   lambda s, f=fmt: any_number(s, f), R_TRIP, cost=2)
        c.scenario('%s: empty nodes' % fmt, lambda s, f=fmt: [
            trip(s, f, x, 'empty') for x in (
                [], [L('a')], [L('a', L('b')), F('c')])], R_TRIP)


def query(s, sels):
    """the query object of selections"""
    out = []
    for kind, name, key, o, sub in sels:
        alias = Const(key) if key != name else NONE
        o = NONE if o is None else value(s, o)
        if kind == 'f':
            out.append(s.mk('hiku.query:Field', Const(name), o, alias))
        else:
            out.append(s.mk('hiku.query:Link', Const(name), query(s, sub), o,
                            alias))
    return s.mk('hiku.query:Node', s.list(*out))


def messages(s):
    ns = s.call(s.code(PB, 'Namespace'))
    h = s.I.ext_handlers

    def set_(path, name):
        f = s.attr(ns, name)
        for p in {path, extlib.canon(path)}:
            h[p] = lambda I, a, k: I.call(f, list(a), k)
    for n in ('Node', 'Item', 'Field', 'Link'):
        set_('hiku.protobuf.query_pb2.' + n, n)
    set_('hiku.protobuf.query_pb2.Node.FromString', 'FromString')
    for n in ('ParseDict', 'MessageToDict'):
        set_('google.protobuf.json_format.' + n, n)


def nodes(s):
    """nodes of GraphQL documents, made by the analysed program"""
    from graphql.language import ast as gast

    def make(cls, path):
        def new(I, a, k):
            r = I.new('inst', Ext(path), extra='gqlast')
            at = I.o(r).attrs
            at['kind'] = Const(cls.kind)
            for x in cls.keys:
                at[x] = I.resolve(k.get(x, NONE))
            return r
        return new
    for n in dir(gast):
        cls = getattr(gast, n)
        if isinstance(cls, type) and issubclass(cls, gast.Node):
            p = extlib.canon('graphql.language.ast.' + n)
            for q in {p, 'graphql.language.ast.' + n, 'graphql.' + n,
                      'graphql.language.' + n}:
                s.I.ext_handlers[q] = make(cls, p)


def document(s, v):
    """the tree of the real library for one of the analysed program"""
    from graphql.language import ast as gast
    I = s.I
    v = I.resolve(v)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Ext):
        if 'OperationType' in v.path:
            return getattr(gast.OperationType, v.path.rpartition('.')[2])
        raise Imprecise('document part %s' % v.path)
    if isinstance(v, Ref) and I.o(v).kind == 'inst':
        cls = I.o(v).cls
        cls = getattr(gast, cls.path.rpartition('.')[2]) if isinstance(
            cls, Ext) else None
        if cls is None:
            raise Imprecise('document part')
        return cls(**{n: document(s, x) for n, x in I.o(v).attrs.items()
                      if n in cls.keys and n != 'loc'})
    return [document(s, x) for x in M.segs_of(I, v)]


def simple(s, q):
    s.I.while_limit = 5000
    return s.mk('hiku.readers.simple:read', s.mk(
        'hiku.edn:dumps', s.mk('hiku.export.simple:export', q)))


def simple_values(s, q):
    return s.mk('hiku.readers.simple:transform', s.mk(
        'hiku.export.simple:export', q))


def protobuf(s, q):
    messages(s)
    return s.mk('hiku.readers.protobuf:read', s.meth(s.mk(
        'hiku.export.protobuf:export', q), 'SerializeToString'))


def graphql(s, q):
    from graphql.language.printer import print_ast
    nodes(s)
    gql.install(s)
    doc = document(s, s.mk('hiku.export.graphql:export', q))
    return s.mk('hiku.readers.graphql:read', Const(print_ast(doc)))


FORMATS = {'simple': simple, 'Protocol Buffers': protobuf,
           'GraphQL': graphql}


def merged(sels):
    """{(kind, name, result key, options): (count, merged sub-selections)}"""
    out = {}
    for kind, name, key, o, sub in sels:
        k = (kind, name, key, repr(freeze(o or {})))
        n, subs = out.get(k, (0, []))
        out[k] = n + 1, subs + (sub or [])
    return {k: (n, merged(sub)) for k, (n, sub) in out.items()}


def freeze(x):
    if isinstance(x, dict):
        return ('d',) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple(freeze(v) for v in x)
    return x


def read_back(s, node):
    """the selections of a query object"""
    from hikustat.builtins_ import plain
    out = []
    for x, kind, name, key, o in selections(s, node):
        sub = None
        if kind == 'l':
            sub = read_back(s, s.attr(x, 'node'))
        try:
            o = plain(s.I, edn_plain(s, o))
        except ValueError:
            raise Imprecise('options')
        out.append((kind, name, key, o or None, sub))
    return out


def edn_plain(s, v):
    """EDN collections and keywords as plain ones"""
    I = s.I
    v = I.resolve(v)
    sv = I.strval(v)
    if sv is not None and sv is not v:
        return sv
    if isinstance(v, Ref) and M.isinstance_(I, v, Bi('dict')):
        return s.dict_of([(edn_plain(s, k), edn_plain(s, M.getitem(I, v, k)))
                          for k in M.segs_of(I, v)])
    if isinstance(v, Tup) or isinstance(v, Ref):
        return s.list(*[edn_plain(s, x) for x in M.segs_of(I, v)])
    return v


def names_only(o):
    return sorted(o or {})


def trip(s, fmt, sels, what):
    q = query(s, sels)
    f = FORMATS.get(fmt, simple_values)
    exc, r = s.raises(lambda: f(s, q))
    rule = R_ALIAS if any(x[1] != x[2] for x in sels) else R_TRIP
    text = '%s, %s %s' % (fmt, what, render(sels))
    if not s.ok(exc is None, rule, '%s: raises %s' % (
            text, exc and describe_exc(s.I, s.last_raise))):
        return
    compare(s, merged(sels), merged(read_back(s, r)), rule, text)


def compare(s, want, got, rule, text):
    for k, (n, sub) in want.items():
        if s.ok(k in got, rule, '%s: %s is not selected, selected are %s' % (
                text, show(k), ', '.join(map(show, got)))):
            s.ok(got[k][0] <= n, R_DUP, '%s: %s is selected %d times' % (
                text, show(k), got[k][0]))
            compare(s, sub, got[k][1], rule, text)
    for k in got:
        s.ok(k in want, rule, '%s: %s is selected, expected are %s' % (
            text, show(k), ', '.join(map(show, want))))


def show(k):
    return '%s %s%s %s' % (
        'link' if k[0] == 'l' else 'field',
        k[2] + ': ' if k[1] != k[2] else '', k[1], k[3])


def render(sels):
    return '{ %s }' % ' '.join('%s%s%s%s' % (
        x[2] + ': ' if x[2] != x[1] else '', x[1],
        '(%s)' % ', '.join('%s: %r' % i for i in x[3].items())
        if x[3] else '', ' ' + render(x[4]) if x[4] is not None else '')
        for x in sels)


def built(s, sels):
    r = s.mk('hiku.builder:build', s.list(*[handle(s, x) for x in sels]))
    compare(s, merged(sels), merged(read_back(s, r)), R_BUILD,
            'built ' + render(sels))


def handle(s, x):
    kind, name, key, o, sub = x
    Q = s.get('hiku.builder:Q')
    h = s.attr(Q, name)
    if o is not None:
        h = s.call(h, **{k: value(s, v) for k, v in o.items()})
    if kind == 'l':
        items = [handle(s, y) for y in sub]
        h = M.getitem(s.I, h, items[0] if len(items) == 1 and len(
            name) % 2 else Tup(items))
    if key != name:
        h = s.meth(s.attr(Q, key), '__lshift__', h)
    return h


def any_number(s, fmt):
    """nodes with any number of fields and links"""
    I = s.I
    f = FORMATS.get(fmt, simple_values)
    mk = lambda n, i, o: s.mk('hiku.query:Field', s.name_(n, i), s.dict_of(
        [(Const('o'), s.tok('option of', n, i, ty='str'))]) if o else NONE)
    inner = lambda i: s.mk('hiku.query:Node', s.list(s.mk(
        'hiku.query:Field', s.name_('inner', i))))
    q = s.mk('hiku.query:Node', s.list(
        s.star('A', lambda i: mk('A', i, False)),
        s.star('B', lambda i: mk('B', i, True)),
        s.star('C', lambda i: s.mk('hiku.query:Link', s.name_('C', i),
                                   inner(i)))))
    r = f(s, q)
    got = []
    stars(s, M.segs_of(I, s.attr(r, 'fields')), (), got)
    want = {'A': False, 'B': True, 'C': False}
    for n, o in want.items():
        hit = [(x, names(s, x)[2]) for x, g in got
               if names(s, x)[:2] == ('tok', n)]
        # (elements with one index may stand for different parts of the rest)
        s.ok(covers([i for x, i in hit], n), R_TRIP, '%s: of any number of selections %s the selected are %s'
            % (fmt, n, [i for x, i in hit]))
        for x, i in hit:
            if o:
                v = M.getitem(I, s.attr(x, 'options'), Const('o'))
                s.ok(I.term(v) == ('tok', 'option of', n, i), R_TRIP,
                     '%s: the option of %s is %s' % (fmt, n, s.show(v)))
            if n == 'C':
                sub = M.segs_of(I, s.attr(s.attr(x, 'node'), 'fields'))
                s.ok(len(sub) == 1 and names(s, sub[0]) == (
                    'tok', 'inner', i), R_TRIP, '%s: the selections of the '
                    'links are %s' % (fmt, [s.show(y) for y in sub]))


def covers(found, n):
    """the indices name all elements of n; the first ones may be told from
    the rest"""
    if set(found) == {ix(n)}:
        return True
    first, rest = ('first', n), ('rest', n)
    return ix(first) in found and covers([
        i for i in found if i != ix(first)], rest)


def names(s, x):
    v = s.attr(x, 'name')
    sv = s.I.strval(v)
    return s.I.term(sv if sv is not None else v)


def stars(s, segs, guard, out):
    for x in segs:
        if isinstance(x, Star):
            for g, b in x.variants:
                stars(s, b, guard + tuple(g), out)
        else:
            out.append((x, guard))
