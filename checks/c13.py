"""A result exposes exactly the selected names: others raise and create
nothing, selected ones read back what is stored, missing data is loud."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from checks.c01 import idents, fields, qfields

R_VAL = 'C13.value'
R_KIND = 'C13.kind'
R_UNK = 'C13.not_selected'
R_NEW = 'C13.nothing_created'
R_LOUD = 'C13.missing'

UNKNOWN = ('nope', 'x', 'hidden', 'l2', 'lr', 'one', 'n', '__root__',
           'node', 'fields', 'ident', 'items', 'keys', 'get', '')


def run(c):
    c.rule(R_VAL, 'a selected name reads the stored value, as an item and as '
           'an attribute, every time')
    c.rule(R_KIND, 'a single link reads as a nested result, a sequence link '
           'as a list of nested results in order, an absent optional as None')
    c.rule(R_UNK, 'a name the query did not select raises KeyError, '
           'AttributeError for attributes')
    c.rule(R_NEW, 'reading stores nothing')
    c.rule(R_LOUD, 'selected data which is missing raises')
    for ordered in (False, True):
        for mode in ('sync', 'first', 'last'):
            c.scenario('engine, ordered=%s, %s' % (ordered, mode),
                       lambda s, a=(ordered, mode): engine(s, *a), R_VAL)
    for name in UNKNOWN:
        c.scenario('not selected: %r' % name,
                   lambda s, n=name: unknown(s, n), R_UNK)
    c.scenario('not selected: any other name', lambda s: unknown(s, None),
               R_UNK)
    for n in (0, 1, 2, 3):
        c.scenario('sequence link with repeated objects, %d' % n,
                   lambda s, n=n: repeated(s, n), R_KIND)
    c.scenario('not selected: any names among any fields', unknown_star,
               R_UNK)
    for what in VALUES:
        for how in ('field', 'complex field', 'aliased', 'with options',
                    'of a node'):
            c.scenario('stored %s, %s' % (what, how),
                       lambda s, a=(what, how): stored(s, *a), R_VAL)
    for what in MISSING:
        for again in (False, True):
            c.scenario('missing: %s%s' % (what, ', read twice' * again),
                       lambda s, a=(what, again): missing(s, *a), R_LOUD)
    for what in UNLOADED:
        c.scenario('not loaded: %s' % what,
                   lambda s, w=what: unloaded(s, w), R_LOUD)


class W13(World):

    def attr_(self, obj, name, rule, what):
        exc, v = self.s.raises(lambda: self.s.attr(obj, name))
        if exc is not None:
            self.s.ok(False, rule, '%s: attribute %s raises %s' % (
                what, name, self.s.I.exc_name(exc)))
            return None
        return v

    def both(self, obj, name, want, what):
        """item and attribute, twice"""
        s = self.s
        for i in range(2):
            v = self.read(obj, Const(name), R_VAL, what)
            if v is not None:
                s.same(v, want, R_VAL, '%s: item %s' % (what, name))
            v = self.attr_(obj, name, R_VAL, what)
            if v is not None:
                s.same(v, want, R_VAL, '%s: attribute %s' % (what, name))

    def absent(self, obj, name, what):
        s = self.s
        key = nm(name)
        for i in range(2):
            exc, v = s.raises(lambda: s.item(obj, key))
            if s.ok(exc is not None, R_UNK, '%s: item %s reads as a value' % (
                    what, s.show(key))):
                s.ok(s.is_exc(exc, 'KeyError'), R_UNK, '%s: item %s raises '
                     '%s' % (what, s.show(key), s.I.exc_name(exc)))
            if isinstance(name, str) and name.isidentifier() \
                    and not name.startswith('__'):
                exc, v = s.raises(lambda: s.attr(obj, name))
                if s.ok(exc is not None, R_UNK,
                        '%s: attribute %s reads as a value' % (what, name)):
                    s.ok(s.is_exc(exc, 'AttributeError'), R_UNK,
                         '%s: attribute %s raises %s' % (
                             what, name, s.I.exc_name(exc)))

    def quiet(self, fn):
        """nothing that exists is changed while fn runs, caches of the query
        apart"""
        I, s = self.s.I, self.s
        known = set(I.heap)
        bad = []

        def hook(I, oid, o, slot):
            if oid in known and slot != '$cache' and o.kind in (
                    'dict', 'list', 'set'):
                bad.append((oid, slot, I.site()))
        I.write_hook = hook
        try:
            fn()
        finally:
            I.write_hook = None
        s.ok(not bad, R_NEW, 'reading changes stored objects',
             bad[0][2] if bad else None)


def the_graph(w):
    s = w.s
    ids = idents(s, 'I')
    lr, ln = w.root_loader('lr'), w.node_loader('ln')
    single = lambda t: w.const_loader(t, s.tok('id', t))
    none = w.const_loader('none', w.nothing())
    members = lambda: [
        w.link('me', 'one', 'n', w.map_loader('me', lambda v: s.tok(
            'me', s.I.term(v))), requires='a'),
        w.link('mb', 'maybe', 'n', w.map_loader(
            'mb', lambda v: w.nothing()), requires='a')]
    return w.graph(
        w.node('n', *[w.field(x, ln) for x in ('a', 'b', 'c', 'hidden')],
               *members()),
        w.root(*[w.field(x, lr) for x in ('a', 'b', 'c', 'hidden', 'nope')],
               w.link('one', 'one', 'n', single('one')),
               w.link('mb', 'maybe', 'n', single('mb')),
               w.link('no', 'maybe', 'n', none),
               w.link('many', 'many', 'n', w.const_loader(
                   'many', s.list(*ids))),
               w.link('empty', 'many', 'n', w.const_loader(
                   'empty', s.list())))), ids


def is_result(s, v):
    return isinstance(v, Ref) and M.isinstance_(
        s.I, v, s.get('hiku.result:Proxy'))


def nested(w, v, ident, what):
    s = w.s
    if not s.ok(is_result(s, v), R_KIND, '%s reads as %s' % (
            what, s.show(v))):
        return
    w.both(v, 'a', val('ln', ident, ('c', 'str', 'a')), what)
    w.both(v, 'z', val('ln', ident, ('c', 'str', 'b')), what)
    for n in ('b', 'hidden', 'c', 'nope'):
        w.absent(v, n, what)


def engine(s, ordered, mode):
    w = W13(s)
    g, ids = the_graph(w)
    sub = lambda: w.qn(w.qf('a'), w.qf('b', alias='z'), ordered=ordered)
    q = w.qn(w.qf('a'), w.qf('b', alias='z'),
             w.ql('one', sub()), w.ql('mb', sub()), w.ql('no', sub()),
             w.ql('many', sub()), w.ql('empty', sub()),
             w.ql('one', w.qn(w.qf('c'), w.ql('me', w.qn(w.qf('c'))), w.ql(
                 'mb', w.qn(w.qf('c')))), alias='two'),
             ordered=ordered)
    r = w.execute(g, q, w.sync() if mode == 'sync' else w.scheduler(mode))

    def read():
        s.ok(is_result(s, r), R_KIND, 'the result is %s' % s.show(r))
        w.both(r, 'a', val('lr', ('c', 'str', 'a')), 'root')
        w.both(r, 'z', val('lr', ('c', 'str', 'b')), 'root')
        for n in ('b', 'c', 'hidden', 'nope', 'me', 'missing', 'n'):
            w.absent(r, n, 'root')
        w.both(r, 'no', NONE, 'absent optional')
        for n in ('one', 'mb'):
            for v in (w.read(r, Const(n), R_VAL, n),
                      w.attr_(r, n, R_VAL, n)):
                if v is not None:
                    nested(w, v, ('tok', 'id', n), n + ' link')
        v = w.read(r, Const('empty'), R_VAL, 'empty')
        if v is not None:
            s.same(v, s.list(), R_KIND, 'empty sequence')
        for v in (w.read(r, Const('many'), R_VAL, 'many'),
                  w.attr_(r, 'many', R_VAL, 'many')):
            if v is None:
                continue
            if not s.ok(M.isinstance_(s.I, v, Bi('list')), R_KIND,
                        'sequence link reads as %s' % s.show(v)):
                continue
            if s.same(M.length(s.I, v), M.segs_len(s.I, ids), R_KIND,
                      'length of a sequence link'):
                z = M.call_bi(s.I, 'zip', [s.list(*ids), v], {})
                s.each(z, lambda t: nested(
                    w, t.items[1], s.I.term(t.items[0]), 'sequence link'))
        v = w.read(r, Const('two'), R_VAL, 'two')
        if v is not None and s.ok(is_result(s, v), R_KIND, 'link'):
            w.both(v, 'c', val('ln', ('tok', 'id', 'one'), (
                'c', 'str', 'c')), 'second link')
            w.absent(v, 'a', 'second link')
            w.both(v, 'mb', NONE, 'absent optional')
            m = w.read(v, Const('me'), R_VAL, 'link of a node')
            if m is not None and s.ok(is_result(s, m), R_KIND, 'link'):
                a = val('ln', ('tok', 'id', 'one'), ('c', 'str', 'a'))
                w.both(m, 'c', val('ln', ('tok', 'me', a.term), (
                    'c', 'str', 'c')), 'link of a node')
    w.quiet(read)


def repeated(s, n):
    w = W13(s)
    i, j = Const('i'), Const('j')
    ids = [[i, i], [i, j, i], [j, i, j, i, i],
           [i] + idents(s, 'I') + [i]][n]
    g = w.graph(w.node('n', w.field('a', w.node_loader('ln')),
                       w.field('b', w.node_loader('ln'))),
                w.root(w.link('l', 'many', 'n', w.const_loader(
                    'll', s.list(*ids)))))
    r = w.execute(g, w.qn(w.ql('l', w.qn(w.qf('a'), w.qf('b', alias='z')))))
    v = w.read(r, Const('l'), R_VAL, 'sequence')
    if v is None:
        return
    if s.same(M.length(s.I, v), M.segs_len(s.I, ids), R_KIND,
              'length of a sequence link'):
        z = M.call_bi(s.I, 'zip', [s.list(*ids), v], {})
        s.each(z, lambda t: nested(w, t.items[1], s.I.term(t.items[0]),
                                   'sequence link'))


def unknown(s, name):
    w = W13(s)
    g, ids = the_graph(w)
    if name is None:
        name = s.name_('other')
    q = w.qn(w.qf('a', alias='x1'), w.qf('b'),
             w.ql('one', w.qn(w.qf('a', alias='x'), w.qf('hidden')),
                  alias='l1'),
             w.ql('many', w.qn(w.qf('c', alias='l2'))))
    r = w.execute(g, q)

    def read():
        w.absent(r, name, 'root')
        one = w.read(r, Const('l1'), R_VAL, 'link')
        if one is not None and name not in ('x', 'hidden'):
            w.absent(one, name, 'node')
        if name != 'l2':
            many = w.read(r, Const('many'), R_VAL, 'sequence')
            s.each(many, lambda v: w.absent(v, name, 'node of a sequence'))
    w.quiet(read)


def unknown_star(s):
    w = W13(s)
    la, lb = w.node_loader('la'), w.node_loader('lb')
    ids = idents(s, 'I')
    g = w.graph(w.node('n', *fields(w, la, lb)), w.root(
        w.link('l', 'many', 'n', w.const_loader('ll', s.list(*ids)))))
    r = w.execute(g, w.qn(w.ql('l', w.qn(*qfields(w)))))
    others = s.list(s.star('O', lambda x: s.name_('o', x)), s.name_('o1'))

    def read():
        many = w.read(r, Const('l'), R_VAL, 'sequence')
        if many is None:
            return
        s.each(many, lambda v: s.each(others, lambda n: w.absent(
            v, n, 'node')))
        s.each(others, lambda n: w.absent(r, n, 'root'))
    w.quiet(read)


# --- on an index of the environment

VALUES = {
    'null': lambda s: NONE, 'false': lambda s: FALSE,
    'zero': lambda s: Const(0), 'empty string': lambda s: Const(''),
    'string': lambda s: s.tok('v', ty='str'),
    'anything': lambda s: s.tok('v'),
    'empty list': lambda s: s.list(), 'empty dict': lambda s: s.dict(),
    'list': lambda s: s.list(s.tok('a'), s.tok('b')),
    'list of dicts': lambda s: s.list(s.dict(x=s.tok('a')), s.dict()),
    'list of lists': lambda s: s.list(s.list(s.tok('a')), s.list()),
    'list of nulls': lambda s: s.list(NONE, NONE),
    'dict': lambda s: s.dict(x=s.tok('a')),
    'tuple': lambda s: Tup([s.tok('a')]),
    'any list': lambda s: s.list(s.star('V', lambda x: s.tok('a', x))),
}


def stored(s, what, how):
    w = W13(s)
    v = VALUES[what](s)
    opts = s.dict(o=s.tok('o', ty='int')) if how == 'with options' else None
    alias = 'z' if how == 'aliased' else None
    if how == 'complex field':
        sel = w.ql('f', w.qn(w.qf('x')))
        gf = w.field('f', w.const_loader('lf', s.list(v)), w.sub(
            'Sequence', s.item(s.get('hiku.types:Record'), s.dict(
                x=s.get('hiku.types:Any')))))
    else:
        sel = w.qf('f', opts, alias)
        gf = w.field('f', w.const_loader('lf', s.list(v)), options=s.list(
            *([w.option('o', NONE)] if opts else [])))
    if how == 'of a node':
        gf = w.field('f', w.const_loader('lf', s.list(s.list(v))))
        g = w.graph(w.node('n', gf), w.root(w.link(
            'l', 'one', 'n', w.const_loader('ll', s.tok('id')))))
        r = w.execute(g, w.qn(w.ql('l', w.qn(sel))))
        r = w.read(r, Const('l'), R_VAL, 'link')
        if r is None:
            return
    else:
        g = w.graph(w.root(gf))
        r = w.execute(g, w.qn(sel))
    w.quiet(lambda: w.both(r, 'z' if alias else 'f', v, what))


def index(s, *objs):
    """a finished index: (node, ident, {name: value})..."""
    ix_ = s.mk('hiku.result:Index')
    for node, ident, values in objs:
        o = s.item(s.item(ix_, nm(node)), nm(ident))
        for k, v in values.items():
            s.meth(o, '__setitem__', Const(k), v)
    s.meth(ix_, 'finish')
    return ix_


def ref(s, node, ident):
    return s.mk('hiku.result:Reference', nm(node), nm(ident))


MISSING = {
    'a root field': lambda s: ([('__root__', '__root__', {
        'g': s.tok('g')})], 'f'),
    'everything': lambda s: ([], 'f'),
    'the root among nodes': lambda s: ([('n', 'i', {'f': s.tok('f')})], 'f'),
    'the whole node': lambda s: ([('__root__', '__root__', {
        'l': ref(s, 'n', 'i')})], 'l', 'f'),
    'the object': lambda s: ([('__root__', '__root__', {
        'l': ref(s, 'n', 'i')}), ('n', 'j', {'f': s.tok('f')})], 'l', 'f'),
    'the object of another node': lambda s: ([('__root__', '__root__', {
        'l': ref(s, 'n', 'i')}), ('m', 'i', {'f': s.tok('f')})], 'l', 'f'),
    'a field of the object': lambda s: ([('__root__', '__root__', {
        'l': ref(s, 'n', 'i')}), ('n', 'i', {'g': s.tok('g')})], 'l', 'f'),
    'a field of one of the objects': lambda s: ([
        ('__root__', '__root__', {'l': s.list(ref(s, 'n', 'j'), ref(
            s, 'n', 'i'))}), ('n', 'i', {'g': s.tok('g')}),
        ('n', 'j', {'f': s.tok('f')})], 'l', 1, 'f'),
    'a field under its alias': lambda s: ([('__root__', '__root__', {
        'z': s.tok('g')})], 'z'),
    'a link': lambda s: ([('__root__', '__root__', {
        'f': s.tok('f')})], 'l'),
    'a field only present in the root': lambda s: ([
        ('__root__', '__root__', {'l': ref(s, 'n', 'i'), 'f': s.tok('f')}),
        ('n', 'i', {})], 'l', 'f'),
}


def missing(s, what, again):
    w = W13(s)
    spec = MISSING[what](s)
    objs, path = spec[0], spec[1:]
    ix_ = index(s, *objs)
    q = w.qn(w.qf('f'), w.qf('y', alias='z'),
             w.ql('l', w.qn(w.qf('f'), w.qf('g'))))
    r = s.mk('hiku.result:Proxy', ix_, s.get('hiku.result:ROOT'), q)

    def read():
        v = r
        for p in path[:-1]:
            v = s.item(v, Const(p))
        for attr in (False, True) * (1 + again):
            exc, x = s.raises(lambda: s.attr(v, path[-1]) if attr
                              else s.item(v, Const(path[-1])))
            s.ok(exc is not None, R_LOUD, 'missing %s reads as %s' % (
                what, s.show(x) if exc is None else ''))
    w.quiet(read)


UNLOADED = {
    'another field': (lambda w: w.qn(w.qf('a')),
                      lambda w: w.qn(w.qf('b')), ('b',)),
    'a link': (lambda w: w.qn(w.qf('a')),
               lambda w: w.qn(w.ql('one', w.qn(w.qf('a')))), ('one',)),
    'a field of a node': (
        lambda w: w.qn(w.ql('one', w.qn(w.qf('a')))),
        lambda w: w.qn(w.ql('one', w.qn(w.qf('b')))), ('one', 'b')),
    'a node without fields': (
        lambda w: w.qn(w.ql('one', w.qn())),
        lambda w: w.qn(w.ql('one', w.qn(w.qf('b')))), ('one', 'b')),
    'other options': (
        lambda w: w.qn(w.qf('a')),
        lambda w: w.qn(w.qf('a', w.s.dict(o=Const(1)))), ('a',)),
    'nothing was selected': (
        lambda w: w.qn(), lambda w: w.qn(w.qf('a')), ('a',)),
}


def unloaded(s, what):
    w = W13(s)
    g, ids = the_graph(w)
    q1, q2, path = UNLOADED[what]
    r = w.execute(g, q1(w))
    p = s.mk('hiku.result:Proxy', s.attr(r, '__idx__'), s.attr(r, '__ref__'),
             q2(w))

    def read():
        v = p
        for n in path[:-1]:
            v = s.item(v, Const(n))
        for i in range(2):
            exc, x = s.raises(lambda: s.item(v, Const(path[-1])))
            s.ok(exc is not None, R_LOUD, '%s reads as %s' % (
                what, s.show(x) if exc is None else ''))
    w.quiet(read)
