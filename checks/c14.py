"""Denormalized output mirrors the query: one entry per selection under its
result name, lists for sequences in order, None for absent optionals, for
links to nodes and for complex fields alike; __typename names the type."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm

R_OUT = 'C14.output'
R_TYPE = 'C14.typename'

# --- types: 'i' leaf, ('rec', {..}), ('seq', t), ('opt', t), ('ref', name)
S_ = ('rec', {'u': 'i', 'deep': ('rec', {'v': 'i', 'w': 'i'}),
              'last': ('opt', ('ref', 'V'))})
V_ = ('rec', {'v': 'i', 'w': 'i'})
DATA = {'S': S_, 'V': V_, 'LS': ('seq', ('ref', 'S')),
        'OS': ('opt', ('ref', 'S')), 'RS': ('ref', 'S')}
INLINE = ('rec', {'p': 'i', 'q': 'i', 'sub': ('ref', 'S'),
                  'subs': ('seq', ('ref', 'S')),
                  'osub': ('opt', ('ref', 'S')), 'in': V_,
                  'ins': ('seq', V_), 'oin': ('opt', V_),
                  'ls': ('ref', 'LS')})
DATA['R'] = INLINE
TYPES = {
    'record': INLINE, 'optional record': ('opt', INLINE),
    'sequence of records': ('seq', INLINE), 'data type': ('ref', 'R'),
    'optional data type': ('opt', ('ref', 'R')),
    'sequence of data types': ('seq', ('ref', 'R')),
    'data type of a sequence': ('ref', 'LS'),
    'data type of an optional': ('ref', 'OS'),
    'data type of a data type': ('ref', 'RS'),
}

F = lambda name, alias=None: (name, alias, None)
L = lambda name, *sub, alias=None: (name, alias, sub)

SEL_S = {
    'plain': (F('u'), L('deep', F('v'))),
    'aliases': (F('u', 'x'), F('u', 'y'), L('deep', F('v', 'w'), F('w', 'v'),
                                            alias='d'),
                L('deep', F('v'), alias='u')),
    'optional': (L('last', F('v')), F('u'), L('last', F('w', 'z'),
                                              alias='l2')),
    'typename': (F('__typename'), F('u'), L('last', F('__typename', 't'))),
}
SEL_R = {
    'plain': (F('p'), F('q')),
    'one': (F('q'),),
    'aliases': (F('p', 'q'), F('q', 'p'), F('p', 'x')),
    'typename': (F('p'), F('__typename'), F('__typename', 'n'),
                 L('sub', F('__typename'), F('u')),
                 L('subs', F('__typename'), F('u'), alias='s2'),
                 L('osub', F('u'), F('__typename')),
                 L('ls', F('__typename', 'tn'))),
}
for k, v in SEL_S.items():
    SEL_R['nested record, %s' % k] = (L('sub', *v), F('p'))
    SEL_R['nested sequence, %s' % k] = (L('subs', *v), F('p'))
    SEL_R['nested optional, %s' % k] = (F('p'), L('osub', *v))
    SEL_R['nested data type of a sequence, %s' % k] = (
        F('p'), L('ls', *v), F('q'))
SEL_R['nested inline records'] = (
    L('in', F('v')), L('ins', F('v'), F('w', 'x')), L('oin', F('w')),
    L('in', F('w', 'v'), alias='in2'))
SEL_R['nested aliases'] = (
    L('sub', F('u'), alias='a'), L('sub', F('u', 'p'), alias='p'),
    L('subs', F('u'), alias='sub'), F('p', 'subs'))

NODE_SEL = {
    'fields': (F('x'), F('y')),
    'aliases': (F('x', 'y'), F('y', 'x'), F('x', 'z')),
    'typename': (F('x'), F('__typename'), F('__typename', 'tt'),
                 L('one', F('x'), F('__typename')),
                 L('many', F('__typename', 'x'), F('y'), alias='m2'),
                 L('maybe', F('__typename'))),
    'nested': (L('one', L('many', F('x'), L('maybe', F('y')))), F('x')),
    'nested aliases': (
        L('many', F('x', 'a'), L('many', F('x', 'b'), alias='in'),
          alias='m1'), L('many', F('y'), alias='m2'),
        L('one', F('x'), alias='many')),
    'complex fields': (L('r', F('p'), L('sub', F('u', 'x'))),
                       L('rs', F('q', 'p'), alias='z'), F('x')),
    'complex fields under aliases': (
        L('r', F('p'), alias='r1'), L('r', F('q', 'p'), alias='r2'),
        L('many', L('rs', F('p', 'q'), L('subs', F('u'), alias='ss')))),
}

MODES = ('many', 'none', 'two')


def run(c):
    c.rule(R_OUT, 'the output has exactly one entry per selection, under its '
           'result name, lists in order, None for absent optionals')
    c.rule(R_TYPE, '__typename is the name of the type of the object it is '
           'selected on')
    for how in ('denormalize', 'Denormalize', 'DenormalizeGraphQL'):
        for t in TYPES:
            sels = SEL_S if t.startswith('data type of') else SEL_R
            for sn, sel in sels.items():
                if 'typename' in sn and (how != 'DenormalizeGraphQL'
                                         or t.endswith('record')
                                         or t.endswith('records')):
                    continue
                for where in ('root', 'node'):
                    for mode in MODES:
                        c.scenario('%s: %s, %s, %s, %s' % (
                            how, t, where, sn, mode),
                            lambda s, a=(how, t, where, sel, mode):
                            complex_(s, *a), R_OUT)
        for kind in ('one', 'maybe', 'many'):
            for sn, sel in NODE_SEL.items():
                if sn == 'typename' and how != 'DenormalizeGraphQL':
                    continue
                for mode in MODES:
                    c.scenario('%s: link %s, %s, %s' % (how, kind, sn, mode),
                               lambda s, a=(how, kind, sel, mode):
                               links(s, *a), R_OUT)
        c.scenario('%s: root' % how, lambda s, h=how: root(s, h), R_OUT)


class W14(World):

    def __init__(self, s, mode):
        super().__init__(s)
        self.mode = mode

    def type_(self, t):
        s = self.s
        if t == 'i':
            return s.get('hiku.types:Integer')
        if t[0] == 'rec':
            return s.item(s.get('hiku.types:Record'), s.dict(
                **{k: self.type_(v) for k, v in t[1].items()}))
        if t[0] == 'ref':
            return self.typeref(t[1])
        return self.sub({'seq': 'Sequence', 'opt': 'Optional'}[t[0]],
                        self.type_(t[1]))

    def data_types(self):
        return self.s.dict(**{k: self.type_(t) for k, t in DATA.items()})

    def seq(self, path, ixs, make):
        s = self.s
        if self.mode == 'none':
            return s.list()
        if self.mode == 'two':
            return s.list(make(ixs + (('c', 'int', 0),)),
                          make(ixs + (('c', 'int', 1),)))
        return s.list(s.star(('D', path) + ixs, lambda x: make(
            ixs + (x.term if isinstance(x, Sym) else x,))))

    def leaf(self, path, ixs):
        return val(path, *ixs)

    def gen(self, t, path, ixs):
        """the value the environment returns"""
        s = self.s
        if t == 'i':
            return self.leaf(path, ixs)
        if t[0] == 'ref':
            return self.gen(DATA[t[1]], path, ixs)
        if t[0] == 'opt':
            if self.mode == 'none':
                return NONE
            return self.gen(t[1], path, ixs)
        if t[0] == 'seq':
            return self.seq(path, ixs, lambda i: self.gen(t[1], path, i))
        return s.dict(**{k: self.gen(v, path + (k,), ixs)
                         for k, v in t[1].items()})

    def exp(self, t, path, ixs, sel, name=None):
        """the output for a selection"""
        s = self.s
        if t[0] == 'ref':
            return self.exp(DATA[t[1]], path, ixs, sel, t[1])
        if t[0] == 'opt':
            if self.mode == 'none':
                return NONE
            return self.exp(t[1], path, ixs, sel, name)
        if t[0] == 'seq':
            return self.seq(path, ixs,
                            lambda i: self.exp(t[1], path, i, sel, name))
        out = []
        for f, alias, sub in sel:
            if f == '__typename':
                v = Const(name)
            elif sub is None:
                v = self.gen(t[1][f], path + (f,), ixs)
            else:
                v = self.exp(t[1][f], path + (f,), ixs, sub)
            out.append((Const(alias or f), v))
        return s.dict_of(out)

    # --- queries
    def q(self, sel, typename=True):
        return self.qn(*[
            self.qf(f, alias=a) if sub is None else
            self.ql(f, self.q(sub, typename), alias=a)
            for f, a, sub in sel if typename or f != '__typename'])

    # --- nodes
    NODE = {'r': ('ref', 'R'), 'rs': ('seq', ('ref', 'R'))}

    def node_graph(self, extra_root=(), fields=()):
        s, w = self.s, self
        types = dict(self.NODE, x='i', y='i', **dict(fields))

        def load(args, kw):
            out = s.list()

            def row(i):
                r = s.list()
                s.each(args[0], lambda f: M.list_append(s.I, r, self.gen(
                    types[s.attr(f, 'name').v],
                    (s.attr(f, 'name').v,), (s.I.term(i),))))
                M.list_append(s.I, out, r)
            s.each(args[1], row)
            return out
        loader = s.stub(load)

        def follow(kind):
            def one(args, kw):
                out = s.list()
                s.each(args[0], lambda i: M.list_append(
                    s.I, out, self.target(kind, s.I.term(i))))
                return out
            return s.stub(one)
        kinds = ('one', 'maybe', 'many')
        nodes = [w.node(
            n, w.field('id', self.ids()),
            *[w.field(k, loader, type_=w.type_(t)) for k, t in types.items()],
            *[w.link(k, k, to, follow(k), requires='id')
              for k in kinds if to])
            for n, to in (('n', 'm'), ('m', 'l'), ('l', 'o'), ('o', None))]
        root = [w.link(k, k, 'n', w.const_loader(
            k, lambda k=k: self.target(k, ('c', 'str', 'start'))))
            for k in ('one', 'maybe', 'many')]
        return w.graph(*nodes, w.root(*root, *extra_root),
                       data_types=w.data_types())

    def ids(self):
        s = self.s

        def load(args, kw):
            out = s.list()

            def row(i):
                r = s.list()
                s.each(args[0], lambda f: M.list_append(s.I, r, i))
                M.list_append(s.I, out, r)
            s.each(args[1], row)
            return out
        return s.stub(load)

    def target(self, kind, t):
        s = self.s
        if kind == 'one':
            return s.tok('n1', t)
        if kind == 'maybe':
            return self.nothing() if self.mode == 'none' else s.tok('n2', t)
        if self.mode == 'none':
            return s.list()
        if self.mode == 'two':
            return s.list(s.tok('n3', t, ('c', 'int', 0)),
                          s.tok('n3', t, ('c', 'int', 1)))
        return s.list(s.star(('N', t), lambda x: s.tok('n3', t, x)))

    def exp_link(self, kind, t, sel, node='n'):
        s = self.s
        v = self.target(kind, t)
        if kind == 'many':
            return s.list(*[
                self.exp_node(s.I.term(x), sel, node) if not isinstance(x, Star)
                else s.star(('N', t), lambda i: self.exp_node(
                    s.I.term(s.tok('n3', t, i)), sel, node))
                for x in M.segs_of(s.I, v)])
        if kind == 'maybe' and self.mode == 'none':
            return NONE
        return self.exp_node(s.I.term(v), sel, node)

    def exp_node(self, t, sel, node):
        out = []
        for f, alias, sub in sel:
            if f == '__typename':
                v = Const(node)
            elif f in ('x', 'y'):
                v = self.gen('i', (f,), (t,))
            elif f in self.NODE or f == 'z':
                v = self.exp(self.NODE[f], (f,), (t,), sub)
            else:
                v = self.exp_link(f, t, sub, {'n': 'm', 'm': 'l', 'l': 'o'}[node])
            out.append((Const(alias or f), v))
        return self.s.dict_of(out)

    def output(self, how, graph, sel):
        s = self.s
        r = self.execute(graph, self.q(sel, False))
        if how == 'denormalize':
            return s.call(s.get('hiku.result:denormalize'), graph, r)
        q = self.q(sel)
        if how == 'Denormalize':
            d = s.mk('hiku.denormalize.base:Denormalize', graph, r)
        else:
            d = s.mk('hiku.denormalize.graphql:DenormalizeGraphQL', graph, r,
                     Const('Query'))
        return s.meth(d, 'process', q)

    def verify(self, got, want, what='output'):
        self.same_tree(got, want, what)

    def same_tree(self, got, want, what):
        s = self.s
        got, want = s.I.resolve(got), s.I.resolve(want)
        if s.same3(got, want) is True:
            s.checked += 1
            return
        kind = lambda x: s.I.o(x).kind if isinstance(x, Ref) else None
        if kind(got) == kind(want) == 'dict':
            keys = lambda x: [e.key.v for e in s.I.o(x).data]
            if sorted(keys(got)) != sorted(keys(want)):
                s.ok(False, R_OUT, '%s has the entries %s, selected are %s'
                     % (what, keys(got), keys(want)))
                return
            for k in keys(want):
                self.same_tree(s.item(got, Const(k)), s.item(want, Const(k)),
                               '%s of %s' % (k, what))
            return
        if kind(got) == kind(want) == 'list':
            a, b = s.I.o(got).data, s.I.o(want).data
            if len(a) == len(b) and not any(
                    isinstance(x, Star) for x in list(a) + list(b)):
                for i, (x, y) in enumerate(zip(a, b)):
                    self.same_tree(x, y, 'item %d of %s' % (i, what))
                return
            if len(a) == len(b) == 1 and all(
                    isinstance(x, Star) for x in (a[0], b[0])) \
                    and a[0].n == b[0].n and a[0].uniform and b[0].uniform:
                from hikustat.builtins_ import elem_of
                self.same_tree(elem_of(a[0]), elem_of(b[0]),
                               'each item of %s' % what)
                return
        s.same(got, want, R_TYPE if '__typename' in what else R_OUT, what)


def complex_(s, how, t, where, sel, mode):
    w = W14(s, mode)
    T = TYPES[t]
    if where == 'root':
        def load(args, kw):
            out = s.list()
            s.each(args[0], lambda f: M.list_append(s.I, out, w.gen(
                T, ('f',), ())))
            return out
        g = w.graph(w.root(w.field('f', s.stub(load), type_=w.type_(T))),
                    data_types=w.data_types())
        full = (L('f', *sel), L('f', *sel[:1], alias='again'))
        want = s.dict(f=w.exp(T, ('f',), (), sel),
                      again=w.exp(T, ('f',), (), sel[:1]))
    else:
        w.NODE = dict(w.NODE, f=T)
        g = w.node_graph(fields={'f': T})
        full = (L('many', L('f', *sel)),)
        want = s.dict(many=w.exp_link('many', ('c', 'str', 'start'),
                                      (L('f', *sel),)))
    w.verify(w.output(how, g, full), want)


def links(s, how, kind, sel, mode):
    w = W14(s, mode)
    g = w.node_graph()
    want = s.dict_of([
        (Const(kind), w.exp_link(kind, ('c', 'str', 'start'), sel)),
        (Const('again'), w.exp_link(kind, ('c', 'str', 'start'), sel[:1]))])
    w.verify(w.output(how, g, (L(kind, *sel),
                               L(kind, *sel[:1], alias='again'))), want)


def root(s, how):
    w = W14(s, 'many')
    g = w.graph(w.root(w.field('a', w.root_loader('a')),
                       w.field('b', w.root_loader('b'))))
    sel = (F('b', 'a'), F('a', 'b'), F('a', 'c'))
    v = lambda n: val(n, ('c', 'str', n))
    want = [(Const('a'), v('b')), (Const('b'), v('a')), (Const('c'), v('a'))]
    if how == 'DenormalizeGraphQL':
        sel += (F('__typename'), F('__typename', 'd'))
        want += [(Const('__typename'), Const('Query')),
                 (Const('d'), Const('Query'))]
    w.verify(w.output(how, g, sel), s.dict_of(want))
