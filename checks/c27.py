"""Metrics: the loaders of a measured graph see the same calls, give the same
results, and each successful loading is observed once."""
from collections import Counter

from hikustat.values import *   # noqa
from hikustat import extlib, models as M
from hikustat.driver import describe_exc
from hikustat.exprs import Exprs, s as sym, flat
from hikustat.qspec import value
from hikustat.world import nm

R_CALL = 'C27.calls'
R_RES = 'C27.results'
R_EXC = 'C27.exceptions'
R_OBS = 'C27.observations'

# node -> field -> (kind, ...)
#   ('f', loader)        loaded by a function
#   ('o', loader)        with an option `o`
#   ('rec', loader)      with an inline record
#   ('s', node)          a field of the sub-graph
#   ('e', node, expr)    an expression with an option `o`
#   ('l', card, node, requires, ctx, options)
T = sym('this')
GRAPH = {
    'x': {
        'id': ('f', 'own_x'), 'xa': ('f', 'shared'), 'xb': ('f', 'shared'),
        'n': ('f', 'shared'), 'both': ('f', 'both'),
        'xc': ('f', 'ctx_x'), 'xd': ('f', 'ctx_x'), 'cc': ('f', 'ctx_both'),
        'xo': ('o', 'shared'), 'xp': ('o', 'ctx_x'), 'rec': ('rec', 'own_x'),
        'a': ('s', 't'), 'b': ('s', 't'),
        'e1': ('e', 't', ('l', sym('this.one.c'), sym('o'))),
        'e2': ('e', 't', sym('this.a')),
        'ys': ('l', 'many', 'y', 'id', False, False),
        'y1': ('l', 'one', 'y', 'n', True, False),
        'ym': ('l', 'maybe', 'y', 'xc', False, True),
        'yn': ('l', 'many', 'y', None, False, False),
        'yc': ('l', 'many', 'y', 'a', True, True),
    },
    'y': {
        'id': ('f', 'own_y'), 'ya': ('f', 'shared'), 'n': ('f', 'shared'),
        'both': ('f', 'both'), 'cc': ('f', 'ctx_both'),
        'a': ('s', 't'), 'e2': ('e', 't', sym('this.b')),
        'c': ('s', 'u'),
        'x1': ('l', 'one', 'x', 'id', False, False),
        'zs': ('l', 'many', 'z', 'id', False, False),
    },
    'z': {'n': ('f', 'shared'), 'both': ('f', 'both')},
    '': {
        'r1': ('f', 'root'), 'r2': ('f', 'root'), 'r3': ('f', 'root'),
        'r4': ('f', 'root'), 'r5': ('f', 'root'), 'ro': ('o', 'root'),
        'both': ('f', 'both'), 'rc': ('f', 'ctx_root'),
        'cc': ('f', 'ctx_both'), 'rp': ('o', 'ctx_root'),
        'xs': ('l', 'many', 'x', None, False, False),
        'x1': ('l', 'one', 'x', None, True, False),
        'xm': ('l', 'maybe', 'x', None, False, True),
        'no': ('l', 'maybe', 'x', 'r1', False, False),
        'none': ('l', 'many', 'y', None, True, True),
        'yr': ('l', 'many', 'y', 'r1', True, False),
        'ys': ('l', 'many', 'y', None, False, False),
    },
}
# name | (name, {options}) | (name, {options}, [sub]) ; 'alias:name'
XS = ['xa', 'xb', 'id']
QUERIES = {
    'root fields': ['r1', 'r2'],
    'root field with options': ['r1', ('ro', {'o': 1}), ('q:ro', {'o': 2})],
    'many root fields': ['r1', 'r2', 'r3', 'r4', 'r5', ('ro', {'o': 1}),
                         'both', 'rc'],
    'root context': ['rc', ('rp', {'o': 1}), 'r1'],
    'one node': [('xs', None, XS)],
    'all fields of a node': [('xs', None, ['id', 'xa', 'xb', 'n', 'both',
                                           'rec'])],
    'context fields': [('xs', None, ['xc', 'xd', 'xa'])],
    'fields with options': [('xs', None, [('xo', {'o': 5}), 'xa', (
        'k:xo', {'o': 6}), ('xp', {'o': 7}), ('j:xp', {'o': 7})])],
    'a field twice': [('xs', None, ['xa', 'k:xa', 'xc', 'k2:xc'])],
    'sub-graph': [('xs', None, ['a', 'b', 'xa'])],
    'expressions': [('xs', None, [('e1', {'o': 1}), 'e2', 'a', (
        'k:e1', {'o': 2})])],
    'sub-graph in two nodes': [('xs', None, ['a', 'e2']), (
        'ys', None, ['a', 'e2', 'c'])],
    'the same functions in two nodes': [
        ('xs', None, ['xa', 'n', 'both']), ('ys', None, ['ya', 'n', 'both'])],
    'the same functions, deeper first': [
        ('ys', None, ['n', ('zs', None, ['n', 'both']), 'both', (
            'x1', None, ['both', 'n'])])],
    'the same functions in the root': ['both', 'cc', ('xs', None, [
        'both', 'cc']), ('ys', None, ['both', 'cc'])],
    'root links': [('xs', None, ['id']), ('x1', None, ['id', 'xa']), (
        'xm', {'o': 3}, ['n'])],
    'empty links': [('no', None, ['xa', 'a']), ('none', {'o': 1}, ['n']),
                    'r2'],
    'required links': [('xs', None, [('ys', None, ['n']), (
        'y1', None, ['ya']), ('ym', {'o': 1}, ['both']), ('yn', None, [
            'id'])])],
    'required of the sub-graph': [('xs', None, [('yc', {'o': 1}, ['n'])])],
    'required of the root': [('yr', None, ['n']), 'r2'],
    'links twice': [('xs', None, ['xa']), ('k:xs', None, ['xb', (
        'ys', None, ['ya']), ('j:ys', None, ['n'])])],
    'deep': [('xs', None, ['xa', ('ys', None, ['ya', ('x1', None, [
        'xb', 'a', ('y1', None, ['n'])]), ('zs', None, ['n'])])]), 'r1'],
}


def run(c):
    c.rule(R_CALL, 'loaders of the measured graph are called with the same '
           'arguments, as often, in the same order, grouped the same way')
    c.rule(R_RES, 'the result is the same')
    c.rule(R_EXC, 'exceptions of loaders are the same')
    c.rule(R_OBS, 'each successful loading is observed once per requested '
           'field or link, under its graph, node and name')
    for q in QUERIES:
        for mode in ('sync', 'async'):
            c.scenario('%s: %s' % (mode, q), lambda s, a=(q, mode):
                       measured(s, *a), R_CALL)
    for q in ('required links', 'the same functions in two nodes',
              'sub-graph in two nodes', 'empty links'):
        for mode in ('first', 'last'):
            c.scenario('futures, %s: %s' % (mode, q), lambda s, a=(q, mode):
                       measured(s, *a), R_CALL, cost=3)
    for tag in ('shared', 'both', 'own_x', 'ctx_x', 'ctx_both', 'root',
                'ctx_root', 'low t', 'link :xs', 'link :x1', 'link x:ys',
                'link x:y1', 'link x:ym', 'link :no'):
        for mode in ('sync', 'async'):
            c.scenario('%s: %s raises' % (mode, tag), lambda s, a=(
                tag, mode): raising(s, *a), R_EXC)
    for mode in ('sync', 'async'):
        for how in ('twice', 'executed again', 'two graphs', 'two objects',
                    'root name', 'ordered', 'default metric'):
            c.scenario('%s: %s' % (mode, how), lambda s, a=(how, mode):
                       other(s, *a), R_OBS, cost=2)


class W27(Exprs):
    fail = None
    graph_spec = GRAPH

    def __init__(self, s, mode):
        super().__init__(s, {})
        self.mode = mode
        self.log = []
        self.made = {}
        self.observed = []
        self.clock = 0
        for p in ('time.perf_counter', 'time.monotonic', 'time.time'):
            for q in (p, extlib.canon(p)):
                s.I.ext_handlers[q] = lambda I, a, k: Const(self.clock)
        if mode == 'async':
            self.wrap = self.coro

    # --- loaders
    def show(self, v, inside=False):
        s, I = self.s, self.I
        v = I.resolve(v)
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind == 'list':
                return tuple(self.show(x) for x in M.segs_of(I, v))
            if o.kind == 'dict':
                return ('d',) + tuple((self.show(e.key), self.show(e.val))
                                      for e in o.data)
            if o.cls == s.get('hiku.engine:Context'):
                return ('ctx', self.show(s.item(v, Const('key'))))
            if o.cls in (s.get('hiku.query:Field'),
                         s.get('hiku.query:Link')):
                return tuple(self.show(s.attr(v, n)) for n in (
                    'name', 'options'))
        if isinstance(v, Tup):
            return ('t',) + tuple(self.show(x) for x in v.items)
        return I.term(v)

    def called(self, tag, args):
        s = self.s
        a = [self.show(x) for x in args]
        ok = tag != self.fail
        self.log.append((tag, a, ok))
        self.clock += 10
        if not ok:
            raise s.I.exc('ArithmeticError', Const('failed ' + tag))
        return a

    def loader(self, tag):
        """of fields of nodes and of the root"""
        if tag in self.made:
            return self.made[tag]
        s, I = self.s, self.I

        def load(t, args, kw):
            a = self.called(tag, args)
            if kw:
                s.fail(R_CALL, '%s is called with keywords' % tag)
            if tag.startswith('ctx'):
                args = args[1:]
                a = a[1:]
            names = [(f[0][-1] if isinstance(f[0], tuple) else f[0],) + f[1:]
                     for f in a[0]]
            ids = M.segs_of(I, args[1]) if len(args) > 1 else [None]
            rows = [s.list(*[self.value(tag, i, n) for n in names])
                    for i in ids]
            return s.list(*rows) if len(args) > 1 else rows[0]
        fn = s.stub(load, tag=tag)
        if self.mode == 'async':
            fn = self.coro(fn)
        if tag.startswith('ctx'):
            fn = s.mk('hiku.engine:pass_context', fn)
        self.made[tag] = fn
        return fn

    def value(self, tag, i, name):
        if name[0] == 'rec':
            return self.s.list(self.s.dict(p=Const('p of %s' % i)))
        if name[0] == 'id' and i is not None:
            return i
        return Const('%s of %s by %s' % (name, i, tag))

    def link_fn(self, node, name, spec):
        s, I = self.s, self.I
        _, card, target, req, ctx, opts = spec
        tag = 'link %s:%s' % (node, name)
        if tag in self.made:
            return self.made[tag]

        def one(of):
            ids = [self.ident(('h', node + name, of, k, 'x'))
                   for k in range(2)]
            if name == 'no':
                return self.nothing()
            if name == 'none':
                return s.list()
            return s.list(*ids) if card == 'many' else ids[0]

        def load(t, args, kw):
            self.called(tag, args)
            if kw:
                s.fail(R_CALL, '%s is called with keywords' % tag)
            args = args[ctx:]
            if req and node:
                return s.list(*[one(k) for k, v in enumerate(
                    M.segs_of(I, args[0]))])
            return one(0)
        fn = s.stub(load, tag=tag)
        if self.mode == 'async':
            fn = self.coro(fn)
        if ctx:
            fn = s.mk('hiku.engine:pass_context', fn)
        self.made[tag] = fn
        return fn

    def low_loader(self, node):
        s = self.s
        inner_wrap, self.wrap = self.wrap, lambda f: f
        inner = super().low_loader(node)
        self.wrap = inner_wrap
        tag = 'low ' + (node or 'root')

        def load(t, args, kw):
            self.called(tag, args)
            return s.I.call(inner, list(args), kw)
        return self.wrap(s.stub(load, tag=tag))

    # --- the graph
    def build(self):
        s = self.s
        low = self.low_graph()
        subs = {n: self.sub_graph(low, n) for n in ('t', 'u')}
        items = []
        for node, fields in self.graph_spec.items():
            out = []
            for n, spec in fields.items():
                k = spec[0]
                o = s.list(self.option('o', default=Const('dflt'))) \
                    if k in 'oe' or k == 'l' and spec[5] else None
                if k == 'l':
                    _, card, target, req, ctx, opts = spec
                    out.append(self.link(
                        n, card, target, self.link_fn(node, n, spec), req,
                        options=o))
                elif k == 's':
                    out.append(self.field(n, subs[spec[1]]))
                elif k == 'e':
                    out.append(self.field(n, self.compiled(
                        subs[spec[1]], spec[2]), options=o))
                else:
                    t = NONE
                    if k == 'rec':
                        t = self.sub('Sequence', self.sub(
                            'Record', s.dict_of([(Const('p'), s.get(
                                'hiku.types:Any'))])))
                    out.append(self.field(n, self.loader(spec[1]), t,
                                          options=o))
            items.append(self.node(node, *out) if node else self.root(*out))
        return self.graph(*items)

    def query(self, sel, node='', ordered=False):
        out = []
        for x in sel:
            name, opts, sub = norm(x)
            alias, _, name = name.rpartition(':')
            o = value(self.s, opts) if opts else None
            a = alias or None
            if sub is not None:
                out.append(self.ql(name, self.query(
                    sub, self.graph_spec[node][name][2], ordered), o, a))
            elif self.graph_spec[node][name][0] == 'rec':
                out.append(self.ql(name, self.qn(self.qf('p')), o, a))
            else:
                out.append(self.qf(name, o, a))
        return self.qn(*out, ordered=ordered)

    def metrics(self, metric=None, name='g', cls=None):
        kw = {} if metric is False else {
            'metric': metric or self.metric()}
        return self.s.call(cls or self.s.get(
            'hiku.telemetry.prometheus:' + (
                'AsyncGraphMetrics' if self.mode == 'async'
                else 'GraphMetrics')), Const(name), **kw)

    def metric(self):
        s = self.s

        def labels(args, kw):
            a = list(args) + [kw[n] for n in ('graph', 'node', 'field')
                              if n in kw]
            key = tuple(s.I.resolve(x).v for x in a)

            def observe(args, kw):
                self.observed.append(key)
                s.ok(len(args) == 1, R_OBS, 'observe() has %d arguments'
                     % len(args))
                d = s.I.resolve(args[0])
                if isinstance(d, Const):
                    s.ok(d.v >= 10, R_OBS, 'the time of %s.%s is observed '
                         'without its loading' % key[1:])
                return NONE
            return s.stub(None, attrs={'observe': s.stub(observe)})
        return s.stub(None, attrs={'labels': s.stub(labels)})

    def apply(self, g, *metrics):
        return self.s.mk('hiku.graph:apply', g, self.s.list(*metrics))

    def go(self, g, sel, ordered=False):
        """(exception, result, log, observations)"""
        s = self.s
        self.log, self.observed = [], []
        ctx = s.dict(key=Const('value'))
        q = self.query(sel, ordered=ordered)
        if self.mode == 'async':
            fn = lambda: M.await_(s.I, self.execute(
                g, q, self.async_executor(), ctx))
        elif self.mode == 'sync':
            fn = lambda: self.execute(g, q, self.sync(), ctx)
        else:
            fn = lambda: self.execute(g, q, self.scheduler(self.mode), ctx)
        exc, r = s.raises(fn)
        if exc is not None:
            exc = describe_exc(s.I, s.last_raise).rpartition(' at ')[0]
        return exc, r, self.log, self.observed

    def same_result(self, a, b, sel, node, what):
        s, I = self.s, self.I
        if a is None or b is None:
            s.ok(a is b, R_RES, '%s is absent' % what)
            return
        for x in sel:
            name, opts, sub = norm(x)
            alias, _, name = name.rpartition(':')
            key = Const(alias or name)
            va = self.read(a, key, R_RES, 'the graph: ' + what)
            vb = self.read(b, key, R_RES, 'the measured graph: ' + what)
            if va is None or vb is None:
                continue
            if GRAPH[node][name][0] == 'rec':
                sub, target = ['p'], None
            elif sub is not None:
                target = GRAPH[node][name][2]
            if sub is None:
                s.ok(s.same3(vb, va), R_RES, '%s of %s is %s instead of %s'
                     % (key.v, what, s.show(vb), s.show(va)))
                continue
            la, lb = [self.items(v) for v in (va, vb)]
            s.ok(len(la) == len(lb), R_RES, '%s of %s has %d elements '
                 'instead of %d' % (key.v, what, len(lb), len(la)))
            for p, q in zip(la, lb):
                if target is None:
                    pa, pb = [self.read(v, Const('p'), R_RES, 'a record')
                              for v in (p, q)]
                    s.ok(s.same3(pa, pb), R_RES, 'p of %s is %s'
                         % (key.v, s.show(pb)))
                else:
                    self.same_result(p, q, sub, target, key.v)

    def items(self, v):
        v = self.I.resolve(v)
        if v == NONE:
            return []
        if isinstance(v, Ref) and self.I.o(v).kind == 'list':
            return M.segs_of(self.I, v)
        return [v]

    # --- what has to be observed
    def expected(self, log, sel, name='g', root='Root', failed=None):
        out = Counter()
        for tag, a, ok in log:
            if not ok or tag.startswith('low'):
                continue
            if tag.startswith('link '):
                node, field = tag[5:].split(':')
                out[name, node or root, field] += 1
                continue
            if tag.startswith('ctx'):
                a = a[1:]
            if len(a) == 1:
                node = root
            else:
                node = self.node_of(a[1])
            for f in a[0]:
                f = f[0][-1] if isinstance(f[0], tuple) else f[0]
                out[name, node, f] += 1
        for key, n in self.subs(sel, '').items():
            out[(name,) + key] += n
        return out

    def node_of(self, ids):
        """the node these identifiers belong to"""
        from hikustat.exprs import NAMES
        i = ids[0]
        term = NAMES[i[-1]]
        node = ''
        for n in GRAPH:
            if term[1].startswith(n) and GRAPH[n].get(term[1][len(n):]):
                spec = GRAPH[n][term[1][len(n):]]
                if spec[0] == 'l':
                    node = spec[2]
                    if n:
                        return node
        return node

    def subs(self, sel, node):
        """fields of sub-graphs: once for each visit"""
        out = Counter()
        names = []
        for x in sel:
            name, opts, sub = norm(x)
            name = name.rpartition(':')[2]
            spec = GRAPH[node][name]
            if spec[0] in 'se':
                names.append(name)
            if spec[0] == 'l':
                if spec[3] and GRAPH[node][spec[3]][0] in 'se' and spec[3] \
                        not in [norm(y)[0] for y in sel]:
                    names.append(spec[3])
                if name not in ('no', 'none'):
                    out += self.subs(sub, spec[2])
        for n in names:
            out[node, n] += 1
        return out

    def same_calls(self, log, log2):
        s = self.s
        a, b = [(t, x) for t, x, ok in log], [(t, x) for t, x, ok in log2]
        if a == b:
            s.checked += 1
            return
        for t, x in b:
            if (t, x) not in a:
                s.ok(False, R_CALL, 'the measured graph calls %s(%s), the '
                     'graph does not; its calls of it: %s' % (
                         t, brief(x), '; '.join(
                             brief(y) for u, y in a if u == t) or 'none'))
                return
        for t, x in a:
            if (t, x) not in b:
                s.ok(False, R_CALL, 'the measured graph does not call %s(%s)'
                     % (t, brief(x)))
                return
        s.ok(False, R_CALL, 'the calls are in another order or number: %s '
             'instead of %s' % ([t for t, x in b], [t for t, x in a]))

    def same_observed(self, got, want, what=''):
        got = Counter(got)
        for k in sorted(set(got) | set(want), key=str):
            self.s.ok(got[k] == want[k], R_OBS, '%s%s.%s of graph %s is '
                      'observed %d times instead of %d' % (
                          what, k[1], k[2], k[0], got[k], want[k]))


def brief(a):
    return ', '.join(str(x) for x in a).replace("'c', 'str', ", '')[:200]


def norm(x):
    if isinstance(x, str):
        return x, None, None
    return x if len(x) == 3 else x + (None,)


def both(s, w, g, gm, sel, what='', root='Root', name='g', ordered=False):
    exc, r, log, obs = w.go(g, sel, ordered)
    s.ok(not obs, R_OBS, 'the original graph is measured')
    s.ok(exc is None, R_RES, 'the graph itself raised %s' % exc)
    exc, r2, log2, obs = w.go(gm, sel, ordered)
    w.same_calls(log, log2)
    if not s.ok(exc is None, R_EXC, '%sthe measured graph raised %s' % (
            what, exc)):
        return log2, obs
    w.same_result(r, r2, sel, '', 'the result')
    w.same_observed(obs, w.expected(log, sel, name, root), what)
    return log2, obs


def measured(s, q, mode):
    w = W27(s, mode)
    g = w.build()
    gm = w.apply(g, w.metrics())
    both(s, w, g, gm, QUERIES[q])


def raising(s, tag, mode):
    w = W27(s, mode)
    g = w.build()
    gm = w.apply(g, w.metrics())
    for q in ('the same functions in two nodes', 'required links',
              'context fields', 'root context', 'sub-graph in two nodes',
              'root links', 'empty links', 'the same functions in the root'):
        sel = QUERIES[q]
        w.fail = tag
        exc, r, log, _ = w.go(g, sel)
        exc2, r2, log2, obs = w.go(gm, sel)
        w.fail = None
        w.same_calls(log, log2)
        s.ok(exc == exc2, R_EXC, 'when %s raises, the measured graph raises '
             '%s instead of %s' % (tag, exc2, exc))
        if exc is None:
            w.same_result(r, r2, sel, '', 'the result')
            w.same_observed(obs, w.expected(log2, sel))
        elif tag.startswith('low'):
            for k in obs:
                s.ok(GRAPH[k[1] if k[1] != 'Root' else ''][k[2]][0]
                     not in 'se', R_OBS, '%s.%s is observed, though its '
                     'loading by the sub-graph failed' % k[1:])
        elif mode == 'sync':
            # nothing of a sub-graph is awaited here
            want = w.expected(log2, [])
            got = Counter(k for k in obs if GRAPH.get(
                k[1] if k[1] != 'Root' else '', {}).get(
                    k[2], 's')[0] not in 'se')
            w.same_observed(got, want, 'when %s raises: ' % tag)


MIX = [('xs', None, ['xa', 'xc', 'a', ('e1', {'o': 1}), ('ys', None, [
    'n', 'both', 'a'])]), ('ys', None, ['n', 'both']), 'r1', 'rc', 'both']


def other(s, how, mode):
    w = W27(s, mode)
    g = w.build()
    if how == 'twice':
        gm = w.apply(g, w.metrics(), w.metrics(name='h'))
        log, obs = both_of(s, w, g, gm, MIX)
        for n in ('g', 'h'):
            w.same_observed([k for k in obs if k[0] == n],
                            w.expected(log, MIX, n))
    elif how == 'executed again':
        gm = w.apply(g, w.metrics())
        for q in (MIX, QUERIES['required links'], MIX):
            both(s, w, g, gm, q)
    elif how == 'two graphs':
        m = w.metrics()
        gm = w.apply(g, m)
        w.made.clear()
        g2 = w.build()
        gm2 = w.apply(g2, m)
        both(s, w, g, gm, MIX, 'first graph: ')
        both(s, w, g2, gm2, MIX, 'second graph: ')
    elif how == 'two objects':
        gm, gm2 = w.apply(g, w.metrics()), w.apply(g, w.metrics(name='h'))
        both(s, w, g, gm, MIX)
        both(s, w, g, gm2, MIX, name='h')
    elif how == 'root name':
        cls = s.call(s.code('''
def mk(base):
    class Named(base):
        root_name = 'Query'
    return Named
''', 'mk'), s.get('hiku.telemetry.prometheus:' + (
            'AsyncGraphMetrics' if mode == 'async' else 'GraphMetrics')))
        both(s, w, g, w.apply(g, w.metrics(cls=cls)), MIX, root='Query')
    elif how == 'ordered':
        both(s, w, g, w.apply(g, w.metrics()), MIX, ordered=True)
    elif how == 'default metric':
        made = []

        def summary(I, a, k):
            made.append(a)
            labels = M.segs_of(I, a[2]) if len(a) > 2 else M.segs_of(
                I, k['labelnames'])
            s.ok([x.v for x in labels] == ['graph', 'node', 'field'], R_OBS,
                 'labels of the default metric are %s' % (labels,))
            return w.metric()
        for p in ('prometheus_client.Summary', extlib.canon(
                'prometheus_client.Summary')):
            s.I.ext_handlers[p] = summary
        gm = w.apply(g, w.metrics(False))
        gm2 = w.apply(g, w.metrics(False, name='h'))
        both(s, w, g, gm, MIX)
        both(s, w, g, gm2, MIX, name='h')
        s.ok(len(made) == 1, R_OBS, 'the default metric is created %d times'
             % len(made))


def both_of(s, w, g, gm, sel):
    exc, r, log, _ = w.go(g, sel)
    exc2, r2, log2, obs = w.go(gm, sel)
    w.same_calls(log, log2)
    if s.ok(exc is None and exc2 is None, R_EXC, 'raised %s instead of %s'
            % (exc2, exc)):
        w.same_result(r, r2, sel, '', 'the result')
    return log2, obs
