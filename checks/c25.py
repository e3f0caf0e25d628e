"""Expression fields: their low-level query has all the data they use, and
they are evaluated for the right object with their own options."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.exprs import Exprs, s as sym, LOW, flat
from hikustat.qspec import value

R_DATA = 'C25.data'
R_OPT = 'C25.options'
R_ONE = 'C25.one-query'
R_IDS = 'C25.identifiers'

PQ = {'p': 'any', 'q': 'any'}
A, B, C = {'a': 'any'}, {'b': 'any'}, {'c': 'any'}
# functions by the types of their arguments
FUNCS = {
    'any': ('any',), 'two': ('any', 'any'), 'none': (),
    'a': (A,), 'b': (B,), 'ab': ({'a': 'any', 'b': 'any'},),
    'c': (C,), 'cd': ({'c': 'any', 'd': 'any'},),
    'one': ({'one': C},), 'a_one': ({'a': 'any', 'one': C},),
    'deep': ({'one': {'back': {'one': {'d': 'any'}}}},),
    'many': ({'many': ('seq', C)},),
    'seq': (('seq', C),), 'opt': (('opt', C),),
    'maybe': ({'maybe': ('opt', {'d': 'any'})},),
    'pq': (PQ,), 'p_': ({'p': 'any'},), 'rec': ({'rec': {'q': 'any'}},),
    'recs': (('seq', {'p': 'any'}),), 'in_recs': (
        {'recs': ('seq', {'q': 'any'})},),
    'optrec': (('opt', PQ),), 'in_opt': ({'opt': ('opt', {'p': 'any'})},),
    'a_c': (A, C), 'any_c': ('any', C), 'c_any': (C, 'any'),
    'a_c_any': (A, C, 'any'), 'a_a': (A, A), 'a_b': (A, B),
    'all': ({'a': 'any', 'one': {'c': 'any', 'kids': (
        'seq', {'b': 'any', 'maybe': ('opt', C)})}},),
    'kids': ({'kids': ('seq', A)},),
    'true': (), 'yes': ('any',), 'no': (), 'x/y': (A,), 'anon': (A,),
    'anon2': (B, C),
}
T = sym('this')
fn = lambda name, *a: ('fn', name) + a
# root fields and links of the low-level graph hide functions of their names:
# functions are called fn_<name> in expressions
EXPRS = {
    # fields
    'field': sym('this.a'),
    'identifier': sym('this.id'),
    'field of one': sym('this.one.c'),
    'two links away': sym('this.one.back.a'),
    'field called obj': sym('this.obj'),
    'record': sym('this.rec.p'),
    'both of a record': ('l', sym('this.rec.p'), sym('this.rec.q')),
    'list of values': sym('this.ss'),
    'each of values': ('each', 'x', sym('this.ss'), sym('x')),
    'each of values called': ('each', 'x', sym('this.ss'),
                              fn('any', sym('x'))),
    'optional value': sym('this.os'),
    'some value': ('some', 'x', sym('this.os'), sym('x'), ('k', 7)),
    'some empty value': ('some', 'x', sym('this.e'), ('l', sym('x')),
                         ('k', 7)),
    'each of records': ('each', 'x', sym('this.recs'), sym('x.q')),
    'some record': ('some', 'x', sym('this.opt'), sym('x.p'), sym('this.b')),
    'each of objects': ('each', 'x', sym('this.many'), sym('x.c')),
    'each of no objects': ('each', 'x', sym('this.none'), sym('x.c')),
    'each of each': ('each', 'x', sym('this.many'), (
        'each', 'y', sym('x.kids'), ('l', sym('x.d'), sym('y.a'),
                                     sym('this.b')))),
    'some object': ('some', 'x', sym('this.maybe'), sym('x.d'),
                    sym('this.a')),
    'no object': ('some', 'x', sym('this.no'), sym('x.d'), sym('this.a')),
    'some of some': ('some', 'x', sym('this.maybe'), (
        'some', 'y', sym('x.maybe'), sym('y.b'), sym('x.c')),
        sym('this.one.d')),
    'some of each': ('each', 'x', sym('this.many'), (
        'some', 'y', sym('x.maybe'), sym('y.a'), sym('x.c'))),
    'alias of one': ('some', 'x', sym('this.one'), sym('x.d'), ('k', 1)),
    'alias of many': ('some', 'x', sym('this.many'), (
        'each', 'y', sym('x'), sym('y.d')), ('k', 1)),
    # of the root
    'root field': sym('f'),
    'root fields': ('l', sym('f'), sym('g')),
    'root link': sym('one.c'),
    'root record': sym('rec.p'),
    'each of root': ('each', 'x', sym('many'), ('l', sym('x.a'), sym('f'))),
    'some of root': ('some', 'x', sym('maybe'), sym('x.a'), sym('f')),
    'none of root': ('some', 'x', sym('no'), sym('x.a'), sym('g')),
    'root and this': ('l', sym('f'), sym('this.a'), sym('one.d'),
                      sym('this.one.c')),
    # without data
    'constant': ('k', 5),
    'constants': ('l', ('k', 1), ('k', 'x'), ('k', None), ('k', True),
                  ('k', 2.5)),
    'call of nothing': fn('none'),
    'empty list': ('l',), 'empty map': ('d', {}),
    # functions
    'any of field': fn('any', sym('this.a')),
    'any of this': fn('any', T),
    'any of link': fn('any', sym('this.one')),
    'any of many': fn('any', sym('this.many')),
    'two of fields': fn('two', sym('this.a'), sym('this.one.c')),
    'record of this': fn('a', T),
    'more of this': fn('ab', T),
    'record of one': fn('cd', sym('this.one')),
    'through one': fn('one', T),
    'field and one': fn('a_one', T),
    'deep': fn('deep', T),
    'through many': fn('many', T),
    'list of objects': fn('seq', sym('this.many')),
    'optional object': fn('opt', sym('this.maybe')),
    'optional of one': fn('opt', sym('this.one')),
    'through maybe': fn('maybe', T),
    'inline record': fn('pq', sym('this.rec')),
    'part of a record': fn('p_', sym('this.rec')),
    'through a record': fn('rec', T),
    'list of records': fn('recs', sym('this.recs')),
    'through records': fn('in_recs', T),
    'optional record': fn('optrec', sym('this.opt')),
    'through optional record': fn('in_opt', T),
    'record of an item': ('each', 'x', sym('this.many'), fn('c', sym('x'))),
    'through items': ('each', 'x', sym('this.many'), fn('kids', sym('x'))),
    'items of items': ('each', 'x', sym('this.many'), (
        'each', 'y', sym('x.kids'), fn('a_c', sym('y'), sym('x')))),
    'record of some': ('some', 'x', sym('this.maybe'), fn('cd', sym('x')),
                       fn('a', T)),
    'record of some record': ('some', 'x', sym('this.opt'),
                              fn('pq', sym('x')), fn('pq',
                                                     sym('this.rec'))),
    'item of records': ('each', 'x', sym('this.recs'), fn('p_', sym('x'))),
    'different arguments': fn('a_c', T, sym('this.one')),
    'any, then record': fn('any_c', sym('this.b'), sym('this.one')),
    'record, then any': fn('c_any', sym('this.one'), sym('this.b')),
    'record, then constant': fn('c_any', sym('this.one'), ('k', 3)),
    'three arguments': fn('a_c_any', T, sym('this.one'), sym('this.one.d')),
    'the same twice': fn('a_b', T, T),
    'of root': fn('a_c', T, sym('one')),
    'of root items': ('each', 'x', sym('many'), fn('a_one', sym('x'))),
    'all at once': fn('all', T),
    'call of call': fn('two', fn('a', T), fn('two', fn('c', sym('this.one')),
                                             sym('this.b'))),
    'call with a list': fn('any', ('l', sym('this.a'), sym('this.one.d'))),
    'call with each': fn('any', ('each', 'x', sym('this.many'),
                                 sym('x.c'))),
    'call with each of calls': fn('two', ('each', 'x', sym('this.many'), fn(
        'c', sym('x'))), fn('b', T)),
    'call with some': fn('any', ('some', 'x', sym('this.maybe'), fn(
        'c', sym('x')), sym('this.a'))),
    'call with if': fn('any', ('if', fn('true'), fn('a', T), fn('b', T))),
    'list of calls': ('l', fn('a', T), fn('c', sym('this.one'))),
    'map of calls': ('d', {'x': fn('a', T), 'y': sym('this.one.d')}),
    'map in a list': ('l', ('d', {'x': ('l', sym('this.a'))})),
    'if': ('if', fn('true'), fn('a', T), fn('c', sym('this.one'))),
    'if not': ('if', fn('no'), fn('a', T), fn('c', sym('this.one'))),
    'if of data': ('if', fn('yes', sym('this.b')), sym('this.a'),
                   sym('this.one.c')),
    'if in each': ('each', 'x', sym('this.many'), (
        'if', fn('yes', sym('x.d')), fn('c', sym('x')), fn('a', T))),
    'if of constant': ('if', ('k', False), sym('this.a'), sym('this.b')),
    'function with a slash': fn('x/y', T),
    'function without a name': fn('anon', T),
    'functions without a name': ('l', fn('anon', T), fn(
        'anon2', T, sym('this.one'))),
}


def calls(e):
    """functions get names which do not clash with fields"""
    if e[0] == 'fn':
        n = e[1]
        n = {'true': 'yes_fn', 'no': 'no_fn', 'yes': 'yes_of',
             'anon': 'anon', 'anon2': 'anon2', 'x/y': 'x/y'}.get(
            n, 'fn_' + n)
        return ('fn', n) + tuple(calls(x) for x in e[2:])
    if e[0] == 'k' or e[0] == 's':
        return e
    if e[0] == 'd':
        return ('d', {k: calls(v) for k, v in e[1].items()})
    return tuple(calls(x) if isinstance(x, tuple) else x for x in e)


EXPRS = {k: calls(e) for k, e in EXPRS.items()}
FUNCS = {{'true': 'yes_fn', 'no': 'no_fn', 'yes': 'yes_of', 'anon': 'anon',
          'anon2': 'anon2', 'x/y': 'x/y'}.get(k, 'fn_' + k): v
         for k, v in FUNCS.items()}


def run(c):
    c.rule(R_DATA, 'the data an expression uses is requested from the '
           'low-level graph and it has the value of its definition')
    c.rule(R_OPT, 'an expression sees the values of its own options')
    c.rule(R_ONE, 'expressions of one visit are served by one low-level '
           'query')
    c.rule(R_IDS, 'each expression is evaluated once for each identifier, '
           'results are in the order of identifiers')
    names = list(EXPRS)
    for k in names:
        c.scenario('alone: ' + k, lambda s, k=k: alone(s, [k]), R_DATA)
    for i in range(0, len(names)):
        pick = [names[(i * a + b) % len(names)]
                for a, b in ((1, 0), (7, 3), (11, 5))]
        pick = list(dict.fromkeys(pick))
        c.scenario('together: ' + ', '.join(pick),
                   lambda s, p=pick: together(s, p), R_ONE, cost=2)
    for k in PLAIN:
        c.scenario('plain fields: ' + ' '.join(k),
                   lambda s, k=k: plain(s, k), R_DATA)
    for k in OPTS:
        c.scenario('options: ' + k, lambda s, k=k: options(s, OPTS[k]),
                   R_OPT)
    for n in IDS:
        c.scenario('identifiers: ' + n, lambda s, n=n: idents(s, IDS[n]),
                   R_IDS)
    for mode in ('first', 'last', 'all', 'async'):
        c.scenario('executor: ' + mode, lambda s, m=mode: executor(s, m),
                   R_DATA, cost=3)
    c.scenario('a node of another type', other_node, R_DATA)
    c.scenario('two nodes of one sub-graph', two_nodes, R_ONE)
    c.scenario('one sub-graph under several links', several_links, R_IDS)
    c.scenario('a sub-graph of a sub-graph', stacked, R_DATA)
    c.scenario('a sub-graph beside other fields', beside, R_DATA)
    c.scenario('link required from an expression', required, R_DATA)
    c.scenario('declared with a query', declared, R_DATA)


def alone(s, names):
    w = Exprs(s, FUNCS)
    w.run_fields({'x': (EXPRS[names[0]], {})}, R_DATA)
    once(w, names[0])


def once(w, what, rule=R_ONE):
    """every low-level loader of the objects themselves is called once"""
    s = w.s
    for node in ('t', ''):
        got = [n for k, n in w.loads if k == node and not (
            len(n) == 1 and n[0] in LINKS[node])]
        if node == 't':
            # loads of other objects of this type are other visits
            continue
        s.ok(len(got) <= 1, rule, '%s: the fields %s of the low-level root '
             'are loaded in %d calls' % (what, got, len(got)))
    got = [n for n in w.loads if n[0] == '' and n[1][0] in LINKS['']]
    s.ok(len(got) == len(set(got)), rule, '%s: a link of the low-level root '
         'is loaded twice: %s' % (what, got))
    for node, names in w.loads:
        # `id` is required by links
        names = [n for n in names if n != 'id']
        s.ok(len(names) == len(set(names)), rule,
             '%s: a field is requested twice: %s' % (what, names))


LINKS = {n: [f for f, k in fs.items() if isinstance(k, tuple) and k[0] in (
    'one', 'maybe', 'no', 'many', 'none')] for n, fs in LOW.items()}


def together(s, names):
    w = Exprs(s, FUNCS)
    w.run_fields({'x%d' % i: (EXPRS[k], {}) for i, k in enumerate(names)},
                 R_DATA)
    once(w, ' and '.join(names))


PLAIN = [('a',), ('id',), ('a', 'b', 'id'), ('obj',), ('ss',), ('os',),
         ('a', 'ss', 'os', 'obj', 'e')]


def plain(s, names):
    w = Exprs(s, FUNCS)
    w.run_fields({n: (None, {}) for n in names}, R_DATA)
    first = [n for k, n in w.loads if k == 't']
    s.ok(len(first) == 1 and sorted(first[0]) == sorted(names), R_ONE,
         'the fields %s are loaded with %s' % (names, first))
    w.run_fields(dict({n: (None, {}) for n in names},
                      x=(EXPRS['field of one'], {}),
                      y=(EXPRS['record of this'], {})), R_DATA)
    first = [n for k, n in w.loads if k == 't' and not (
        len(n) == 1 and n[0] in LINKS['t'])]
    s.ok(len(first) == 1, R_ONE, 'fields of one object are loaded with %s'
         % (first,))


O = lambda *d: (NONE,) + d
OPTS = {
    'one': {'x': (fn('fn_two', sym('o'), sym('this.a')), {'o': O(1)})},
    'the same name in two fields': {
        'x': (('l', sym('o'), sym('this.a')), {'o': O('x')}),
        'y': (('l', sym('o'), sym('this.b')), {'o': O('y')})},
    'different orders': {
        'x': (('l', sym('o'), sym('n'), sym('m')), {
            'o': O('o'), 'n': O('n'), 'm': O('m')}),
        'y': (('l', sym('o'), sym('n'), sym('m')), {
            'm': O(1), 'n': O(2), 'o': O(3)})},
    'some fields without': {
        'w': (sym('this.a'), {}),
        'x': (sym('o'), {'o': O('x')}),
        'y': (sym('this.b'), {}),
        'z': (('l', sym('n'), sym('this.a')), {'n': O('y'), 'o': O(2)})},
    'named as data': {
        'x': (('l', sym('f'), sym('this.a')), {'f': O('x')}),
        'y': (('l', sym('f'), sym('this.a')), {}),
        'z': (('l', sym('one'), sym('a')), {'one': O(1), 'a': O(2)})},
    'named as data of an object': {
        'x': (('l', sym('a'), sym('this.a'), sym('this.one.c')), {
            'a': O('x')}),
        'y': (('l', sym('this.f'), sym('c')) if False else
              ('l', sym('c'), sym('this.one.c')), {'c': O('c')})},
    'inside of forms': {
        'x': (('each', 'i', sym('this.many'), ('l', sym('o'), sym('i.c'))),
              {'o': O('o')}),
        'y': (('some', 'i', sym('this.maybe'), sym('o'), sym('n')),
              {'o': O('o'), 'n': O('n')}),
        'z': (('if', sym('o'), sym('this.a'), sym('n')),
              {'o': O(False), 'n': O('n')})},
    'false values': {
        'x': (('l', sym('o'), sym('n'), sym('m'), sym('k')), {
            'o': O(0), 'n': O(''), 'm': O(None), 'k': O(False)})},
    'not used': {'x': (sym('this.a'), {'o': O(1), 'n': O(2)}),
                 'y': (sym('n'), {'o': O(1), 'n': O(2)})},
}


def options(s, fields):
    w = Exprs(s, FUNCS)
    fields = {k: v for k, v in fields.items()}
    asked = {}
    for k, (e, o) in fields.items():
        asked[k] = [{}]
        for i, n in enumerate(o):
            asked[k].append({n: 'asked %s' % n, '$as': '%s_%d' % (k, i)})
        if o:
            asked[k].append(dict({n: [n, 'of', k] for n in o},
                                 **{'$as': k + '_all'}))
    w.run_fields(fields, R_OPT, asked)
    s.log.clear()
    w.run_fields(fields, R_OPT)


IDS = {
    'one': (('h', 0, 'x'),),
    'none': (),
    'several': (('h', 2, 'x'), ('h', 0, 'odd'), ('h', 1, 'x'),
                ('h', 3, 'odd')),
    'repeated': (('h', 0, 'x'), ('h', 1, 'odd'), ('h', 0, 'x')),
    'many': tuple(('h', i, 'odd' if i % 3 else 'x') for i in range(12)),
}


def idents(s, ids):
    w = Exprs(s, FUNCS)
    w.IDS = ids
    pick = ('field', 'root field', 'all at once', 'some object',
            'each of each', 'constant')
    if len(set(ids)) < len(ids):
        w.count = False
    w.run_fields({'x%d' % i: (EXPRS[k], {}) for i, k in enumerate(pick)},
                 R_IDS)


def executor(s, mode):
    w = Exprs(s, FUNCS)
    if mode == 'async':
        w.wrap = w.coro
        ex = w.async_executor()
        run = w.execute

        def execute(g, q, e, ctx):
            return M.await_(s.I, run(g, q, ex, ctx))
        w.execute = execute
    else:
        ex = w.scheduler(mode)
    pick = ['field', 'root link', 'all at once', 'some object', 'deep',
            'each of each', 'three arguments']
    fields = {'x%d' % i: (EXPRS[k], {'o': O(1)} if i % 2 else {})
              for i, k in enumerate(pick)}
    if mode == 'async':
        fields = {k: fields[k] for k in ('x0', 'x1', 'x2', 'x3', 'x5')}
    if mode == 'all':
        fields = {k: fields[k] for k in ('x0', 'x1', 'x3', 'x6')}
    w.run_fields(fields, R_DATA, executor=ex)


def other_node(s):
    w = Exprs(s, FUNCS)
    w.run_fields({
        'c': (None, {}), 'x': (fn('fn_cd', T), {}),
        'y': (sym('this.back.a'), {}),
        'z': (('each', 'k', sym('this.kids'), fn('fn_a', sym('k'))), {}),
        'w': (fn('fn_opt', T), {}), 'id': (None, {})}, R_DATA, node='u')


def read_all(w, r, key, terms, fields, rule, node='t'):
    s = w.s
    objs = M.segs_of(w.I, w.read(r, Const(key), rule, 'result'))
    if not s.ok(len(objs) == len(terms), rule, '%s has %d objects'
                % (key, len(objs))):
        return
    from hikustat.exprs import Obj
    for t, o in zip(terms, objs):
        for n, e in fields.items():
            want = w.mean(e or ('.', T, n), {'this': Obj(node, t)})
            got = w.read(o, Const(n), rule, key)
            if got is not None:
                s.same(got, value(s, want), rule, '%s of %s in %s' % (
                    n, flat(t), key))


def two_nodes(s):
    w = Exprs(s, FUNCS)
    low = w.low_graph()
    sg, sg2 = w.sub_graph(low), w.sub_graph(low, 'u')
    f1 = {'x': EXPRS['three arguments'], 'a': None}
    f2 = {'y': fn('fn_kids', T), 'c': None}
    mk = lambda g, fs: [w.field(n, g if e is None else w.compiled(g, e))
                        for n, e in fs.items()]
    ids = [('h', 0, 'x'), ('h', 1, 'odd')]
    link = lambda n, t: w.link(n, 'many', t, w.const_loader(
        n, s.list(*[w.ident(i) for i in ids])))
    g = w.graph(w.node('h1', *mk(sg, f1)), w.node('h2', *mk(sg2, f2)),
                w.root(link('l1', 'h1'), link('l2', 'h2')))
    q = w.qn(w.ql('l1', w.qn(*[w.qf(n) for n in f1])),
             w.ql('l2', w.qn(*[w.qf(n) for n in f2])))
    r = w.execute(g, q)
    read_all(w, r, 'l1', ids, f1, R_ONE)
    read_all(w, r, 'l2', ids, f2, R_ONE, 'u')


def several_links(s):
    w = Exprs(s, FUNCS)
    low = w.low_graph()
    sg = w.sub_graph(low)
    fs = {'x': EXPRS['field and one'], 'a': None, 'y': sym('f')}
    a, b = [('h', 0, 'x'), ('h', 1, 'odd')], [('h', 1, 'odd'),
                                             ('h', 2, 'x')]
    link = lambda n, ids: w.link(n, 'many', 'h', w.const_loader(
        n, s.list(*[w.ident(i) for i in ids])))
    g = w.graph(
        w.node('h', w.link('more', 'many', 'h', w.const_loader(
            'more', s.list(s.list(w.ident(('h', 5, 'x'))),
                           s.list(w.ident(('h', 6, 'odd')),
                                  w.ident(('h', 0, 'x'))))), requires='a'),
            *[w.field(n, sg if e is None else w.compiled(sg, e))
              for n, e in fs.items()]),
        w.root(link('l1', a), link('l2', b)))
    sel = lambda names: w.qn(*[w.qf(n) for n in names])
    q = w.qn(w.ql('l1', w.qn(w.qf('x'), w.ql('more', sel(['y', 'x', 'a'])))),
             w.ql('l2', sel(['x', 'y'])))
    r = w.execute(g, q)
    read_all(w, r, 'l1', a, {'x': fs['x']}, R_IDS)
    read_all(w, r, 'l2', b, {k: fs[k] for k in 'xy'}, R_IDS)
    objs = M.segs_of(w.I, w.read(r, Const('l1'), R_IDS, 'result'))
    for o, ids in zip(objs, ([('h', 5, 'x')], [('h', 6, 'odd'),
                                               ('h', 0, 'x')])):
        read_all(w, o, 'more', ids, fs, R_IDS)


def stacked(s):
    """the low-level graph has expressions of a lower one"""
    w = Exprs(s, FUNCS)
    low = w.low_graph()
    sg = w.sub_graph(low)
    one = {'x': EXPRS['field and one'], 'a': None, 'y': EXPRS['root fields']}
    mid = w.graph(
        w.node('m', *[w.field(n, sg if e is None else w.compiled(sg, e))
                      for n, e in one.items()]),
        w.root(w.field('f', w.root_loader('mid'))))
    top = w.sub_graph(mid, 'm')
    ids = [('h', 0, 'x'), ('h', 1, 'odd')]
    g = w.graph(
        w.node('h', w.field('p', w.compiled(top, ('l', sym('this.x'), sym(
            'f')))), w.field('a', top), w.field('y', top)),
        w.root(w.link('hs', 'many', 'h', w.const_loader(
            'hs', s.list(*[w.ident(i) for i in ids])))))
    r = w.execute(g, w.qn(w.ql('hs', w.qn(w.qf('p'), w.qf('a'),
                                          w.qf('y')))))
    from hikustat.world import val
    objs = M.segs_of(w.I, w.read(r, Const('hs'), R_DATA, 'result'))
    from hikustat.exprs import Obj
    for t, o in zip(ids, objs):
        env = {'this': Obj('t', t)}
        for n, want in (('p', [w.mean(one['x'], env), val(
                'mid', ('c', 'str', 'f'))]),
                ('a', w.mean(sym('this.a'), env)),
                ('y', w.mean(one['y'], env))):
            got = w.read(o, Const(n), R_DATA, flat(t))
            if got is not None:
                s.same(got, value(s, want), R_DATA, '%s of %s' % (
                    n, flat(t)))


def beside(s):
    w = Exprs(s, FUNCS)
    low = w.low_graph()
    sg, sg2 = w.sub_graph(low), w.sub_graph(low)
    ids = [('h', 0, 'x'), ('h', 1, 'odd')]
    nl = w.node_loader('own')
    g = w.graph(
        w.node('h', w.field('u', nl), w.field('x', w.compiled(
            sg, EXPRS['field and one'])), w.field('v', nl),
            w.field('y', w.compiled(sg2, EXPRS['field of one'])),
            w.field('z', w.compiled(sg, EXPRS['root fields']))),
        w.root(w.link('hs', 'many', 'h', w.const_loader(
            'hs', s.list(*[w.ident(i) for i in ids])))))
    r = w.execute(g, w.qn(w.ql('hs', w.qn(*[w.qf(n) for n in 'zuxvy']))))
    fs = {'x': EXPRS['field and one'], 'y': EXPRS['field of one'],
          'z': EXPRS['root fields']}
    read_all(w, r, 'hs', ids, fs, R_DATA)
    from hikustat.world import val
    objs = M.segs_of(w.I, w.read(r, Const('hs'), R_DATA, 'result'))
    for t, o in zip(ids, objs):
        for n in 'uv':
            w.expect(o, Const(n), val('own', ('c', 'str', flat(t)), (
                'c', 'str', n)), R_DATA, 'field of another loader')


def required(s):
    """values of expressions are what links require"""
    w = Exprs(s, FUNCS)
    low = w.low_graph()
    sg = w.sub_graph(low)
    ids = [('h', 0, 'x'), ('h', 1, 'odd')]
    got = []

    def load(tag, args, kw):
        got.append(args[0])
        return s.list(*[s.list(*[w.ident(i) for i in ids[:1]])
                        for _ in ids])
    g = w.graph(
        w.node('h', w.field('k', w.compiled(sg, EXPRS['field and one'])),
               w.field('x', w.compiled(sg, sym('this.b'))),
               w.link('to', 'many', 'h', s.stub(load, tag='to'),
                      requires='k')),
        w.root(w.link('hs', 'many', 'h', w.const_loader(
            'hs', s.list(*[w.ident(i) for i in ids])))))
    r = w.execute(g, w.qn(w.ql('hs', w.qn(w.ql('to', w.qn(w.qf('x')))))))
    from hikustat.exprs import Obj
    if s.ok(len(got) == 1, R_DATA, 'the link is loaded %d times' % len(got)):
        s.same(got[0], value(s, [
            w.mean(EXPRS['field and one'], {'this': Obj('t', t)})
            for t in ids]), R_DATA, 'values required by the link')
    objs = M.segs_of(w.I, w.read(r, Const('hs'), R_DATA, 'result'))
    for o in objs:
        read_all(w, o, 'to', ids[:1], {'x': sym('this.b')}, R_DATA)


def declared(s):
    """types of arguments written as a query"""
    w = Exprs(s, FUNCS)
    types = ({'a': 'any', 'one': {'c': 'any', 'back': {'b': 'any'}}}, 'any',
             {'d': 'any'})
    w.functions['fn_edn'] = types

    def body(args, kw):
        seen = [w.seen(a, t) for a, t in zip(args, types)]
        w.calls.append(('fn_edn', tuple(map(repr, seen))))
        return Tup([Const('call fn_edn')] + seen)
    mk = s.code('''
def mk(body):
    def f(*args):
        return body(*args)
    return f
''', 'mk')
    dec = s.call(s.get('hiku.expr.core:define'), Const(
        '[[:a {:one [:c {:back [:b]}]}] nil [:d]]'), _name=Const('fn_edn'))
    w.fns['fn_edn'] = s.call(dec, s.call(mk, s.stub(body)))
    w.run_fields({'x': (fn('fn_edn', T, sym('this.b'), sym('this.one')), {}),
                  'y': (('each', 'u', sym('this.many'), fn(
                      'fn_edn', T, ('k', 1), sym('u'))), {})}, R_DATA)
