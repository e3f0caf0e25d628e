"""GraphQL documents are read completely and faithfully."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, nm
from hikustat.qspec import F, L, compare, value

R_SEL = 'C19.selections'
R_VAR = 'C19.variables'
R_REJ = 'C19.rejected'
R_OPS = 'C19.operation'
READ = 'hiku.readers.graphql:read'
READ_OP = 'hiku.readers.graphql:read_operation'

FR = ' fragment F on R '
DOCS = {
    'fields': ('{ a b c }', [F('a'), F('b'), F('c')]),
    'links': ('{ a k { x } j { y z k { w } } }', [
        F('a'), L('k', F('x')), L('j', F('y'), F('z'), L('k', F('w')))]),
    'deep': ('{ k { k { k { k { k { a } } } } b } }', [
        L('k', L('k', L('k', L('k', L('k', F('a'))))), F('b'))]),
    'aliases': ('{ x: a y: a a k1: k { p: x } k2: k { x } k { y } }', [
        F('a', 'x'), F('a', 'y'), F('a'), L('k', F('x', 'p'), alias='k1'),
        L('k', F('x'), alias='k2'), L('k', F('y'))]),
    'swapped aliases': ('{ a: b b: a }', [F('b', 'a'), F('a', 'b')]),
    'alias equal to the name': ('{ a: a k: k { x } }', [
        F('a'), L('k', F('x'))]),
    'arguments': (
        '{ a(i: 1, s: "x", f: 1.5, b: true, c: false, n: null, e: EN) '
        'k(i: -3, s: "") { x(l: [1, [2, "z"], []], '
        'o: {x: 1, y: {z: [true, {w: null}]}, e: {}}) } }',
        [F('a', i=1, s='x', f=1.5, b=True, c=False, n=None, e='EN'),
         L('k', F('x', l=[1, [2, 'z'], []],
                  o={'x': 1, 'y': {'z': [True, {'w': None}]}, 'e': {}}),
           i=-3, s='')]),
    'numbers': ('{ a(p: 0) b(p: -7) c(p: 12345678901234567890) d(p: 0.0) '
                'e(p: 1e3) f(p: -2.5E-1) }', [
                    F('a', p=0), F('b', p=-7),
                    F('c', p=12345678901234567890), F('d', p=0.0),
                    F('e', p=1000.0), F('f', p=-0.25)]),
    'strings': (r'{ a(p: "q\"\\\u0041\n") b(p: "$x") c(p: "1") '
                'd(p: """block "text" """) }', [
                    F('a', p='q"\\A\n'), F('b', p='$x'), F('c', p='1'),
                    F('d', p='block "text" ')]),
    'similar arguments': ('{ x: a(p: 1) y: a(p: "1") z: a(p: true) '
                          'w: a(p: null) v: a(p: [1]) u: a(p: 1.0) a }', [
                              F('a', 'x', p=1), F('a', 'y', p='1'),
                              F('a', 'z', p=True), F('a', 'w', p=None),
                              F('a', 'v', p=[1]), F('a', 'u', p=1.0),
                              F('a')]),
    'fragment': ('{ a ...F c }' + FR + '{ b k { x } }', [
        F('a'), F('b'), L('k', F('x')), F('c')]),
    'fragment before the operation': (
        'fragment F on R { b k { x } } { a ...F c }', [
            F('a'), F('b'), L('k', F('x')), F('c')]),
    'fragment in a link': ('{ k { ...F } j { y ...F } }' + FR + '{ x }', [
        L('k', F('x')), L('j', F('y'), F('x'))]),
    'fragments in fragments': (
        '{ ...F } fragment G on R { k { ...H } c } fragment H on R { x y }'
        + FR + '{ a ...G k { z } }', [
            F('a'), L('k', F('x'), F('y'), F('z')), F('c')]),
    'a fragment used in two ways': (
        '{ ...F ...G } fragment H on R { x } fragment G on R { ...H b }'
        + FR + '{ ...H a }', [F('x'), F('a'), F('b')]),
    'a fragment used at two depths': (
        '{ ...F k { ...F } }' + FR + '{ a }', [F('a'), L('k', F('a'))]),
    'a fragment used many times': (
        '{ k { ...F } j { x ...F } ...G ...F k2: k { ...F } } '
        'fragment G on R { ...F i { ...F } ... on R { h { ...F ...F } } }' +
        FR + '{ a z: b m { y } }', [
            L('k', F('a'), F('b', 'z'), L('m', F('y'))),
            L('j', F('x'), F('a'), F('b', 'z'), L('m', F('y'))),
            F('a'), F('b', 'z'), L('m', F('y')),
            L('i', F('a'), F('b', 'z'), L('m', F('y'))),
            L('h', F('a'), F('b', 'z'), L('m', F('y'))),
            L('k', F('a'), F('b', 'z'), L('m', F('y')), alias='k2')]),
    'fragment merges with fields': (
        '{ a k { x } ...F k { z } }' + FR + '{ a k { y } k2: k { y } }', [
            F('a'), L('k', F('x'), F('y'), F('z')),
            L('k', F('y'), alias='k2')]),
    'arguments in fragments': (
        '{ ...F }' + FR + '{ a(p: 1) k(q: 2) { b(r: "3") } }', [
            F('a', p=1), L('k', F('b', r='3'), q=2)]),
    'inline fragments': (
        '{ a ... on R { b k { ... on K { x } } } ... { c } }', [
            F('a'), F('b'), L('k', F('x')), F('c')]),
    'inline fragments in fragments': (
        '{ ...F } ' + FR + '{ ... on R { a ... on R { b } } c }', [
            F('a'), F('b'), F('c')]),
    'typename': ('{ __typename k { __typename x } }', [
        F('__typename'), L('k', F('__typename'), F('x'))]),
    'named operation': ('query Foo { a }', [F('a')]),
    'explicit query': ('query { a }', [F('a')]),
    'unused fragment': ('{ a }' + FR + '{ b }', [F('a')]),
}

# document, variables ({name: given value}), selections; '$x' stands for the
# value given
V = 'query ($x: T, $y: T) '
TOK = object()
NO = object()
VARS = {
    'argument': (V + '{ a(p: $x) b(p: $y) }', {'x': TOK, 'y': TOK}, None,
                 lambda x, y: [F('a', p=x), F('b', p=y)]),
    'swapped names': (V + '{ a(x: $y, y: $x) }', {'x': TOK, 'y': TOK}, None,
                      lambda x, y: [F('a', x=y, y=x)]),
    'argument of a link': (V + '{ k(p: $x) { a(q: $x, r: $y) } }',
                           {'x': TOK, 'y': TOK}, None,
                           lambda x, y: [L('k', F('a', q=x, r=y), p=x)]),
    'inside lists and objects': (
        V + '{ a(l: [1, $x, [$y]], o: {k: $x, n: {m: [$y]}}) }',
        {'x': TOK, 'y': TOK}, None,
        lambda x, y: [F('a', l=[1, x, [y]], o={'k': x, 'n': {'m': [y]}})]),
    'in a fragment': (
        V + '{ ...F } ' + FR + '{ a(p: $x) k(p: $y) { b(q: [$x]) } }',
        {'x': TOK, 'y': TOK}, None,
        lambda x, y: [F('a', p=x), L('k', F('b', q=[x]), p=y)]),
    'in nested fragments': (
        V + '{ k { ...F } j { ...F } } fragment G on R { c(p: $y) }' + FR +
        '{ a(p: $x) ... on R { ...G } }', {'x': TOK, 'y': TOK}, None,
        lambda x, y: [L('k', F('a', p=x), F('c', p=y)),
                      L('j', F('a', p=x), F('c', p=y))]),
    'not provided': (V + '{ a(p: $x, q: $y) }', {'y': TOK}, None,
                     lambda x, y: [F('a', p=None, q=y)]),
    'default': ('query ($x: T = 7, $y: T = "d") { a(p: $x, q: $y) }', {},
                None, lambda x, y: [F('a', p=7, q='d')]),
    'default and value': (
        'query ($x: T = 7, $y: T = "d") { a(p: $x, q: $y) }', {'y': TOK},
        None, lambda x, y: [F('a', p=7, q=y)]),
    'composed default': (
        'query ($x: T = [1, {a: [E, null]}], $y: T = {}) '
        '{ a(p: $x, q: $y) }', {}, None,
        lambda x, y: [F('a', p=[1, {'a': ['E', None]}], q={})]),
    'defaults of a list': (
        'query ($x: [T] = 7, $y: [T!] = null) { a(p: $x, q: $y) }', {}, None,
        lambda x, y: [F('a', p=7, q=None)]),
    'defaults of lists': (
        'query ($x: [[T]] = [[1], null, []], $y: [T]! = []) '
        '{ a(p: $x, q: $y) }', {}, None,
        lambda x, y: [F('a', p=[[1], None, []], q=[])]),
    'falsy default': ('query ($x: T! = 0, $y: T = false) '
                      '{ a(p: $x, q: $y) }', {}, None,
                      lambda x, y: [F('a', p=0, q=False)]),
    'null default': ('query ($x: T = null, $y: T = null) '
                     '{ a(p: $x, q: $y) }', {}, None,
                     lambda x, y: [F('a', p=None, q=None)]),
    'falsy values': ('query ($x: T = 7, $y: T! = "d") { a(p: $x, q: $y) }',
                     {'x': 0, 'y': ''}, None,
                     lambda x, y: [F('a', p=0, q='')]),
    'false and empty values': (
        'query ($x: T = 7, $y: T!) { a(p: $x, q: $y) }',
        {'x': False, 'y': []}, None, lambda x, y: [F('a', p=False, q=[])]),
    'null provided': ('query ($x: T = 7, $y: T) { a(p: $x, q: $y) }',
                      {'x': None, 'y': None}, None,
                      lambda x, y: [F('a', p=None, q=None)]),
    'required provided': ('query ($x: T!, $y: [T!]!) { a(p: $x, q: $y) }',
                          {'x': TOK, 'y': TOK}, None,
                          lambda x, y: [F('a', p=x, q=y)]),
    'required with a default': (
        'query ($x: T! = 5, $y: [T!]) { a(p: $x, q: $y) }', {}, None,
        lambda x, y: [F('a', p=5, q=None)]),
    'undeclared variables given': (
        'query ($x: T) { a(p: $x) }', {'x': TOK, 'y': TOK, 'z': TOK}, None,
        lambda x, y: [F('a', p=x)]),
    'no variables mapping': ('query ($x: T = 1, $y: T) { a(p: $x, q: $y) }',
                             NO, None, lambda x, y: [F('a', p=1, q=None)]),
    'null for the variables mapping': (
        'query ($x: T = 1, $y: T) { a(p: $x, q: $y) }', None, None,
        lambda x, y: [F('a', p=1, q=None)]),
    'variables of the chosen operation': (
        'query A($x: T = 1) { a(p: $x) } query B($x: T = 2) { b(p: $x) }',
        {}, 'B', lambda x, y: [F('b', p=2)]),
    'a variable used twice': (V + '{ k { a(p: $x) } j { b(p: $x) } }',
                              {'x': TOK}, None, lambda x, y: [
                                  L('k', F('a', p=x)), L('j', F('b', p=x))]),
}

BAD = {
    'required variable missing': ('query ($x: T!) { a(p: $x) }', {}, None),
    'required list missing': ('query ($x: [T]!) { a(p: $x) }', {'y': 1},
                              None),
    'required variable missing, no mapping': (
        'query ($x: T!) { a(p: $x) }', NO, None),
    'required variable missing, unused': ('query ($x: T!) { a }', {}, None),
    'second variable missing': (
        'query ($y: T, $x: T!, $z: T = 1) { a(p: $x) }', {'y': 1, 'z': 2},
        None),
    'required variable of the chosen operation': (
        'query A { a } query B($x: T!) { a(p: $x) }', {}, 'B'),
    'undeclared variable': ('{ a(p: $x) }', {}, None),
    'undeclared variable, value given': ('{ a(p: $x) }', {'x': 1}, None),
    'undeclared variable in a list': ('query ($y: T) { a(p: [$x]) }',
                                      {'x': 1}, None),
    'undeclared variable in an object': (
        'query ($y: T) { k(p: {q: $x}) { a } }', {'x': 1}, None),
    'undeclared variable in a fragment': (
        'query ($y: T) { ...F }' + FR + '{ k { a(p: $x) } }', {'x': 1},
        None),
    'undeclared variable in a directive': (
        '{ a @skip(if: $x) }', {'x': False}, None),
    'variable of another operation': (
        'query A($x: T) { a(p: $x) } query B { b(p: $x) }', {'x': 1}, 'B'),
    'cyclic fragment': ('{ ...F }' + FR + '{ a ...F }', {}, None),
    'cyclic fragment through a link': ('{ ...F }' + FR + '{ k { ...F } }',
                                       {}, None),
    'cyclic fragments': (
        '{ a ...F } fragment G on R { b ...H } fragment H on R { c ...F }'
        + FR + '{ ...G }', {}, None),
    'cyclic fragments used twice': (
        '{ k { ...G } j { ...F } } fragment G on R { b ... on R { ...F } }'
        + FR + '{ k { ...G } }', {}, None),
    'duplicated fragment': (
        '{ ...F } fragment F on R { b }' + FR + '{ a }', {}, None),
    'duplicated fragment, equal': (
        '{ ...F } fragment F on R { a }' + FR + '{ a }', {}, None),
    'unknown fragment': ('{ a ...F }', {}, None),
    'unknown fragment in a fragment': ('{ ...F }' + FR + '{ a ...G }', {},
                                       None),
    'unknown fragment in a link': (
        '{ k { ...G } }' + FR + '{ a ...F }', {}, None),
    'fragment named like an operation': ('query Q { ...Q }', {}, None),
    'no operation': ('fragment F on R { a }', {}, None),
    'ambiguous operation': ('query A { a } query B { b }', {}, None),
    'ambiguous operation, one unnamed': ('{ a } query B { b }', {}, None),
    'unknown operation': ('query A { a } query B { b }', {}, 'C'),
    'unknown operation of one': ('query A { a }', {}, 'B'),
    'operation name for an unnamed one': ('{ a }', {}, 'A'),
    'operation name of a fragment': ('{ a }' + FR + '{ b }', {}, 'F'),
    'duplicated operation': ('query A { a } query A { b }', {}, 'A'),
    'duplicated unnamed operation': ('{ a } { b }', {}, None),
}

OPS = {
    'named of two': ('query A { a } query B { b }', 'B', 'QUERY', 'B', 'b'),
    'first named of two': ('query A { a } query B { b }', 'A', 'QUERY', 'A',
                           'a'),
    'named of one': ('query A { a }', 'A', 'QUERY', 'A', 'a'),
    'named of three': ('mutation M { m } query A { a } query B { b }', 'M',
                       'MUTATION', 'M', 'm'),
    'the only one, named': ('query A { a }', None, 'QUERY', 'A', 'a'),
    'the only one': ('{ a }', None, 'QUERY', None, 'a'),
    'mutation': ('mutation { a }', None, 'MUTATION', None, 'a'),
    'named mutation': ('query A { a } mutation B { b }', 'B', 'MUTATION',
                       'B', 'b'),
    'subscription': ('subscription S { a }', None, 'SUBSCRIPTION', 'S', 'a'),
    'named besides an unnamed one': ('{ a } mutation B { b }', 'B',
                                     'MUTATION', 'B', 'b'),
}


def run(c):
    c.rule(R_SEL, 'every selection of the operation is in the query once, '
           'with its alias, arguments and selections, fragments expanded in '
           'place')
    c.rule(R_VAR, 'a variable is the provided value, else the default, else '
           'null')
    c.rule(R_REJ, 'missing required and undeclared variables, cyclic, '
           'duplicated and unknown fragments, ambiguous and unknown '
           'operations are rejected')
    c.rule(R_OPS, 'the operation is the named one or the only one')
    for name, (doc, want) in DOCS.items():
        c.scenario('document: %s' % name,
                   lambda s, d=doc, w=want: document(s, d, w), R_SEL, doc)
        c.scenario('document: %s, operation' % name,
                   lambda s, d=doc, w=want: document(s, d, w, READ_OP),
                   R_SEL, doc)
        if doc.startswith('{') or doc.startswith('query'):
            c.scenario('document: %s, mutation' % name,
                       lambda s, d=doc, w=want: document(
                           s, d, w, READ_OP, True), R_SEL, doc)
    for name, a in VARS.items():
        for fn in (READ, READ_OP):
            c.scenario('variables: %s%s' % (name, '' if fn is READ else
                                            ', operation'),
                       lambda s, a=a, fn=fn: variables(s, fn, *a), R_VAR,
                       a[0])
    for name, a in BAD.items():
        for fn in (READ, READ_OP):
            c.scenario('rejected: %s%s' % (name, '' if fn is READ else
                                           ', operation'),
                       lambda s, a=a, fn=fn: rejected(s, fn, *a), R_REJ,
                       a[0])
    for name, a in OPS.items():
        c.scenario('operation: %s' % name,
                   lambda s, a=a: operation(s, *a), R_OPS, a[0])
    c.scenario('any number of selections', stars, R_SEL)
    c.scenario('any number of arguments', star_args, R_SEL)
    c.scenario('any number of variables', star_vars, R_VAR)


def document(s, doc, want, fn=READ, mutation=False):
    gql.install(s)
    if mutation:
        # the same text as a mutation: its order counts
        doc = 'mutation ' + doc if doc.startswith('{') else \
            doc.replace('query', 'mutation', 1)
    q = s.call(s.get(fn), Const(doc))
    if fn is READ_OP:
        q = s.attr(q, 'query')
    compare(s, q, want, R_SEL, order=mutation)


def given(s, vs):
    toks = {'x': s.name_('vx'), 'y': s.name_('vy'), 'z': s.name_('vz')}
    return {k: toks[k] if v is TOK else value(s, v) for k, v in vs.items()}


def read(s, fn, doc, vs, op):
    gql.install(s)
    env = given(s, vs or {}) if vs is not NO else {}
    args = []
    kw = {}
    if vs is not NO:
        args.append(NONE if vs is None else s.dict(**env))
    if op is not None:
        kw['operation_name'] = Const(op)
    q = s.call(s.get(fn), Const(doc), *args, **kw)
    if fn is READ_OP:
        q = s.attr(q, 'query')
    return env, q


def variables(s, fn, doc, vs, op, want):
    env, q = read(s, fn, doc, vs, op)
    compare(s, q, want(env.get('x'), env.get('y')), R_VAR)


def rejected(s, fn, doc, vs, op):
    exc, r = s.raises(lambda: read(s, fn, doc, vs, op))
    if s.ok(exc is not None, R_REJ, 'the document is accepted'):
        s.ok(s.is_exc(exc, 'TypeError', 'ValueError', 'NotImplementedError'),
             R_REJ, 'reading fails with %s' % s.show(exc))


def operation(s, doc, name, type_, got_name, field):
    gql.install(s)
    op = s.call(s.get(READ_OP), Const(doc), NONE, Const(name))
    want = s.attr(s.get('hiku.readers.graphql:OperationType'), type_)
    s.ok(s.same3(s.attr(op, 'type'), want), R_OPS,
         'the type of the operation is %s' % s.show(s.attr(op, 'type')))
    s.same(s.attr(op, 'name'), Const(got_name), R_OPS,
           'name of the operation')
    compare(s, s.attr(op, 'query'), [F(field)], R_OPS)
    exc, q = s.raises(lambda: s.call(s.get(READ), Const(doc), NONE,
                                     Const(name)))
    if type_ == 'QUERY':
        s.ok(exc is None, R_OPS, 'read() raises %s' % s.show(exc))
        if exc is None:
            compare(s, q, [F(field)], R_OPS)
    else:
        s.ok(exc is not None and s.is_exc(exc, 'TypeError', 'ValueError'),
             R_OPS, 'read() accepts a %s' % type_.lower())


def names_of(s, node):
    return s.call(s.code('def names(fs):\n    return [f.name for f in fs]',
                         'names'), s.attr(node, 'fields'))


def stars(s):
    gql.install(s)
    doc = lambda t: s.star(t, lambda x: s.name_('f' + t, x))
    q = s.attr(s.call(s.get(READ_OP), Const(
        'mutation { star_A ...F k { star_B a } ... on R { star_C } } '
        'fragment F on R { star_D b }')), 'query')
    s.same(names_of(s, q), s.list(doc('A'), doc('D'), Const('b'), Const('k'),
                                  doc('C')), R_SEL,
           'selections in the order of the document')
    for f in M.segs_of(s.I, s.attr(q, 'fields')):
        if not isinstance(f, Star) and s.attr(f, 'name') == Const('k'):
            got = names_of(s, s.attr(f, 'node'))
            s.same(M.length(s.I, got), M.length(s.I, s.list(
                doc('B'), Const('a'))), R_SEL, 'number of selections of k')


def star_args(s):
    gql.install(s)
    w = World(s)
    q = s.call(s.get(READ), Const(
        'query ($v: T) { a(star_P: $v, q: 1) k(star_Q: [1, {x: $v}]) { x } '
        '}'), s.dict(v=s.name_('vv')))
    fs = {s.attr(f, 'name').v: f for f in M.segs_of(
        s.I, s.attr(q, 'fields'))}
    want = s.dict_of([])
    for f, t, v in (('a', 'P', s.name_('vv')),
                    ('k', 'Q', value(s, [1, {'x': s.name_('vv')}]))):
        o = s.attr(fs[f], 'options')
        s.each(s.list(s.star(t, lambda x: s.name_('f' + t, x))),
               lambda n: has(s, o, n, v, f))
    has(s, s.attr(fs['a'], 'options'), Const('q'), Const(1), 'a')


def has(s, o, name, v, f):
    exc, r = s.raises(lambda: M.getitem(s.I, o, name))
    if s.ok(exc is None, R_SEL, 'an argument of %s is lost' % f):
        s.same(r, v, R_SEL, 'argument of %s' % f)


def star_vars(s):
    """any number of variables, given ones"""
    gql.install(s)
    vs = s.call(s.code(
        'def pairs(ns):\n    return {n: (n,) for n in ns}', 'pairs'),
        s.list(s.star('X', lambda x: s.name_('fX', x))))
    exc, q = s.raises(lambda: s.call(s.get(READ), Const(
        'query ($y: T = 1) { star_X }'), vs))
    s.ok(exc is None, R_VAR, 'the document is rejected')
