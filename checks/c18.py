"""@skip and @include: a field, fragment spread or inline fragment is part of
the query exactly if no @skip condition is true and no @include condition is
false."""
from hikustat.values import *   # noqa
from hikustat import models as M, gql
from hikustat.world import World, nm

R_IN = 'C18.included'
R_OUT = 'C18.skipped'
R_ARG = 'C18.arguments'
READ = 'hiku.readers.graphql:read'
READ_OP = 'hiku.readers.graphql:read_operation'

# the places a directive can stand at: document with %s, the result names
# which are selected if the directive says so, the ones selected always
PLACES = {
    'field': ('{ b a %s c }', ['a'], ['b', 'c']),
    'only field': ('{ b k { a %s } }', ['k/a'], ['b', 'k']),
    'field with an alias and arguments': (
        '{ b x: a(p: 1) %s a }', ['x'], ['b', 'a']),
    'link': ('{ b k %s { x y } }', ['k', 'k/x', 'k/y'], ['b']),
    'field of a link': ('{ k { x %s y } b }', ['k/x'], ['k', 'k/y', 'b']),
    'fragment spread': ('{ b ...F %s } fragment F on R { a k { x } }',
                        ['a', 'k', 'k/x'], ['b']),
    'inline fragment': ('{ b ... on R %s { a k { x } } }',
                        ['a', 'k', 'k/x'], ['b']),
    'inline fragment without a type': ('{ b ... %s { a } }', ['a'], ['b']),
    'field of a fragment': ('{ b ...F } fragment F on R { a %s c }',
                            ['a'], ['b', 'c']),
    'link of a fragment': ('{ b ...F } fragment F on R { k %s { x } c }',
                           ['k', 'k/x'], ['b', 'c']),
    'spread in a fragment': (
        '{ b ...F } fragment F on R { c ...G %s } fragment G on R { a }',
        ['a'], ['b', 'c']),
    'inline fragment in a fragment': (
        '{ b ...F } fragment F on R { c ... on R %s { a } }',
        ['a'], ['b', 'c']),
    'field of an inline fragment': ('{ b ... on R { a %s c } }', ['a'],
                                    ['b', 'c']),
    'fragment used twice': (
        '{ b k { ...F %s } j { ...F } } fragment F on R { a }',
        ['k/a'], ['b', 'k', 'j', 'j/a']),
    'field of a fragment used twice': (
        '{ k { ...F } j { ...F } } fragment F on R { a %s c }',
        ['k/a', 'j/a'], ['k', 'j', 'k/c', 'j/c']),
    'field selected twice': ('{ a %s b a }', [], ['a', 'b']),
    'link selected twice': ('{ k { x } k %s { y } }', ['k/y'],
                            ['k', 'k/x']),
}

# directives, the condition in terms of the variables
CONDS = {
    '': [],
    '@skip(if: true)': [('skip', True)],
    '@skip(if: false)': [('skip', False)],
    '@include(if: true)': [('include', True)],
    '@include(if: false)': [('include', False)],
    '@skip(if: $a)': [('skip', 'a')],
    '@include(if: $a)': [('include', 'a')],
    '@skip(if: $d)': [('skip', 'd')],
    '@include(if: $d)': [('include', 'd')],
    '@skip(if: $a) @include(if: $b)': [('skip', 'a'), ('include', 'b')],
    '@include(if: $a) @skip(if: $b)': [('include', 'a'), ('skip', 'b')],
    '@skip(if: false) @include(if: $b)': [('skip', False), ('include', 'b')],
    '@include(if: true) @skip(if: $b)': [('include', True), ('skip', 'b')],
    '@skip(if: $a) @include(if: true)': [('skip', 'a'), ('include', True)],
    '@include(if: $a) @skip(if: $a)': [('include', 'a'), ('skip', 'a')],
    '@skip(if: false) @include(if: false)': [
        ('skip', False), ('include', False)],
    '@include(if: false) @skip(if: false)': [
        ('skip', False), ('include', False)],
    '@include(if: true) @skip(if: true)': [
        ('skip', True), ('include', True)],
    '@other(if: true) @skip(if: $a)': [('skip', 'a')],
    '@other @include(if: $a) @other2(x: 1)': [('include', 'a')],
}

WRONG = ['@skip', '@include', '@skip(if: false, x: 1)',
         '@include(if: true, x: 1)', '@skip(unless: false)',
         '@include(unless: true)', '@skip(if: false) @include(unless: true)',
         '@skip(if: false) @include', '@include(if: true) @skip',
         '@include(if: true) @skip(unless: false)',
         '@skip(if: $a) @include(x: $a)', '@include(if: $a) @skip(x: $a)',
         '@include(If: true)', '@skip(IF: false)', '@skip(x: $a, if: $a)']


def run(c):
    c.rule(R_IN, 'a selection without a true @skip and without a false '
           '@include is part of the query')
    c.rule(R_OUT, 'a selection with a true @skip or a false @include is not '
           'part of the query')
    c.rule(R_ARG, 'a directive with a wrong number or name of arguments is '
           'rejected')
    for place, (doc, sel, other) in PLACES.items():
        for d, conds in CONDS.items():
            for fn in (READ, READ_OP):
                if fn is READ_OP and len(conds) < 2 and place != 'field':
                    continue
                c.scenario('%s, %s%s' % (
                    place, d, fn is READ_OP and ', operation' or ''),
                    lambda s, a=(doc, sel, other, d, conds, fn): cond(s, *a),
                    R_IN, doc % d)
        for d in WRONG:
            c.scenario('%s, %s' % (place, d),
                       lambda s, a=(doc, d): wrong(s, *a), R_ARG, doc % d)


HEAD = 'query ($a: Boolean!, $b: Boolean!, $d: Boolean = %s) '


def source(s, doc, d, default='true'):
    gql.install(s)
    w = World(s)
    head = HEAD % default if '$' in d else ''
    vs = s.dict(a=s.tok('va', ty='bool'), b=s.tok('vb', ty='bool'))
    return w, Const(head + doc % d), vs


def paths(w, node, prefix=''):
    s = w.s
    out = []
    for f in M.segs_of(s.I, s.attr(node, 'fields')):
        key = s.attr(f, 'alias')
        key = (s.attr(f, 'name') if key == NONE else key).v
        out.append(prefix + key)
        if M.isinstance_(s.I, f, s.get('hiku.query:Link')):
            out += paths(w, s.attr(f, 'node'), prefix + key + '/')
    return out


def cond(s, doc, sel, other, d, conds, fn):
    for default in ('true', 'false'):
        if default == 'false' and '$d' not in d:
            break
        w, src, vs = source(s, doc, d, default)
        env = {'a': s.item(vs, Const('a')), 'b': s.item(vs, Const('b')),
               'd': Const(default == 'true')}
        exc, q = s.raises(lambda: s.call(s.get(fn), src, vs))
        if exc is not None:
            s.ok(False, R_IN, 'the document is rejected: %s' % s.show(exc))
            return
        if fn is READ_OP:
            q = s.attr(q, 'query')
        want = True
        for name, v in conds:
            v = Const(v) if isinstance(v, bool) else env[v]
            if s.I.truth(v) == (name == 'skip'):
                want = False
        got = paths(w, q)
        for p in sel:
            if want:
                s.ok(p in got, R_IN, '%s is not selected' % p)
            else:
                s.ok(p not in got, R_OUT, '%s is selected' % p)
        for p in other:
            s.ok(p in got, R_IN, '%s, which has no directive, is not '
                 'selected' % p)
        for p in got:
            s.ok(p in sel or p in other, R_OUT, '%s is selected' % p)


def wrong(s, doc, d):
    w, src, vs = source(s, doc, d)
    exc, q = s.raises(lambda: s.call(s.get(READ), src, vs))
    first = d.split(')')[0]
    if exc is None and '$a' in first:
        # the other directive has excluded the selection already
        t = s.I.truth(s.item(vs, Const('a')))
        if t == first.startswith('@skip'):
            return
    s.ok(exc is not None and s.is_exc(exc, 'TypeError', 'ValueError'), R_ARG,
         'the document is accepted' if exc is None else
         'it raises %s' % s.show(exc))
