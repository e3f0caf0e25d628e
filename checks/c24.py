"""Symbols of expressions: every expression has the value which lexical
scoping gives it, for the type checker and for the compiled code."""
from hikustat.values import *   # noqa
from hikustat.exprs import Exprs, s as sym, LOW

R_SCOPE = 'C24.scope'
R_TRACE = 'C24.trace'
R_KEEP = 'C24.names'
R_REJ = 'C24.unbound'

ANY1 = ('any',)
FUNCS = {'p': ANY1, 'p2': ('any', 'any'), 'q': ({'c': 'any'},),
         'qt': ({'a': 'any'},), 'yes_fn': (), 'no_fn': (), 'ctx_fn': ANY1,
         'anon': ANY1, 'env': ANY1}

# names of an outer and of an inner binding
PAIRS = [
    ('x', 'x'), ('x', 'y'), ('this', 'x'), ('x', 'this'), ('this', 'this'),
    ('opt', 'x'), ('x', 'opt'), ('opt', 'opt'), ('f', 'x'), ('x', 'f'),
    ('f', 'f'), ('one', 'x'), ('x', 'one'), ('x', 'x_2'), ('x_2', 'x'),
    ('ctx', 'x'), ('x', 'ctx'), ('env', 'x'), ('x', 'env'), ('next', 'x'),
    ('x', 'next'), ('this', 'opt'), ('opt', 'this'), ('this_2', 'this'),
    ('opt_2', 'opt'), ('p', 'x'), ('x', 'p'), ('class', 'x'), ('x', 'get'),
    ('ctx_2', 'ctx'), ('lambda', 'if'), ('x', 'x_'), ('x_', 'x'),
]
BASE = {'this': 't', 'opt': 's', 'f': 's', 'one': 'u'}


def run(c):
    c.rule(R_SCOPE, 'a symbol has the value of the innermost binding of its '
           'name which is visible where it stands')
    c.rule(R_TRACE, 'after its form a binding does not change the meaning of '
           'its name')
    c.rule(R_KEEP, 'whatever the names of bindings, options, functions and '
           'fields are, they do not interfere')
    c.rule(R_REJ, 'a symbol which is not bound where it stands is rejected')
    for f1 in FORMS:
        for f2 in FORMS:
            for place in PLACES[f1]:
                for i in range(0, len(PAIRS), 8):
                    pairs = PAIRS[i:i + 8]
                    c.scenario('%s, %s of %s: %s' % (f2, place, f1, ' '.join(
                        '%s/%s' % p for p in pairs)),
                        lambda s, x=(f1, f2, place, pairs): nested(s, *x),
                        R_SCOPE, cost=2)
    for k in CHAINS:
        c.scenario('three bindings: %s' % ' '.join(k),
                   lambda s, k=k: chain(s, k), R_SCOPE, cost=2)
    for k in AFTER:
        c.scenario('after the binding: ' + k,
                   lambda s, k=k: after(s, *AFTER[k]), R_TRACE)
    for k in OPTIONS:
        c.scenario('options: ' + ' '.join(k),
                   lambda s, k=k: options(s, k), R_KEEP)
    for k in TYPED:
        c.scenario('types: ' + k, lambda s, k=k: typed(s, *TYPED[k]), R_KEEP)
    for k in UNBOUND:
        c.scenario('not bound: ' + k, lambda s, k=k: unbound(s, UNBOUND[k]),
                   R_REJ)


READ = {'t': 'a', 'u': 'c'}


def read(name, kind):
    return sym(name) if kind == 's' else sym(name + '.' + READ[kind])


def probe(scope):
    """every name visible here"""
    return ('l',) + tuple(read(n, k) for n, k in scope.items())


def each_(var, scope, src, body):
    """bind the items of src, a sequence"""
    obj, kind = src
    col = '.'.join([obj, {'t': 'many', 'u': 'kids'}[kind]])
    item = {'t': 'u', 'u': 't'}[kind]
    return ('each', var, sym(col), body(dict(scope, **{var: item})))


def some_(var, scope, src, body, other=None):
    obj, kind = src
    item = {'t': 'u', 'u': 't'}[kind]
    return ('some', var, sym(obj + '.maybe'),
            body(dict(scope, **{var: item})), (other or probe)(scope))


def none_(var, scope, src, body, other=None):
    """never present: the other branch"""
    obj, kind = src
    item = {'t': 'u', 'u': 't'}[kind]
    if kind == 'u':
        return some_(var, scope, src, body, other)
    return ('some', var, sym(obj + '.no'),
            probe(dict(scope, **{var: item})), (other or body)(scope))


FORMS = {'each': each_, 'if_some': some_, 'if_some of none': none_}
PLACES = {
    'each': ['body', 'list after', 'list before', 'argument', 'if'],
    'if_some': ['body', 'else', 'list after', 'argument', 'if'],
    'if_some of none': ['else', 'list before'],
}


def source(scope, prefer):
    """an object to bind something of"""
    for n in prefer:
        if scope.get(n) in ('t', 'u'):
            return n, scope[n]
    for n, k in scope.items():
        if k in ('t', 'u'):
            return n, k


def build(f1, f2, place, v1, v2):
    F1, F2 = FORMS[f1], FORMS[f2]
    scope = dict(BASE)
    src = ('this', 't')

    def inner(sc):
        # of the innermost object of that name, and of `this`
        x = F2(v2, sc, source(sc, [v1]), probe)
        return ('l', probe(sc), x, probe(sc))
    if place == 'body':
        return F1(v1, scope, src, inner)
    if place == 'else':
        return F1(v1, scope, src, probe, inner)
    if place == 'list after':
        return ('l', F1(v1, scope, src, probe), inner(scope), probe(scope))
    if place == 'list before':
        return ('d', {'b': inner(scope), 'a': F1(v1, scope, src, probe)})
    if place == 'argument':
        return F1(v1, scope, src, lambda sc: sc.get('p2') or (
            'fn', 'p2', F2(v2, sc, source(sc, [v1]), probe), probe(sc)))
    return F1(v1, scope, src, lambda sc: (
        'if', ('fn', 'yes_fn'), F2(v2, sc, source(sc, [v1]), probe),
        probe(sc)))


def opts():
    return {'opt': (NONE, 'option value')}


def nested(s, f1, f2, place, pairs):
    w = Exprs(s, FUNCS)
    fields = {}
    for i, (v1, v2) in enumerate(pairs):
        e = build(f1, f2, place, v1, v2)
        fields['x%d_%s_%s' % (i, v1, v2)] = (e, opts())
    w.run_fields(fields, R_SCOPE)


CHAINS = [('x', 'x', 'x'), ('x', 'x_2', 'x'), ('x', 'y', 'x'),
          ('x_2', 'x', 'x'), ('x', 'x', 'x_2'), ('x', 'x', 'y'),
          ('x', 'x_3', 'x'), ('this', 'this', 'this'), ('opt', 'x', 'opt'),
          ('this_2', 'this', 'this'), ('ctx', 'env', 'next'),
          ('x', 'x_2', 'x_3'), ('x', 'x_2', 'x_2'), ('f', 'one', 'this')]


def chain(s, names):
    w = Exprs(s, FUNCS)
    a, b, c = names
    fields = {}
    for i, (f1, f2, f3) in enumerate([
            ('each', 'each', 'each'), ('if_some', 'each', 'if_some'),
            ('each', 'if_some', 'each'), ('if_some', 'if_some', 'if_some')]):
        def third(sc):
            return ('l', FORMS[f3](c, sc, source(sc, [b]), probe), probe(sc))

        def second(sc):
            return ('l', FORMS[f2](b, sc, source(sc, [a]), third), probe(sc))
        fields['c%d' % i] = (FORMS[f1](a, dict(BASE), ('this', 't'), second),
                             opts())
    w.run_fields(fields, R_SCOPE)


EACH = lambda v, body=None: ('each', v, sym('this.many'),
                             body or sym(v + '.c'))
SOME = lambda v, body=None: ('some', v, sym('this.maybe'),
                             body or sym(v + '.c'), ('k', None))
# the binding, what follows it
AFTER = {}
for _n, _f in (('each', EACH), ('if_some', SOME)):
    AFTER.update({
        _n + ' and a function of its name':
            (_f('p'), ('fn', 'p', sym('this.a'))),
        _n + ' and the field of its name': (_f('f'), sym('f')),
        _n + ' and the link of its name': (_f('one'), sym('one.c')),
        _n + ' and this': (_f('this'), sym('this.a')),
        _n + ' and the option of its name': (_f('opt'), sym('opt')),
        _n + ' and a function with the field of its name':
            (_f('one'), ('fn', 'q', sym('one'))),
    })


def after(s, binding, rest):
    w = Exprs(s, FUNCS)
    fn = ('fn', 'p', ('k', 1))
    w.run_fields({
        'after': (('l', binding, rest), opts()),
        'before': (('l', rest, binding, rest), opts()),
        'keys': (('d', {'f': binding, 'opt': rest}), opts()),
        'twice': (('l', binding, binding, rest), opts()),
        'args': (('fn', 'p2', binding, rest), opts()),
        'cond': (('if', ('fn', 'yes_fn'), ('l', binding, rest), fn), opts()),
        'branch': (('if', ('fn', 'no_fn'), binding, rest), opts()),
        'under': (EACH('z', ('l', binding, rest)), opts()),
        'else': (('some', 'z', sym('this.maybe'), binding, rest), opts()),
    }, R_TRACE)


OPTIONS = [('x',), ('ctx',), ('env',), ('next',), ('x', 'ctx', 'env'),
           ('x_2', 'x'), ('this_2',), ('f',), ('one', 'many'), ('rec',),
           ('class', 'def'), ('a', 'b', 'c'), ('x', 'x_'), ('b', 'B', '_b')]


def options(s, names):
    w = Exprs(s, FUNCS)
    o = {n: (NONE, 'default of ' + n) for n in names}
    scope = dict(BASE)
    scope.pop('opt')
    scope.update({n: 's' for n in names})
    two = lambda sc: each_('x', sc, ('x', sc['x']), probe)
    fields = {
        'all': (probe(scope), o),
        'call': (('fn', 'p2', sym(names[0]), sym('this.a')), o),
        'in_each': (each_('y', scope, ('this', 't'), probe), o),
        'hidden': (each_(names[0], scope, ('this', 't'), probe), o),
        'in_some': (some_('y', scope, ('this', 't'), probe), o),
        'hidden_some': (some_(names[0], scope, ('this', 't'), probe), o),
        'deep': (each_('x', scope, ('this', 't'), two), o),
        'unused': (sym('this.a'), o),
        'none': (('l', sym('this.a'), sym('f')), {}),
    }
    asked = {'all': [{}, dict({n: 'asked for ' + n for n in names},
                              **{'$as': 'all2'})],
             'in_each': [{names[-1]: 'asked'}]}
    w.run_fields(fields, R_KEEP, asked)


UNBOUND = {
    'after each': ('l', EACH('x'), sym('x.c')),
    'in the collection of each': ('each', 'x', sym('x.many'), ('k', 1)),
    'in the else branch of if_some':
        ('some', 'x', sym('this.maybe'), ('k', 1), sym('x.c')),
    'in the value of if_some':
        ('some', 'x', sym('x.maybe'), ('k', 1), ('k', 2)),
    'after if_some': ('l', SOME('x'), sym('x.c')),
    'nowhere': sym('nowhere'),
    'field of the object without this': sym('a'),
    'in an argument': ('fn', 'p', sym('nowhere')),
    'missing field': sym('this.nowhere'),
    'missing field of a variable': EACH('x', sym('x.a')),
    'missing field for a function': ('fn', 'q', sym('this')),
    'a field of an option named as a link': (
        sym('one.c'), {'one': (NONE, 1)}),
    'items of an option named as a link': (
        ('each', 'x', sym('many'), sym('x.a')), {'many': (NONE, 1)}),
    'function of another object': EACH('x', ('fn', 'qt', sym('x'))),
}


# an option of a type named as something of another type
TYPED = {
    'a record named as a field': ('f', {'p': 'any'}, {'p': 1},
                                  sym('f.p')),
    'a record named as a link': ('one', {'p': 'any'}, {'p': 1},
                                 ('fn', 'rp', sym('one'))),
    'a list named as a link': ('one', ('seq', {'p': 'any'}),
                               [{'p': 1}, {'p': 2}],
                               ('each', 'x', sym('one'), sym('x.p'))),
    'an optional record': ('x', ('opt', {'p': 'any'}), {'p': 1}, (
        'some', 'y', sym('x'), sym('y.p'), ('k', 2))),
    'no optional record': ('x', ('opt', {'p': 'any'}), None, (
        'some', 'y', sym('x'), sym('y.p'), ('k', 2))),
    'a record as a variable': ('f', {'p': 'any'}, {'p': 1}, EACH(
        'x', ('l', sym('f.p'), sym('x.c')))),
    'a list hidden by a variable': ('x', ('seq', {'p': 'any'}), [{'p': 1}], (
        'each', 'x', sym('x'), sym('x.p'))),
    'a list named as a variable before': (
        'x', ('seq', {'p': 'any'}), [{'p': 1}], (
            'l', EACH('x'), ('each', 'y', sym('x'), sym('y.p')))),
}


def typed(s, name, type_, v, e):
    w = Exprs(s, dict(FUNCS, rp=({'p': 'any'},)))
    t = w.type_of(type_)
    w.run_fields({'x': (e, {name: (t, v)}), 'y': (
        ('l', e, sym('this.a')), {'z': (NONE, 1), name: (t, v)})}, R_KEEP,
        {'x': [{}, {name: v, '$as': 'x2'}]})


def unbound(s, e):
    w = Exprs(s, FUNCS)
    e, o = e if isinstance(e[1], dict) else (e, {})
    exc, g = s.raises(lambda: w.high_graph({'x': (e, o)}))
    s.ok(exc is not None, R_REJ, 'a graph with this expression is accepted')
