"""A graph definition is rejected with GraphValidationError exactly when it is
inconsistent, before anything else uses it."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, nm

R_BAD = 'C17.rejected'
R_GOOD = 'C17.accepted'
R_FIRST = 'C17.before_use'

# members: ('f', name, opts), ('l', name, card, node, requires, opts),
# ('n', name, members), ('r', members), ('o', name), ('w', value)


def F(name, *opts):
    return ('f', name, opts)


def L(name, node='a', card='one', requires=None, opts=()):
    return ('l', name, card, node, requires, opts)


def N(name, *members):
    return ('n', name, members)


def R(*members):
    return ('r', members)


def O(name):
    return ('o', name)


class W:
    """a value of a wrong kind"""

    def __init__(self, what):
        self.what = what


def X(n, kind):
    """any number of valid members"""
    return ('*', n, kind)


GOOD = {
    'empty graph': [],
    'empty root': [R()],
    'empty node': [N('a'), R(F('f'))],
    'no root': [N('a', F('x'), L('me'))],
    'fields and links': [N('a', F('x'), F('y'), L('b1', 'b', 'many'),
                           L('me', 'a', 'maybe', 'x')),
                         N('b', F('x'), L('a', 'a', 'one', 'x')),
                         R(F('x'), L('a', 'a'), L('bs', 'b', 'many'))],
    'forward links': [R(L('l', 'a')), N('a', L('l', 'b')), N('b', F('x'))],
    'requires a field declared later': [N('a', L('l', 'a', 'one', 'x'),
                                          F('x'))],
    'root requires': [N('a', F('x')), R(F('i'), L('l', 'a', 'many', 'i'))],
    'root requires a field of another root': [
        N('a', F('x')), R(F('i')), R(L('l', 'a', 'many', 'i'))],
    'root requires a field of a later root': [
        N('a', F('x')), R(L('l', 'a', 'many', 'i')), R(F('i'))],
    'several roots': [R(F('f')), N('a', F('f')), R(F('g')), R(L('h'))],
    'same names in nodes': [N('a', F('f'), L('l')), N('b', F('f'), L('l')),
                            R(F('f'), L('l'))],
    'field named as a node': [N('a', F('a'), L('b')), R(F('b'), L('a'))],
    'options': [N('a', F('f', O('p'), O('q')), F('g', O('p')),
                  L('l', opts=(O('p'), O('q')))),
                R(F('f', O('p')), L('l', opts=(O('p'),)))],
    'any number': [X('N', 'nodes'), N('a', X('F', 'fields'), F('x'),
                                      X('L', 'links'), X('Q', 'requires')),
                   R(X('F', 'fields'), F('x'), X('L', 'links'),
                     X('Q', 'requires'))],
    'any number of options': [N('a', F('f', X('O', 'options')),
                                L('l', opts=(X('O', 'options'),))),
                              R(F('f', X('O', 'options')))],
    'any number of roots': [N('a'), X('R', 'roots'), R(F('f'))],
    'data types': [N('a', F('f')), R(F('d'))],
}

WRONG = {'a string': 's', 'None': None, 'a number': 1, 'a node': N('w'),
         'a root': R(), 'a field': F('w'), 'a link': L('w'),
         'an option': O('w'), 'a dict': {}, 'a list': [], 'a type': int}
IN_GRAPH = ('a string', 'None', 'a number', 'a field', 'a link', 'an option',
            'a dict', 'a list', 'a type')
IN_NODE = ('a string', 'None', 'a number', 'a node', 'a root', 'an option',
           'a dict', 'a list', 'a type')
IN_OPTS = ('a string', 'None', 'a number', 'a node', 'a root', 'a field',
           'a link', 'a dict', 'a list', 'a type')

A = N('a', F('x'))


def places(members):
    """a faulty list of members in every place"""
    yield 'first node', [N('n', *members), A, R(F('f'))]
    yield 'last node', [A, R(F('f'), L('l')), N('b', F('x')),
                        N('n', *members)]
    yield 'the only node', [N('a', *members)]
    yield 'root', [A, R(*members)]
    yield 'second root', [A, R(F('f')), N('b'), R(*members)]
    yield 'root before nodes', [R(*members), A]
    yield 'among any number of nodes', [X('N', 'nodes'), A,
                                        N('n', *members), R(F('f'))]


def surround(m):
    """a faulty member among others"""
    yield '', [m]
    yield ', last', [F('v'), L('u'), m]
    yield ', first', [m, F('v'), L('u')]
    yield ', among any number', [X('F', 'fields'), m, X('L', 'links')]


def bad():
    for n, ms in (
            ('two fields', [F('d'), F('d')]),
            ('field and link', [F('d'), L('d')]),
            ('link and field', [L('d'), F('d')]),
            ('two links', [L('d'), L('d', 'a', 'many')]),
            ('apart', [F('d'), F('v'), L('u'), F('d')]),
            ('three', [F('d'), F('d'), L('d')]),
            ('two pairs', [F('d'), F('e'), F('e'), F('d')]),
            ('around any number', [F('d'), X('F', 'fields'), F('d')]),
            ('after any number', [X('F', 'fields'), X('L', 'links'), F('d'),
                                  L('d')]),
            ('twice any number', [X('F', 'fields'), F('q'),
                                  X('F', 'fields')])):
        for p, items in places(ms):
            yield 'duplicated names: %s, %s' % (n, p), items
    for n, rs in (('fields', [R(F('d')), R(F('d'))]),
                  ('field and link', [R(F('d')), R(L('d'))]),
                  ('apart', [R(F('d'), F('e')), R(F('g')), R(F('h'),
                                                             L('d'))]),
                  ('any number', [R(X('F', 'fields'), F('d')),
                                  R(X('L', 'links')), R(F('d'))])):
        yield 'duplicated names across roots: %s' % n, [A] + rs
        yield 'duplicated names across roots: %s, nodes between' % n, \
            rs[:1] + [A] + rs[1:]
    for n, items in (
            ('two', [A, N('d', F('x')), N('d', F('y'))]),
            ('apart', [N('d'), A, R(F('f')), N('b'), N('d')]),
            ('linked', [N('d', L('l', 'd')), N('d', L('l', 'd'))]),
            ('three', [N('d'), N('d'), N('d')]),
            ('among any number', [X('N', 'nodes'), A, N('d'), N('d')]),
            ('around any number', [N('d'), A, X('N', 'nodes'), N('d')]),
            ('no root', [N('d'), N('d')])):
        yield 'duplicated nodes: %s' % n, items
    for card in ('one', 'maybe', 'many'):
        for target in ('missing', 'f', 'root', 'Dt', '__root__'):
            if card != 'one' and target != 'missing':
                continue
            for sn, ms in surround(L('bad', target, card)):
                for p, items in places(ms):
                    if p == 'the only node' and len(ms) > 1:
                        items = items + [N('b')]
                    yield '%s link to a missing node %s%s, %s' % (
                        card, target, sn, p), items
    for req in ('missing', 'x', 'a', ''):
        for sn, ms in surround(L('bad', 'a', 'many', req)):
            for p, items in places(ms):
                if p == 'the only node':
                    items = [N('a', *ms)]
                yield 'link requires a missing field %r%s, %s' % (
                    req, sn, p), items
    yield 'link requires a field of the root', [
        A, N('n', L('bad', 'a', 'one', 'f')), R(F('f'))]
    yield 'link requires a field of the target', [
        A, N('n', L('bad', 'a', 'one', 'x')), R(F('x'))]
    # nothing else in the graph
    for n, ms in (('two fields', [F('d'), F('d')]),
                  ('three fields', [F('d'), F('v'), F('d'), F('d')]),
                  ('any number', [F('d'), X('F', 'fields'), F('d')])):
        yield 'duplicated names: %s, the only root' % n, [R(*ms)]
    yield 'duplicated names across roots: two fields, nothing else', [
        R(F('d')), R(F('d'))]
    yield 'link to a missing node, the only member', [R(L('l', 'nope'))]
    yield 'link to a missing node, the only node', [N('n', L('l', 'nope'))]
    yield 'link to a missing node, no fields', [N('n'), R(L('l', 'nope'))]
    yield 'link requires a missing field, the only member', [
        N('n', L('l', 'n', 'one', 'nope'))]
    yield 'link requires a missing field, empty node', [
        N('n'), R(L('l', 'n', 'one', 'nope'))]
    for k in ('None', 'a node', 'an option'):
        yield '%s in a node, the only root' % k, [R(W(WRONG[k]))]
        yield '%s in a node, the second of two roots' % k, [
            R(F('f')), R(W(WRONG[k]))]
    for k in ('None', 'a field'):
        yield '%s in options, the only root' % k, [R(F('f', W(WRONG[k])))]
    for k in IN_GRAPH:
        w = W(WRONG[k])
        for n, items in (('only', [w]), ('first', [w, A, R(F('f'))]),
                         ('last', [A, R(F('f')), w]),
                         ('among any number', [X('N', 'nodes'), A, w])):
            yield '%s in a graph, %s' % (k, n), items
    for k in IN_NODE:
        for sn, ms in surround(W(WRONG[k])):
            for p, items in places(ms):
                yield '%s in a node%s, %s' % (k, sn, p), items
    for k in IN_OPTS:
        for sn, os in (('', (W(WRONG[k]),)),
                       (', last', (O('p'), O('q'), W(WRONG[k]))),
                       (', first', (W(WRONG[k]), O('p'))),
                       (', among any number', (X('O', 'options'),
                                               W(WRONG[k])))):
            for m, of in ((F('bad', *os), 'field'),
                          (L('bad', opts=os), 'link')):
                for p, items in places([F('v'), m]):
                    yield '%s in options of a %s%s, %s' % (k, of, sn, p), \
                        items + [A] * (p == 'the only node'
                                       and of == 'link' and False)


def run(c):
    c.rule(R_BAD, 'building a graph from an inconsistent definition raises '
           'GraphValidationError')
    c.rule(R_GOOD, 'building a graph from a consistent definition succeeds')
    c.rule(R_FIRST, 'nothing of an inconsistent definition is used before '
           'it is rejected')
    for name, items in GOOD.items():
        for wrap in (False, True):
            c.scenario('accepts: %s%s' % (name, ', loaders with hooks'
                                          * wrap),
                       lambda s, a=(items, wrap): good(s, *a), R_GOOD)
    for name, items in bad():
        c.scenario('rejects: %s' % name, lambda s, a=items: bad_(s, a),
                   R_BAD)
        if c.tier == 'thorough' or ' first node' in name \
                or 'graph' in name or 'across' in name:
            c.scenario('rejects: %s, loaders with hooks' % name,
                       lambda s, a=items: bad_(s, a, True), R_FIRST)


LOADER = '''
class Loader:
    def __init__(self, hook):
        self.hook = hook

    def __call__(self, *args):
        return self.hook('call')

    def __postprocess__(self, obj):
        self.hook('postprocess')
'''


class W17(World):

    def __init__(self, s, hooks=False):
        super().__init__(s)

        def fn(tag, args, kw):
            s.emit('used', *args)
            return NONE
        self.fn = s.stub(fn, tag='hook')
        if hooks:
            self.fn = s.call(s.code(LOADER, 'Loader'), self.fn)

    def obj(self, x):
        s = self.s
        if isinstance(x, W):
            if isinstance(x.what, tuple):
                return self.obj(x.what)
            if x.what is int:
                return s.get('hiku.types:Integer')
            if isinstance(x.what, dict):
                return s.dict()
            if isinstance(x.what, list):
                return s.list()
            return Const(x.what)
        if x[0] == 'f':
            return self.field(x[1], self.fn, s.get('hiku.types:Integer'),
                              options=s.list(*map(self.obj, x[2])))
        if x[0] == 'l':
            return self.link(x[1], x[2], x[3], self.fn, requires=x[4],
                             options=s.list(*map(self.obj, x[5])))
        if x[0] == 'n':
            return self.node(x[1], *map(self.obj, x[2]))
        if x[0] == 'r':
            return self.root(*map(self.obj, x[1]))
        if x[0] == 'o':
            return self.option(x[1])
        kind, n = x[2], x[1]
        t = lambda i: s.name_(n.lower(), i)
        return s.star(n, {
            'nodes': lambda i: self.node(t(i), self.obj(F('x')),
                                         self.obj(L('y'))),
            'roots': lambda i: self.root(self.field(t(i), self.fn)),
            'fields': lambda i: self.field(t(i), self.fn),
            'links': lambda i: self.link(t(i), 'many', 'a', self.fn),
            'requires': lambda i: self.link(t(i), 'one', 'a', self.fn,
                                            requires='x'),
            'options': lambda i: self.option(t(i)),
        }[kind])

    def make(self, items):
        s = self.s
        rec = s.item(s.get('hiku.types:Record'), s.dict(
            x=s.get('hiku.types:Integer')))
        objs = [self.obj(x) for x in items]
        return s.raises(lambda: self.graph(*objs, data_types=s.dict(Dt=rec)))


def good(s, items, hooks):
    w = W17(s, hooks)
    exc, g = w.make(items)
    s.ok(exc is None, R_GOOD, 'building the graph raises %s' % (
        exc is not None and s.I.exc_name(exc)))


def bad_(s, items, hooks=False):
    w = W17(s, hooks)
    exc, g = w.make(items)
    if s.ok(exc is not None, R_BAD, 'the definition is accepted'):
        s.ok(s.is_exc(exc, 'hiku.validate.graph:GraphValidationError'), R_BAD,
             'building the graph raises %s' % s.I.exc_name(exc))
    used = s.events('used')
    s.ok(not used, R_FIRST, 'a loader of the definition is used')
