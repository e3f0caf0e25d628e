"""Merging queries: every distinct selection (name, options, result name)
exactly once, links merged recursively, ordered if any input is, in the order
of first appearance then."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, nm

R_ALL = 'C09.complete'
R_NEW = 'C09.invented'
R_ONCE = 'C09.once'
R_ORD = 'C09.ordered'

F = lambda name, alias=None, **o: ('f', name, alias, o or None, None)
L = lambda name, *sub, alias=None, ordered=False, **o: (
    'l', name, alias, o or None, (ordered, list(sub)))
N = lambda *fs, ordered=False: (ordered, list(fs))

CASES = {
    'disjoint fields': [N(F('a'), F('b')), N(F('c'))],
    'equal fields': [N(F('a'), F('b')), N(F('b'), F('a'))],
    'duplicates in one node': [N(F('a'), F('a'), L('k', F('x')),
                                 L('k', F('y')))],
    'duplicates inside a link': [N(L('k', F('x'), F('x'), L('m', F('y')),
                                   L('m', F('z')), F('x')))],
    'no nodes': [],
    'empty nodes': [N(), N(F('a')), N()],
    'aliases': [N(F('a'), F('a', 'b')), N(F('a', 'c'), F('a', 'b'))],
    'alias is the name': [N(F('a'), L('k', F('x'))),
                          N(F('a', 'a'), L('k', F('y'), alias='k'))],
    'alias is the name first': [N(F('a', 'a'), L('k', F('y'), alias='k')),
                                N(F('a'), L('k', F('x')))],
    'alias is another name': [N(F('a'), F('b', 'a')), N(F('a', 'b'))],
    'options': [N(F('a', p=1), F('a')), N(F('a', p=2), F('a', p=1))],
    'option names': [N(F('a', p=1)), N(F('a', q=1))],
    'similar options': [N(F('a', p=1), F('a', p='1')), N(F('a', p=True))],
    'minus one': [N(F('a', p=-1)), N(F('a', p=-2))],
    'options and aliases': [N(F('a', 'x', p=1), F('a', 'y', p=1)),
                            N(F('a', 'x', p=2), F('a', 'x', p=1))],
    'options of links': [N(L('k', F('x'), p=1)), N(L('k', F('y'), p=2)),
                         N(L('k', F('z'), p=1), L('k', F('w')))],
    'aliases of links': [N(L('k', F('x'), alias='p')),
                         N(L('k', F('y'), alias='q'), L('k', F('w'))),
                         N(L('k', F('z'), alias='p'))],
    'field and link of one name': [N(F('a'), L('a', F('x'))),
                                   N(L('a', F('y')), F('a'))],
    'link then field of one name': [N(L('a', F('x'))), N(F('a'))],
    'field then link of one name': [N(F('a')), N(L('a', F('x')))],
    'deep links': [
        N(L('k', F('a'), L('m', F('b'), L('n', F('c'))))),
        N(L('k', L('m', L('n', F('d'), F('c')), F('e')), F('a'))),
        N(L('k', L('m', L('n2', F('f'))), L('o', F('g'))), F('h'))],
    'deep options': [
        N(L('k', L('m', F('b', p=1), p=1))),
        N(L('k', L('m', F('b', p=2), p=1), L('m', F('b'), p=2)))],
    'links without fields': [N(L('k')), N(L('k', F('a'))), N(L('k'))],
    'three nodes': [N(F('a'), L('k', F('x'))), N(L('k', F('y')), F('b')),
                    N(F('c'), L('k', F('x'), F('z')), F('a'))],
    'interleaved': [N(L('k', F('x')), F('a'), L('j', F('x')), F('b')),
                    N(F('c'), L('j', F('y')), F('a'), L('k', F('y')))],
    'interleaved inside a link': [
        N(L('r', L('k', F('x')), F('a'))),
        N(L('r', L('j', F('y')), F('a'), L('k', F('y')), F('b'))),
        N(L('r', F('c')))],
    'same sub-selection under two links': [
        N(L('k', F('x')), L('j', F('x'))), N(L('j', F('y')))],
}


def run(c):
    c.rule(R_ALL, 'every selection of every query is in the merged query')
    c.rule(R_NEW, 'the merged query holds selections of the queries only')
    c.rule(R_ONCE, 'every distinct selection appears once')
    c.rule(R_ORD, 'the merged query is ordered exactly if one of the queries '
           'is, and then keeps the order of first appearance')
    for name, nodes in CASES.items():
        for flags in ('', 'first', 'last', 'all', 'inner', 'inner last'):
            if flags and not nodes:
                continue
            c.scenario('%s%s' % (name, flags and ', %s ordered' % flags),
                       lambda s, n=nodes, f=flags: const_case(s, n, f),
                       R_ALL)
    c.scenario('any number of shared fields', star_shared, 'C09.complete')
    c.scenario('any number of queries and fields', stars, R_ALL)
    c.scenario('any number of equal links', star_links, R_ALL)


def flagged(nodes, flags):
    out = []
    for i, (o, fs) in enumerate(nodes):
        o = flags == 'all' or flags == 'first' and i == 0 or \
            flags == 'last' and i == len(nodes) - 1
        if flags.startswith('inner') and i == (
                0 if flags == 'inner' else len(nodes) - 1):
            fs = [x if x[4] is None else x[:4] + ((True, x[4][1]),)
                  for x in fs]
        out.append((o, fs))
    return out


def build(w, node):
    def item(x):
        kind, name, alias, o, sub = x
        opts = w.s.dict(**{k: Const(v) for k, v in o.items()}) \
            if o else NONE
        if kind == 'f':
            return w.qf(name, opts, alias)
        return w.ql(name, build(w, sub), opts, alias)
    return w.qn(*[item(x) for x in node[1]], ordered=node[0])


def key(x):
    o = tuple(sorted((k, type(v).__name__, v) for k, v in x[3].items())) \
        if x[3] else ()
    return x[0], x[1], x[2] or x[1], o


def merged(nodes):
    """the expected selections: ordered, [(key, sub-selections)]"""
    out = {}
    for o, fs in nodes:
        for x in fs:
            out.setdefault(key(x), []).append(x[4])
    return any(o for o, fs in nodes), {
        k: merged(v) if k[0] == 'l' else None for k, v in out.items()}


def const_case(s, nodes, flags):
    w = World(s)
    nodes = flagged(nodes, flags)
    args = [build(w, n) for n in nodes]
    for wrap in (lambda: s.list(*args), lambda: Tup(args)):
        m = s.call(s.get('hiku.query:merge'), wrap())
        compare(w, m, merged(nodes), 'query')


def options_key(w, o):
    I = w.I
    o = I.resolve(o)
    if o == NONE:
        return ()
    out = []
    for e in I.o(o).data:
        v = I.resolve(e.val)
        out.append((e.key.v, type(v.v).__name__, v.v))
    return tuple(sorted(out))


def compare(w, node, want, what):
    s, I = w.s, w.I
    ordered, items = want
    s.same(s.attr(node, 'ordered'), Const(ordered), R_ORD,
           '%s is marked ordered' % what)
    got = []
    for x in M.segs_of(I, s.attr(node, 'fields')):
        link = M.isinstance_(I, x, s.get('hiku.query:Link'))
        name, alias = s.attr(x, 'name'), s.attr(x, 'alias')
        k = ('l' if link else 'f', name.v,
             alias.v if alias != NONE else name.v,
             options_key(w, s.attr(x, 'options')))
        got.append(k)
        if k not in items:
            s.ok(False, R_NEW, '%s selects %s, which none of the merged '
                 'queries does' % (what, text(k)))
            continue
        s.checked += 1
        if link:
            compare(w, s.attr(x, 'node'), items[k], '%s of %s' % (
                k[1], what))
    for k in items:
        n = got.count(k)
        s.ok(n > 0, R_ALL, '%s: %s is lost' % (what, text(k)))
        s.ok(n < 2, R_ONCE, '%s: %s is selected %d times' % (
            what, text(k), n))
    if ordered:
        s.ok(list(dict.fromkeys(got)) == list(items) or
             set(got) != set(items), R_ORD, '%s: selections are ordered as '
             '%s instead of %s' % (what, ' '.join(map(text, got)),
                                   ' '.join(map(text, items))))


def text(k):
    return '%s%s%s%s' % (k[2] + ': ' if k[2] != k[1] else '', k[1],
                         '(%s)' % ', '.join('%s=%r' % (a, v)
                                            for a, t, v in k[3])
                         if k[3] else '', '{}' if k[0] == 'l' else '')


def stars(s):
    """N queries, each with fields of its own and a link to merge"""
    w = World(s)
    own = lambda i: s.star(('F', i), lambda x: w.qf(s.name_('own', i, x)))
    q = s.star('N', lambda i: w.qn(own(i), w.ql(
        'k', w.qn(w.qf(s.name_('in', i)), w.qf('x')))))
    m = s.call(s.get('hiku.query:merge'), s.list(q))
    fields = s.attr(m, 'fields')
    names = collect(w, fields)
    each(w, names, s.star('N', lambda i: s.star(('F', i), lambda x: s.name_(
        'own', i, x))), 'field')
    each(w, names, Const('k'), 'link')
    subs = [x for x in M.segs_of(s.I, fields) if not isinstance(x, Star)
            and M.isinstance_(s.I, x, s.get('hiku.query:Link'))]
    if s.ok(len(subs) == 1, R_ONCE, 'the link is selected %d times'
            % len(subs)):
        inner = collect(w, s.attr(s.attr(subs[0], 'node'), 'fields'))
        each(w, inner, s.star('N', lambda i: s.name_('in', i)), 'field of k')
        each(w, inner, Const('x'), 'field of k')
        s.same(M.length(s.I, s.attr(s.attr(subs[0], 'node'), 'fields')),
               M.length(s.I, s.list(s.star('N', lambda i: s.name_('in', i)),
                                    Const('x'))), R_ONCE,
               'number of fields of k')


def star_shared(s):
    """two queries with the same fields, any number of them"""
    w = World(s)
    shared = lambda: s.star('G', lambda x: w.qf(s.name_('shared', x)))
    m = s.call(s.get('hiku.query:merge'), s.list(
        w.qn(shared(), w.qf('a')), w.qn(w.qf('b'), shared())))
    fields = s.attr(m, 'fields')
    names = collect(w, fields)
    each(w, names, s.star('G', lambda x: s.name_('shared', x)), 'field')
    each(w, names, Const('a'), 'field')
    each(w, names, Const('b'), 'field')
    s.same(M.length(s.I, fields), M.length(s.I, s.list(
        s.star('G', lambda x: s.name_('shared', x)), Const('a'),
        Const('b'))), R_ONCE, 'number of fields')


def star_links(s):
    """N different links, each in two queries"""
    w = World(s)
    half = lambda name: w.qn(s.star('K', lambda x: w.ql(
        s.name_('k', x), w.qn(w.qf(name), w.qf('both')))))
    m = s.call(s.get('hiku.query:merge'), s.list(half('a'), half('b')))
    fields = s.attr(m, 'fields')
    each(w, collect(w, fields), s.star('K', lambda x: s.name_('k', x)),
         'link')
    s.same(M.length(s.I, fields), M.length(s.I, s.list(
        s.star('K', lambda x: s.name_('k', x)))), R_ONCE, 'number of links')

    def one(l):
        inner = collect(w, s.attr(s.attr(l, 'node'), 'fields'))
        for n in ('a', 'b', 'both'):
            each(w, inner, Const(n), 'field of each link')
    s.each(fields, one)


def collect(w, fields):
    d = w.I.new_dict()
    w.s.each(fields, lambda f: M.dict_set(w.I, d, w.s.attr(f, 'name'), f))
    return d


def each(w, names, seg, what):
    w.I.seg(seg, lambda n: w.s.ok(M.contains(w.I, names, n), R_ALL,
                                  '%s %s is lost' % (what, w.s.show(n))))
