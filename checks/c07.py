"""Options: before any loader runs, every selection of a field or link with
declared options carries exactly the declared options - the value of the query
if given, the default otherwise; without either the query fails with TypeError
and no loader is called; a link's loader receives the options exactly when the
link declares some."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, val, nm
from hikustat.driver import describe_exc
from checks.c01 import idents
from checks.c02 import executor

R_VAL = 'C07.value'
R_ALL = 'C07.complete'
R_REQ = 'C07.required'
R_ARG = 'C07.argument'

FALSY = (('none', NONE), ('zero', Const(0)), ('false', Const(False)),
         ('empty', Const('')))
PLACES = ('root field', 'node field', 'root link', 'node link',
          'node link required', 'root link required', 'complex field',
          'deep field', 'deep link', 'own field', 'own link')


def run(c):
    c.rule(R_VAL, 'the value given in the query, else the default')
    c.rule(R_ALL, 'exactly the declared options')
    c.rule(R_REQ, 'a declared option with neither value nor default fails '
           'the query with TypeError before any loader is called')
    c.rule(R_ARG, 'a loader of a link gets the options if and only if the '
           'link declares options')
    for place in PLACES:
        for mode in ('sync', 'last'):
            for ordered in (False, True):
                c.scenario('%s, %s%s' % (place, mode,
                                         ', ordered' * ordered),
                           lambda s, a=(place, mode, ordered): ok_case(s, *a),
                           R_VAL, 'any number of given, defaulted and '
                           'undeclared options, falsy values and defaults')
            for missing in ('only', 'among', 'none given', 'last of star',
                            'null query'):
                c.scenario('%s, %s, missing: %s' % (place, mode, missing),
                           lambda s, a=(place, mode, missing):
                           missing_case(s, *a), R_REQ)
        c.scenario('%s without options' % place,
                   lambda s, a=place: plain(s, a), R_ARG)
        c.scenario('%s, nothing given' % place,
                   lambda s, a=place: nothing_given(s, a), R_VAL)
        c.scenario('%s, selected twice' % place,
                   lambda s, a=place: twice(s, a), R_VAL)


def declared(w):
    """declared options: given (P), defaulted (Q), and falsy ones"""
    s = w.s
    out = [s.star('P', lambda x: w.option(s.name_('oP', x))),
           s.star('Q', lambda x: w.option(s.name_('oQ', x),
                                          default=s.tok('dQ', x))),
           s.star('T', lambda x: w.option(s.name_('oT', x),
                                          default=s.tok('dT', x)))]
    for n, v in FALSY:
        out.append(w.option('g_' + n))
        out.append(w.option('gd_' + n, default=s.tok('unused')))
        out.append(w.option('d_' + n, default=v))
    return out


def given(w):
    s, I = w.s, w.I
    d = s.dict()
    for t in ('P', 'T', 'R'):
        s.each(s.list(s.star(t, lambda x, t=t: Tup(
            [s.name_('o' + t, x), s.tok('v' + t, x)]))),
            lambda p: M.dict_set(I, d, p.items[0], p.items[1]))
    for n, v in FALSY:
        M.dict_set(I, d, Const('g_' + n), v)
        M.dict_set(I, d, Const('gd_' + n), v)
    M.dict_set(I, d, Const('undeclared'), s.tok('undeclared'))
    return d


def expected(w):
    s, I = w.s, w.I
    d = s.dict()
    for t, v in (('P', 'v'), ('T', 'v'), ('Q', 'd')):
        s.each(s.list(s.star(t, lambda x, t=t, v=v: Tup(
            [s.name_('o' + t, x), s.tok(v + t, x)]))),
            lambda p: M.dict_set(I, d, p.items[0], p.items[1]))
    for n, v in FALSY:
        for k in ('g_', 'gd_', 'd_'):
            M.dict_set(I, d, Const(k + n), v)
    return d


def build(w, place, options, opts, ordered=False, also=None):
    """graph and query selecting `opt` with the options at the place; loader
    of interest is 'lo'"""
    s = w.s
    sel = {}

    def qsel(kind, o=opts, alias=None):
        if kind == 'field':
            return w.qf('opt', options=o, alias=alias)
        if kind == 'complex':
            return w.ql('opt', w.qn(w.qf('sub')), options=o, alias=alias)
        return w.ql('opt', w.qn(w.qf('x')), options=o, alias=alias)
    kind = ('field' if place.endswith('field') and place != 'complex field'
            else 'complex' if place == 'complex field' else 'link')
    req = 'a' if place.endswith('required') else None
    m = w.node('m', w.field('x', w.node_loader('lx')))
    at_root = place.startswith('root') or place == 'complex field'
    key = lambda f: w.I.term(w.I.getattr(f, 'name'))
    kw = {} if options is None else {'options': s.list(*options)}
    if kind == 'link':
        if at_root:
            fn = w.map_key('lo') if req else w.const_loader(
                'lo', s.list(s.tok('to')))
        elif req:
            fn = w.map_loader('lo', lambda v: s.list(s.tok('to', w.I.term(
                v))))
        else:
            fn = w.const_loader('lo', s.list(s.tok('to')))
        item = w.link('opt', 'many', 'm', fn, requires=req, **kw)
    else:
        fn = (w.root_loader if at_root else w.node_loader)('lo', key)
        item = w.field('opt', fn, **kw)
    la = (w.root_loader if at_root else w.node_loader)('la')
    before = w.field('a', la)
    sels = [w.qf('a'), qsel(kind)]
    if also is not None:
        sels.append(qsel(kind, also, 'again'))
    ids = idents(s, 'I')
    if at_root:
        return (w.graph(m, w.root(before, item)),
                w.qn(*sels, ordered=ordered))
    n = w.node('n', before, item)
    if place.startswith('deep'):
        g = w.graph(m, n, w.node('mid', w.link('d', 'many', 'n', w.map_loader(
            'ld', lambda v: s.list(s.tok('d', w.I.term(v)))), requires='y'),
            w.field('y', w.node_loader('ly'))),
            w.root(w.link('l', 'many', 'mid', w.const_loader(
                'll', s.list(*ids)))))
        return g, w.qn(w.ql('l', w.qn(w.ql('d', w.qn(
            *sels, ordered=ordered)))), ordered=ordered)
    if place.startswith('own'):
        # below a link from a node to itself
        n = w.node('n', before, item, w.link(
            'me', 'many', 'n', w.map_loader('lm', lambda v: s.list(s.tok(
                'me', w.I.term(v)))), requires='y'),
            w.field('y', w.node_loader('ly')))
        g = w.graph(m, n, w.root(w.link('l', 'many', 'n', w.const_loader(
            'll', s.list(*ids)))))
        return g, w.qn(w.ql('l', w.qn(w.ql('me', w.qn(
            *sels, ordered=ordered)))), ordered=ordered)
    g = w.graph(m, n, w.root(w.link('l', 'many', 'n', w.const_loader(
        'll', s.list(*ids)))))
    return g, w.qn(w.ql('l', w.qn(*sels, ordered=ordered)), ordered=ordered)


def received(w, place):
    """the options objects the loader was called with"""
    s = w.s
    out = []
    for e, ns in s.events('load'):
        if e.data[0] != 'lo':
            continue
        args = e.data[1]
        if 'link' in place:
            out.append(args)
        else:
            box = []
            for f in M.segs_of(s.I, args[0]):
                if isinstance(f, Star):
                    s.unknown('selections')
                else:
                    box.append(s.attr(f, 'options'))
            out.append(tuple(box))
    return out


def nargs(place):
    return 1 if place.endswith('required') else 0


def options_of(w, place):
    s = w.s
    calls = received(w, place)
    if not s.ok(len(calls) > 0, R_VAL, 'the loader is not called'):
        return []
    out = []
    for c in calls:
        if 'link' in place:
            if s.ok(len(c) == nargs(place) + 1, R_ARG, 'the loader gets %d '
                    'arguments, expected %d' % (len(c), nargs(place) + 1)):
                out.append(c[-1])
        else:
            out += list(c)
    return out


def compare(w, got, want, what='options'):
    s, I = w.s, w.I
    if got == NONE or not isinstance(I.resolve(got), Ref):
        s.ok(False, R_ALL, '%s: the loader gets %s' % (what, s.show(got)))
        return
    keys = lambda d: M.call_bi(I, 'list', [d], {})

    def one(k):
        has = M.contains(I, got, k)
        if s.ok(has, R_ALL, '%s: option %s is missing' % (what, s.show(k))):
            s.same(M.getitem(I, got, k), M.getitem(I, want, k), R_VAL,
                   '%s: value of %s' % (what, s.show(k)))
    s.each(keys(want), one)
    s.each(keys(got), lambda k: s.ok(
        M.contains(I, want, k), R_ALL, '%s: option %s is not declared' % (
            what, s.show(k))))


def ok_case(s, place, mode, ordered):
    w = World(s)
    g, q = build(w, place, declared(w), given(w), ordered)
    exc, r = s.raises(lambda: w.execute(g, q, executor(w, mode)))
    if not s.ok(exc is None, R_VAL, 'valid options fail: %s' % (
            describe_exc(s.I, s.last_raise) if exc is not None else '')):
        return
    want = expected(w)
    for o in options_of(w, place):
        compare(w, o, want)


def nothing_given(s, place):
    for opts in (NONE, s.dict()):
        w = World(s)
        s.I.trace[:] = []
        ds = [s.star('Q', lambda x: w.option(s.name_('oQ', x),
                                             default=s.tok('dQ', x)))]
        ds += [w.option('d_' + n, default=v) for n, v in FALSY]
        g, q = build(w, place, ds, opts)
        w.execute(g, q)
        want = s.dict()
        s.each(s.list(s.star('Q', lambda x: Tup([s.name_('oQ', x),
                                                 s.tok('dQ', x)]))),
               lambda p: M.dict_set(s.I, want, p.items[0], p.items[1]))
        for n, v in FALSY:
            M.dict_set(s.I, want, Const('d_' + n), v)
        for o in options_of(w, place):
            compare(w, o, want)


def twice(s, place):
    """two selections, each with its own options"""
    w = World(s)
    ds = [w.option('o'), w.option('p', default=s.tok('dp'))]
    g, q = build(w, place, ds, s.dict(o=s.tok('v1')), also=s.dict(
        o=s.tok('v2'), p=s.tok('p2')))
    w.execute(g, q)
    got = options_of(w, place)
    want = [s.dict(o=s.tok('v1'), p=s.tok('dp')),
            s.dict(o=s.tok('v2'), p=s.tok('p2'))]
    if s.ok(len(got) == 2, R_ALL, 'the loader gets %d selections' % len(got)):
        if s.same3(M.getitem(s.I, got[0], Const('o')), s.tok('v2')) is True:
            got.reverse()
        for a, b in zip(got, want):
            compare(w, a, b)


def missing_case(s, place, mode, missing):
    w = World(s)
    decl = declared(w)
    if missing == 'only':
        decl, opts = [w.option('need')], s.dict(other=s.tok('v'))
    elif missing == 'null query':
        decl, opts = [w.option('need')], NONE
    elif missing == 'among':
        decl, opts = decl[:2] + [w.option('need')] + decl[2:], given(w)
    elif missing == 'none given':
        decl, opts = decl[1:2] + [w.option('need')], s.dict()
    else:
        decl, opts = decl + [s.star('N', lambda x: w.option(
            s.name_('oN', x)))], given(w)
    g, q = build(w, place, decl, opts)
    exc, r = s.raises(lambda: w.execute(g, q, executor(w, mode)))
    if s.ok(exc is not None, R_REQ, 'a missing required option is accepted'):
        s.ok(s.is_exc(exc, 'TypeError'), R_REQ, 'a missing option raises %s '
             'instead of TypeError' % describe_exc(s.I, s.last_raise))
    evs = s.events('load')
    s.ok(not evs, R_REQ, 'loader %s is called although a required option is '
         'missing' % (evs[0][0].data[0] if evs else ''))


def plain(s, place):
    """no options declared: the link's loader gets none"""
    for opts in (NONE, s.dict(undeclared=s.tok('v'))):
        w = World(s)
        s.I.trace[:] = []
        g, q = build(w, place, None, opts)
        w.execute(g, q)
        for c in received(w, place):
            if 'link' in place:
                s.ok(len(c) == nargs(place), R_ARG, 'the loader of a link '
                     'without options gets %d arguments, expected %d' % (
                         len(c), nargs(place)))
            else:
                s.ok(len(c) == 1, R_ALL, 'number of selections')
