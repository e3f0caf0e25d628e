"""Validation reports every query with an invalid selection, at any depth,
reports nothing about valid ones, and never raises."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World, nm
from hikustat.qspec import F, L, value

R_BAD = 'C15.reported'
R_GOOD = 'C15.accepted'
R_RAISE = 'C15.never_raises'

REC = ('rec', {'p': 'Integer', 'q': 'String', 'any': 'Any',
               'sc': ('ref', 'Sc'), 'li': ('seq', 'Integer'),
               'di': ('map', 'String', 'Integer'),
               'in': ('rec', {'v': 'Integer', 'w': 'Integer'}),
               'ins': ('seq', ('rec', {'v': 'Integer', 'w': 'Integer'})),
               'oin': ('opt', ('rec', {'v': 'Integer', 'w': 'Integer'})),
               'sub': ('ref', 'R'), 'subs': ('seq', ('ref', 'R')),
               'osub': ('opt', ('ref', 'R')), 'ls': ('ref', 'LR')})
DATA = {'R': REC, 'LR': ('seq', ('ref', 'R')), 'OR': ('opt', ('ref', 'R')),
        'RR': ('ref', 'R'), 'Sc': 'Integer', 'Ls': ('seq', 'String'),
        'Ra': ('ref', 'Sc')}
SCALAR = {
    'untyped': None, 'any': 'Any', 'bool': 'Boolean', 'str': 'String',
    'int': 'Integer', 'float': 'Float',
    'ints': ('seq', 'Integer'), 'optint': ('opt', 'Integer'),
    'map': ('map', 'String', 'Integer'),
    'maprec': ('map', 'String', ('ref', 'R')),
    'anys': ('seq', 'Any'), 'data': ('ref', 'Sc'), 'datas': ('ref', 'Ls'),
    'datadata': ('ref', 'Ra'), 'optdata': ('opt', ('ref', 'Sc')),
    'seqdata': ('seq', ('ref', 'Sc')),
}
COMPLEX = {
    'c': REC, 'cs': ('seq', REC), 'co': ('opt', REC), 'cr': ('ref', 'R'),
    'crs': ('seq', ('ref', 'R')), 'cro': ('opt', ('ref', 'R')),
    'cl': ('ref', 'LR'), 'cor': ('ref', 'OR'), 'crr': ('ref', 'RR'),
}

# containers: a list of selections -> the selections of the root
NODES = {
    'root': lambda x: x,
    'one': lambda x: [L('one', *x)],
    'maybe': lambda x: [L('maybe', *x)],
    'many': lambda x: [L('many', *x)],
    'link with options': lambda x: [L('lo', *x, r=1)],
    'aliased link': lambda x: [L('one', *x, alias='z9')],
    'second link of the same node': lambda x: [
        L('one', F('plain')), L('one', *x, alias='f9'), L('many', *x)],
    'two levels': lambda x: [L('many', F('plain'), L('one', *x))],
    'three levels': lambda x: [L('one', L('maybe', L('many', *x)),
                                 F('plain'))],
}
RECORDS = {}
for _c in COMPLEX:
    RECORDS['complex ' + _c] = lambda x, c=_c: [L(c, *x)]
RECORDS.update({
    'complex with options': lambda x: [L('co2', *x, r=1)],
    'complex in a link': lambda x: [L('many', L('cs', *x), F('plain'))],
    'aliased complex': lambda x: [L('c', *x, alias='z9')],
    'nested data type': lambda x: [L('c', F('p'), L('sub', *x))],
    'nested sequence': lambda x: [L('cs', L('subs', *x), F('q'))],
    'nested optional': lambda x: [L('cr', L('osub', *x))],
    'nested data type of a sequence': lambda x: [L('c', L('ls', *x))],
    'three levels of records': lambda x: [
        L('one', L('c', L('sub', L('subs', L('osub', *x)))))],
})

BAD_NODE = {
    'unknown field': [F('nope')],
    'unknown field with options': [F('nope', p=1)],
    'unknown field under the name of a known one': [F('nope', 'plain2')],
    'known name as an alias only': [F('nope', 'f')],
    'unknown link': [L('nope', F('plain'))],
    'unknown link without fields': [L('nope')],
    'unknown link of a known alias': [L('nope', F('plain'), alias='one')],
    'link as a field: one': [F('one')],
    'link as a field: maybe': [F('maybe')],
    'link as a field: many': [F('many')],
    'link as a field, alias': [F('many', 'f')],
    'link with options as a field': [F('lo', r=1)],
    'unknown option of a field': [F('f', z=1)],
    'unknown option of a field with options': [F('fr', r=1, z=1)],
    'unknown option, empty value': [F('f', z=None)],
    'unknown option of a link': [L('one', F('plain'), z=1)],
    'unknown option of a link with options': [L('lo', F('plain'), r=1, z=1)],
    'unknown option of a complex field': [L('c', F('p'), z=1)],
    'unknown option of a complex field with options': [
        L('co2', F('p'), r=1, z=1)],
    'unknown option of a whole complex field': [F('c', z=1)],
    'missing option of a field': [F('fr')],
    'missing option of a field, optional given': [F('fr', o=1)],
    'missing option of a field, other given': [F('fr', z=1)],
    'missing option of an untyped option': [F('fu')],
    'missing option of a link': [L('lo', F('plain'))],
    'missing option of a link, optional given': [L('lo', F('plain'), o=1)],
    'missing option of a complex field': [L('co2', F('p'))],
    'missing option of a whole complex field': [F('co2')],
    'missing option of a link without fields': [L('lo')],
    'one name: two fields': [F('f', 'a'), F('g', 'a')],
    'one name: alias of a field': [F('f'), F('g', 'f')],
    'one name: alias first': [F('g', 'f'), F('f')],
    'one name: apart': [F('f', 'a'), F('h'), F('one9', 'h9')][:2]
    + [F('g', 'a')],
    'one name: third differs': [F('f', 'a'), F('f', 'a'), F('g', 'a')],
    'one name: values of an option': [F('fo', o=1), F('fo', o=2)],
    'one name: option and default': [F('fo', o=1), F('fo')],
    'one name: default and option': [F('fo'), F('fo', o=1)],
    'one name: different options': [F('fo', o=1), F('fo', o2=1)],
    'one name: 1 and true': [F('fu', u=1), F('fu', u=True)],
    'one name: 1 and true in a list': [F('fu', u=[1]), F('fu', u=[True])],
    'one name: 0 and 0.0': [F('fu', u=0), F('fu', u=0.0)],
    'one name: "1" and 1': [F('fu', u='1'), F('fu', u=1)],
    'one name: null and ""': [F('fu', u=None), F('fu', u='')],
    'one name: nested values': [F('fu', u={'a': [1, 2]}),
                                F('fu', u={'a': [2, 1]})],
    'one name: two links': [L('one', F('f')), L('many', F('f'),
                                                alias='one')],
    'one name: two aliased links': [L('one', F('f'), alias='a'),
                                    L('maybe', F('f'), alias='a')],
    'one name: options of links': [L('lo', F('f'), r=1),
                                   L('lo', F('f'), r=2)],
    'one name: link and field': [F('f', 'one'), L('one', F('f'))],
    'one name: field and link': [L('one', F('f'), alias='f'), F('f')],
    'one name: whole complex field and its fields': [F('c'), L('c', F('p'))],
    'one name: fields of a complex field and it': [L('c', F('p')), F('c')],
    'one name: complex fields': [L('c', F('p'), alias='a'),
                                 L('cs', F('p'), alias='a')],
}
for _n in SCALAR:
    BAD_NODE['simple field as a link: %s' % _n] = [L('s_' + _n, F('p'))]
    BAD_NODE['simple field as a link without fields: %s' % _n] = [
        L('s_' + _n)]
    BAD_NODE['simple field as a link under an alias: %s' % _n] = [
        L('s_' + _n, F('p'), alias='one9')]
BAD_NODE['simple field with options as a link'] = [L('fr', F('p'), r=1)]

BAD_RECORD = {
    'unknown field': [F('nope')],
    'unknown field under a known alias': [F('nope', 'zz')],
    'unknown link': [L('nope', F('p'))],
    'unknown link without fields': [L('nope')],
    'options of a field': [F('p', z=1)],
    'options of a link': [L('sub', F('p'), z=1)],
    'options of an inline record': [L('ins', F('v'), z=1)],
    'record as a field': [F('in')],
    'data type as a field': [F('sub')],
    'sequence of records as a field': [F('ins')],
    'sequence of data types as a field': [F('subs')],
    'optional as a field': [F('osub')],
    'optional record as a field': [F('oin')],
    'data type of a sequence as a field': [F('ls')],
    'field as a link: Integer': [L('p', F('v'))],
    'field as a link: String': [L('q', F('v'))],
    'field as a link: Any': [L('any', F('v'))],
    'field as a link: data type': [L('sc', F('v'))],
    'field as a link: sequence': [L('li', F('v'))],
    'field as a link: mapping': [L('di', F('v'))],
    'field as a link without fields': [L('p')],
    'unknown field of an inline record': [L('in', F('v'), F('nope'))],
    'unknown field of inline records': [L('ins', F('nope'))],
    'unknown field of an optional': [L('osub', F('p'), F('v'))],
    'unknown field after a deep selection': [
        L('sub', L('sub', F('p'))), L('subs', F('p')), F('v')],
    'one name: two fields': [F('p', 'a'), F('q', 'a')],
    'one name: alias of a field': [F('p'), F('q', 'p')],
    'one name: field and link': [F('p', 'sub'), L('sub', F('p'))],
    'one name: two links': [L('in', F('v'), alias='a'),
                            L('oin', F('v'), alias='a')],
    'one name: nested': [L('in', F('v', 'a'), F('w', 'a'))],
}

ALL_NODE = ([F('f'), F('fo'), F('fo', 'fo1', o=2), F('fr', r=1),
             F('fr', 'fr2', r=2, o=3), F('fu', u=[1, {'a': None}]),
             F('fu', 'fu2', u=True), F('f', 'f2'), F('f'), F('c', 'cw'),
             F('c', 'cw')]
            + [F('s_' + n) for n in SCALAR]
            + [L('one', F('f')), L('one', F('g')), L('many', F('f', 'g')),
               L('maybe', F('g', 'f'), F('f', 'g'), alias='mm'),
               L('lo', F('f'), r=1), L('lo', F('f'), r=2, alias='lo2'),
               L('lo', F('f'), r=2, o='x', alias='lo3'),
               L('co2', F('p'), r=1), L('c', F('p'))])
ALL_RECORD = [F('p'), F('q'), F('p', 'p2'), F('any'), F('sc'), F('li'),
              F('di'), L('in', F('v')), L('in', F('w'), F('v', 'x')),
              L('ins', F('v'), alias='sub9'), L('oin', F('v'), F('w')),
              L('sub', F('p'), L('sub', F('q'))),
              L('subs', L('osub', L('ls', F('p')))), F('p')]
GOOD_NODE = {
    'everything': ALL_NODE,
    'nothing': [],
    'one field': [F('f')],
    'empty links': [L('one'), L('lo', r=1)],
    'same selections': [F('fo', o=1), F('fo', o=1), L('lo', F('f'), r=1),
                        L('lo', F('g'), r=1)],
    'same nested options': [F('fu', u={'a': [1, {'b': 2}]}),
                            F('fu', u={'a': [1, {'b': 2}]})],
    'same name in links': [L('one', F('f', 'a')), L('many', F('g', 'a')),
                           F('h', 'a')],
    'swapped names': [F('f', 'g'), F('g', 'f'), L('one', F('f'),
                                                   alias='many'),
                      L('many', F('f'), alias='one')],
    'whole complex fields': [F(n) for n in COMPLEX],
    'all complex fields': [L(n, F('p')) for n in COMPLEX],
    'option null': [F('fu', u=None)],
    'falsy options': [F('fu', u=0), F('fu', 'a', u=''), F('fu', 'b', u=False),
                      F('fu', 'c', u=[]), F('fu', 'd', u={})],
}
GOOD_RECORD = {
    'everything': ALL_RECORD, 'nothing': [], 'one field': [F('q')],
    'same name at levels': [F('p', 'a'), L('sub', F('q', 'a'))],
}

R0, R1, R2 = F('only root'), F('only A1'), F('only A2')
GOOD_PATH = {
    'after a link': [L('one', R1), R0, L('many', R1), F('f')],
    'after nested links': [L('one', L('one', R2), R1, L('many', R2)), R0],
    'after a link to itself': [L('one', L('me', R1), R1, L('one', R2)), R0],
    'in links to itself': [L('one', L('me', L('me', R1, L('me', R1)), R1)),
                           R0, L('maybe', R1)],
    'after an empty link': [L('one'), R0, L('one', L('me'), R1)],
    'after complex fields': [L('c', F('p')), R0, L('one', L('c', F('p')),
                                                   R1), R0],
}
BAD_PATH = {
    'after a link': [L('one', R1), R1],
    'after nested links': [L('one', L('one', R2), R2)],
    'after nested links, root': [L('one', L('one', R2)), R1],
    'after a link to itself': [L('one', L('me', R1), R0)],
    'after a link to itself, root': [L('one', L('me', R1)), R1],
    'in a link to itself': [L('one', L('me', R2))],
    'in a link to itself, root field': [L('one', L('me', R0))],
    'root field in a link': [R0, L('one', R0)],
    'field of the next node': [L('one', R2, L('one', R2))],
    'link of a node in the root': [L('one', R1), L('me', R1)],
    'after a complex field': [L('c', F('p')), F('p')],
    'record field in a node': [L('one', L('c', F('p')), F('p'))],
}


def run(c):
    c.rule(R_BAD, 'a query with an invalid selection gets at least one error')
    c.rule(R_GOOD, 'a query without invalid selections gets no errors')
    c.rule(R_RAISE, 'validation never raises')
    for kinds, bad, good, before in (
            (NODES, BAD_NODE, GOOD_NODE, ALL_NODE),
            (RECORDS, BAD_RECORD, GOOD_RECORD, ALL_RECORD)):
        for where, put in kinds.items():
            for name, sel in bad.items():
                c.scenario('%s: %s' % (where, name), lambda s, q=put(sel):
                           bad_(s, q), R_BAD)
                # among valid ones, which use other result names
                other = [x for x in before if x[2] not in keys(sel)]
                for how, q in (('after', other + sel),
                               ('before', sel + other)):
                    if where in ('root', 'two levels', 'complex cs',
                                 'nested data type') or c.tier == 'thorough':
                        c.scenario('%s: %s %s valid selections' % (
                            where, name, how), lambda s, q=put(q):
                            bad_(s, q), R_BAD)
            for name, sel in good.items():
                c.scenario('%s, valid: %s' % (where, name),
                           lambda s, q=put(sel): good_(s, q), R_GOOD)
    for name, sel in GOOD_PATH.items():
        c.scenario('node of a selection: %s' % name,
                   lambda s, q=sel: good_(s, q), R_GOOD)
    for name, sel in BAD_PATH.items():
        c.scenario('node of a selection: %s' % name,
                   lambda s, q=sel: bad_(s, q), R_BAD)
    for kind in ('fields', 'links', 'complex fields', 'records'):
        for name, sel in (('unknown field', [F('nope')]),
                          ('unknown link', [L('nope', F('p'))]),
                          ('one name', None), ('valid', [])):
            for how in ('before', 'after'):
                c.scenario('any number of %s, %s %s' % (kind, name, how),
                           lambda s, a=(kind, sel, how): star(s, *a),
                           R_GOOD if sel == [] else R_BAD)


def keys(sel):
    return {x[2] for x in sel}


class W15(World):

    def type_(self, t):
        s = self.s
        if t is None:
            return NONE
        if isinstance(t, str):
            return s.get('hiku.types:' + t)
        if t[0] == 'rec':
            return s.item(s.get('hiku.types:Record'), s.dict(
                **{k: self.type_(v) for k, v in t[1].items()}))
        if t[0] == 'ref':
            return self.typeref(t[1])
        if t[0] == 'map':
            return M.getitem(self.I, s.get('hiku.types:Mapping'),
                             Tup([self.type_(t[1]), self.type_(t[2])]))
        return self.sub({'seq': 'Sequence', 'opt': 'Optional'}[t[0]],
                        self.type_(t[1]))

    def members(self, tag, nxt):
        s, fn = self.s, self.fn
        i = lambda: self.type_('Integer')
        o = lambda: self.option('o', NONE, default=Const(5))
        r = lambda: self.option('r', i())
        F_ = lambda n, *a, **k: lambda: self.field(n, fn, *a, **k)
        out = {n: F_(n) for n in ('f', 'g', 'h', 'plain')}
        out['fo'] = lambda: self.field('fo', fn, options=s.list(
            o(), self.option('o2', i(), default=Const(0))))
        out['fr'] = lambda: self.field('fr', fn, i(),
                                       options=s.list(r(), o()))
        out['fu'] = lambda: self.field('fu', fn, options=s.list(
            self.option('u')))
        for n, t in SCALAR.items():
            out['s_' + n] = lambda n=n, t=t: self.field('s_' + n, fn,
                                                        self.type_(t))
        for n, t in COMPLEX.items():
            out[n] = lambda n=n, t=t: self.field(n, fn, self.type_(t))
        out['co2'] = lambda: self.field('co2', fn, self.type_(REC),
                                        options=s.list(r(), o()))
        out['only ' + tag] = F_('only ' + tag)
        if tag != 'root':
            out['me'] = lambda: self.link('me', 'maybe', tag, fn)
        for card in ('one', 'maybe', 'many'):
            out[card] = lambda c=card: self.link(c, c, nxt, fn)
        out['lo'] = lambda: self.link('lo', 'one', nxt, fn,
                                      options=s.list(r(), o()))
        # declared members the query does not mention do not matter: a few
        # of every kind are kept
        return [mk() for n, mk in out.items() if n in self.used]

    def the_graph(self, q, *extra):
        s = self.s
        self.used = names(q) | {'f', 'plain'}
        self.fn = self.node_loader('ld')
        depth = levels(q) if q else 3
        nodes = [self.node('A%d' % n, *self.members(
            'A%d' % n, 'A%d' % min(n + 1, depth)))
            for n in range(1, depth + 1)]
        return self.graph(*nodes, self.root(*self.members('root', 'A1'),
                                            *extra),
                          data_types=s.dict(**{k: self.type_(t)
                                               for k, t in DATA.items()}))

    def query(self, sels):
        return self.qn(*[self.sel(x) for x in sels])

    def sel(self, x):
        if not isinstance(x, tuple):
            return x
        kind, name, key, o, sub = x
        o = value(self.s, o) if o is not None else None
        alias = key if key != name else None
        if kind == 'f':
            return self.qf(name, o, alias)
        return self.ql(name, self.query(sub), o, alias)


def names(q):
    out = set()
    for x in q:
        if isinstance(x, tuple):
            out |= {x[1], x[2]} | names(x[4] or ())
    return out


def levels(q):
    return 1 + max([levels(x[4] or ()) for x in q
                    if isinstance(x, tuple)] or [0])


def validate(s, w, g, q):
    exc, errors = s.raises(lambda: s.call(
        s.get('hiku.validate.query:validate'), g, q))
    if not s.ok(exc is None, R_RAISE, 'validate raises %s' % (
            exc is not None and s.I.exc_name(exc))):
        return None
    return s.call(Bi('list'), errors)


def bad_(s, sels):
    w = W15(s)
    errors = validate(s, w, w.the_graph(sels), w.query(sels))
    if errors is not None:
        s.ok(s.I.truth(errors), R_BAD, 'no errors are reported')


def good_(s, sels):
    w = W15(s)
    errors = validate(s, w, w.the_graph(sels), w.query(sels))
    if errors is not None:
        s.same(errors, s.list(), R_GOOD, 'errors about a valid query')


def star(s, kind, fault, how):
    """any number of valid selections of declared members"""
    w = W15(s)
    fn = w.node_loader('S')
    rec = w.type_(REC)
    extra = [s.star('G', lambda x: w.field(s.name_('g', x), fn)),
             s.star('H', lambda x: w.link(s.name_('h', x), 'many', 'A1', fn)),
             s.star('K', lambda x: w.field(s.name_('k', x), fn, rec))]
    pick = {
        'fields': ('G', lambda x: w.qf(s.name_('g', x))),
        'links': ('H', lambda x: w.ql(s.name_('h', x), w.query([F('f')]))),
        'complex fields': ('K', lambda x: w.ql(s.name_('k', x),
                                               w.query([F('p')]))),
    }
    if kind == 'records':
        many = s.star('R', lambda x: w.qf('p', alias=s.name_('al', x)))
        dup = [F('p', 'dup'), many, F('q', 'dup')]
    else:
        many = s.star(*pick[kind])
        dup = [F('f', 'dup'), many, F('g', 'dup')]
    if fault is None:
        sels = dup
    else:
        sels = [many] + fault if how == 'after' else fault + [many]
    sels = [L('cs', *sels)] if kind == 'records' else sels
    w_used = sels + ALL_NODE + [L('one', L('cs'))]
    g = w.the_graph(w_used, *extra)
    q = w.query(sels)
    errors = validate(s, w, g, q)
    if errors is None:
        return
    if fault == []:
        s.same(errors, s.list(), R_GOOD, 'errors about a valid query')
    else:
        s.ok(s.I.truth(errors), R_BAD, 'no errors are reported')
