"""Expressions of sub-graphs, described in Python: how to write them with the
library, and what they mean."""
from .values import *   # noqa
from . import models as M
from .world import World, nm
from .qspec import value


# an expression:
#   ('s', name)                 a symbol
#   ('.', e, name)              a field of an object
#   ('each', var, col, body)
#   ('if', test, then, else)
#   ('some', var, bind, then, else)
#   ('fn', name, args...)
#   ('l', items...), ('d', {key: e}), ('k', constant)
def s(path):
    """symbol with fields: s('this.one.c')"""
    first, *rest = path.split('.')
    e = ('s', first)
    for r in rest:
        e = ('.', e, r)
    return e


class Obj:
    """an object of the low-level graph"""

    def __init__(self, kind, ident):
        self.kind = kind
        self.ident = ident

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.ident)


NAMES = {}


def val(*parts):
    return Sym(('tok', 'val') + parts, 'obj')


def flat(term):
    text = '.'.join(flat(x) if isinstance(x, tuple) else str(x)
                    for x in term)
    NAMES[text] = term
    return text


# low-level graph: node -> field -> kind
LOW = {
    't': {'id': 'any', 'a': 'any', 'b': 'any', 'obj': 'any',
          'one': ('one', 'u'), 'maybe': ('maybe', 'u'), 'no': ('no', 'u'),
          'many': ('many', 'u'), 'none': ('none', 'u'),
          'rec': ('rec', ('p', 'q')), 'recs': ('recs', ('p', 'q')),
          'opt': ('optrec', ('p', 'q')), 'ss': 'seq', 'os': 'optstr',
          'e': 'empty'},
    'u': {'id': 'any', 'c': 'any', 'd': 'any', 'back': ('one', 't'),
          'kids': ('many', 't'), 'maybe': ('maybe', 't')},
    '': {'f': 'any', 'g': 'any', 'one': ('one', 'u'),
         'many': ('many', 't'), 'maybe': ('maybe', 't'), 'no': ('no', 't'),
         'rec': ('rec', ('p', 'q'))},
}


class Exprs(World):

    def __init__(self, sc, functions=(), coros=None):
        super().__init__(sc)
        self.functions = dict(functions)
        self.fns = {}
        self.calls = []
        self.loads = []
        self.coros = coros
        self.terms = {}

    # --- the low-level graph
    def ident(self, term):
        return Const(flat(term))

    def target(self, term, kind, name, n=0):
        """identifier behind a link of an object"""
        return self.ident((term, name, n))

    def low_links(self, term, kind, name):
        """[identifiers] | identifier | None for Nothing"""
        if kind == 'one':
            return self.target(term, kind, name)
        if kind == 'maybe':
            # every second object has none
            return None if term[-1] == 'odd' else self.target(
                term, kind, name)
        if kind == 'no':
            return None
        if kind == 'none':
            return []
        return [self.target(term, kind, name, 'x'),
                self.target(term, kind, name, 'odd')]

    def idterm(self, ident):
        """identifier -> what it was made of"""
        ident = self.I.resolve(ident)
        if not isinstance(ident, Const) or ident.v not in NAMES:
            self.s.fail('identifier', 'a loader is asked for %s, which is not '
                        'an identifier' % self.s.show(ident))
            return ('?',)
        return NAMES[ident.v]

    def record(self, node, term, name, n=0):
        return {p: val('rec', node, flat(term), name, n, p) for p in ('p', 'q')}

    def scalar(self, node, term, name):
        """value of a field, as a Python structure"""
        kind = LOW[node][name]
        if name == 'id' and node:
            return self.ident(term)
        if kind == 'any':
            return val(node, flat(term), name)
        if kind == 'seq':
            return [val(node, flat(term), name, i) for i in range(2)]
        if kind == 'empty':
            # present, but false
            return None if term[-1] == 'odd' else ''
        if kind == 'optstr':
            return None if term[-1] == 'odd' else val(node, flat(term), name)
        if kind[0] == 'rec':
            return self.record(node, term, name)
        if kind[0] == 'optrec':
            return None if term[-1] == 'odd' else self.record(
                node, term, name)
        if kind[0] == 'recs':
            return [self.record(node, term, name, i) for i in range(2)]
        raise KeyError(name)

    def field_type(self, kind):
        sc, I = self.s, self.I
        T = lambda n: sc.get('hiku.types:' + n)
        if kind == 'any':
            return NONE
        if kind == 'seq':
            return self.sub('Sequence', T('String'))
        if kind in ('optstr', 'empty'):
            return self.sub('Optional', T('String'))
        rec = self.sub('Record', sc.dict_of(
            [(Const(p), T('Any')) for p in kind[1]]))
        if kind[0] == 'rec':
            return rec
        if kind[0] == 'optrec':
            return self.sub('Optional', rec)
        return self.sub('Sequence', rec)

    def low_graph(self):
        sc, I = self.s, self.I
        items = []
        for node, fields in LOW.items():
            fl = self.low_loader(node)
            out = []
            for name, kind in fields.items():
                if isinstance(kind, tuple) and kind[0] in (
                        'one', 'maybe', 'no', 'many', 'none'):
                    card = {'no': 'maybe', 'none': 'many'}.get(
                        kind[0], kind[0])
                    out.append(self.link(
                        name, card, kind[1],
                        self.link_loader(node, name, kind),
                        requires='id' if node else None))
                else:
                    out.append(self.field(name, fl, self.field_type(kind)))
            items.append(self.node(node, *out) if node else
                         self.root(*out))
        return self.graph(*items)

    def wrap(self, stub):
        return stub

    def low_loader(self, node):
        sc, I = self.s, self.I

        def load(tag, args, kw):
            names = [M.text_of(I, I.getattr(f, 'name'))
                     if hasattr(M, 'text_of') else
                     I.getattr(f, 'name').v for f in M.segs_of(I, args[0])]
            self.loads.append((node, tuple(names)))
            if not node:
                return sc.list(*[value(sc, self.scalar('', ('root',), n))
                                 for n in names])
            return sc.list(*[
                sc.list(*[value(sc, self.scalar(node, self.idterm(i), n))
                          for n in names])
                for i in M.segs_of(I, args[1])])
        return self.wrap(sc.stub(load, tag='low ' + (node or 'root')))

    def link_loader(self, node, name, kind):
        sc, I = self.s, self.I

        def ident(x):
            return self.nothing() if x is None else \
                sc.list(*x) if isinstance(x, list) else x

        def load(tag, args, kw):
            self.loads.append((node, (name,)))
            if not node:
                return ident(self.low_links(('root',), kind[0], name))
            return sc.list(*[
                ident(self.low_links(self.idterm(i), kind[0], name))
                for i in M.segs_of(I, args[0])])
        return self.wrap(sc.stub(load, tag='low link ' + name))

    # --- functions
    def type_of(self, t):
        """a declared argument type: 'any', {field: type}, ('seq'|'opt', t)"""
        sc = self.s
        if t == 'any':
            return sc.get('hiku.types:Any')
        if isinstance(t, dict):
            return self.sub('Record', sc.dict_of(
                [(Const(k), self.type_of(v)) for k, v in t.items()]))
        return self.sub({'seq': 'Sequence', 'opt': 'Optional'}[t[0]],
                        self.type_of(t[1]))

    def seen(self, v, t):
        """what a function sees of an argument of the declared type"""
        sc, I = self.s, self.I
        v = I.resolve(v)
        if t == 'any':
            if isinstance(v, Ref) and I.o(v).kind == 'list':
                return Tup([self.seen(x, t) for x in M.segs_of(I, v)])
            if isinstance(v, Ref) and I.o(v).kind == 'inst':
                return Const('<object>')
            if isinstance(v, Ref) and I.o(v).kind == 'dict':
                return Const('<object>')
            return v
        if isinstance(t, dict):
            return Tup([self.seen(M.getitem(I, v, Const(k)), x)
                        for k, x in t.items()])
        if t[0] == 'opt':
            return NONE if v == NONE else self.seen(v, t[1])
        out = []
        I.iterate(v, lambda x: out.append(self.seen(x, t[1])))
        return Tup(out)

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        sc = self.s
        types = self.functions[name]
        anonymous = name.startswith('anon')

        def body(args, kw):
            got = [self.seen(a, t) for a, t in zip(args, types)]
            self.calls.append((name, tuple(map(repr, got))))
            if name.startswith('yes'):
                return TRUE
            if name.startswith('no'):
                return FALSE
            return Tup([Const('call ' + name)] + got)
        mk = sc.code('''
def mk(body):
    def %s(*args):
        return body(*args)
    return %s
''' % (('f',) * 2 if not name.isidentifier() else (name,) * 2), 'mk')
        kw = {} if anonymous else {'_name': Const(name)}
        dec = sc.I.call(sc.get('hiku.expr.core:define'),
                        [self.type_of(t) for t in types], kw)
        f = self.fns[name] = sc.call(dec, sc.call(mk, sc.stub(body)))
        return f

    # --- writing an expression with the library
    def write(self, e):
        sc = self.s
        k = e[0]
        core = lambda n: sc.get('hiku.expr.core:' + n)
        if k == 's':
            return sc.attr(core('S'), e[1])
        if k == '.':
            return sc.attr(self.write(e[1]), e[2])
        if k == 'each':
            return sc.call(core('each'), self.write(('s', e[1])),
                           self.write(e[2]), self.write(e[3]))
        if k == 'if':
            return sc.call(core('if_'), *[self.write(x) for x in e[1:]])
        if k == 'some':
            return sc.call(core('if_some'), sc.list(
                self.write(('s', e[1])), self.write(e[2])),
                self.write(e[3]), self.write(e[4]))
        if k == 'fn':
            return sc.call(self.fn(e[1]), *[self.write(x) for x in e[2:]])
        if k == 'l':
            return sc.list(*[self.write(x) for x in e[1:]])
        if k == 'd':
            return sc.dict_of([(Const(n), self.write(x))
                               for n, x in e[1].items()])
        return value(sc, e[1])

    # --- meaning
    def field_of(self, o, name):
        if isinstance(o, dict):
            return o[name]
        kind = LOW[o.kind][name]
        if isinstance(kind, tuple) and kind[0] in (
                'one', 'maybe', 'no', 'many', 'none'):
            x = self.low_links(o.ident, kind[0], name)
            if x is None:
                return None
            if isinstance(x, list):
                return [Obj(kind[1], self.idterm(i)) for i in x]
            return Obj(kind[1], self.idterm(x))
        return self.scalar(o.kind, o.ident, name)

    def view(self, v, t):
        if t == 'any':
            if isinstance(v, list):
                return Tup([self.view(x, t) for x in v])
            if isinstance(v, (Obj, dict)):
                return Const('<object>')
            return value(self.s, v)
        if isinstance(t, dict):
            return Tup([self.view(self.field_of(v, k), x)
                        for k, x in t.items()])
        if t[0] == 'opt':
            return NONE if v is None else self.view(v, t[1])
        return Tup([self.view(x, t[1]) for x in v])

    def mean(self, e, env, log=None):
        """env: name -> value; the root fields are looked up last"""
        k = e[0]
        ev = lambda x, b=(): self.mean(x, dict(env, **dict(b)), log)
        if k == 's':
            if e[1] in env:
                return env[e[1]]
            return self.field_of(Obj('', ('root',)), e[1])
        if k == '.':
            return self.field_of(ev(e[1]), e[2])
        if k == 'each':
            return [ev(e[3], {e[1]: x}) for x in ev(e[2])]
        if k == 'if':
            return ev(e[2]) if self.truth(ev(e[1])) else ev(e[3])
        if k == 'some':
            v = ev(e[2])
            if v is None:
                return ev(e[4])
            return ev(e[3], {e[1]: v})
        if k == 'fn':
            types = self.functions[e[1]]
            got = [self.view(ev(x), t) for x, t in zip(e[2:], types)]
            if log is not None:
                log.append((e[1], tuple(map(repr, got))))
            if e[1].startswith('yes'):
                return True
            if e[1].startswith('no'):
                return False
            return Tup([Const('call ' + e[1])] + got)
        if k == 'l':
            return [ev(x) for x in e[1:]]
        if k == 'd':
            return {n: ev(x) for n, x in e[1].items()}
        return e[1]

    def truth(self, v):
        if isinstance(v, Const):
            v = v.v
        assert isinstance(v, (bool, int, str, list, type(None))), v
        return bool(v)

    # --- the high-level graph
    count = True
    IDS = (('h', 0, 'x'), ('h', 1, 'odd'))

    def sub_graph(self, low, node='t'):
        return self.s.mk('hiku.sources.graph:SubGraph', low, nm(node))

    def compiled(self, sg, e):
        return self.s.meth(sg, 'c', self.write(e))

    def high_graph(self, fields, node='t', low=None, wrap=None):
        """fields: {name: (expression | None, {option: default})}"""
        sc = self.s
        low = low or self.low_graph()
        sg = self.sub_graph(low, node)
        out = []
        for name, (e, o) in fields.items():
            opts = sc.list(*[
                self.option(n, d[0], **({'default': value(sc, d[1])}
                                        if len(d) > 1 else {}))
                for n, d in o.items()]) if o else None
            func = sg if e is None else self.compiled(sg, e)
            out.append(self.field(name, func, options=opts))
        ids = sc.list(*[self.ident(t) for t in self.IDS])
        return self.graph(
            self.node('h', *out),
            self.root(self.link('hs', 'many', 'h',
                                self.wrap(self.const_loader('hs', ids)))))

    def run_fields(self, fields, rule, asked=None, node='t', executor=None,
                   what=None, graph=None, ctx=None):
        """execute; compare every field of every object with its meaning

        asked: {name: {option: value}} of the query
        """
        sc = self.s
        from .driver import describe_exc
        exc, g = (None, graph) if graph is not None else sc.raises(
            lambda: self.high_graph(fields, node))
        if exc is not None:
            sc.ok(False, rule, 'defining the fields raised %s'
                  % describe_exc(self.I, sc.last_raise))
            return
        asked = asked or {}
        sel = []
        for name in fields:
            for a in asked.get(name, [{}]):
                o = {k: v for k, v in a.items() if k != '$as'}
                sel.append((name, a.get('$as', name), o))
        q = self.qn(self.ql('hs', self.qn(*[
            self.qf(n, value(sc, o) if o else None,
                    a if a != n else None) for n, a, o in sel])))
        self.calls.clear()
        self.loads.clear()
        exc, r = sc.raises(lambda: self.execute(g, q, executor, ctx))
        if exc is not None:
            sc.ok(False, rule, 'evaluating the fields raised %s'
                  % describe_exc(self.I, sc.last_raise))
            return
        hs = self.read(r, Const('hs'), rule, 'result')
        if hs is None:
            return
        objs = M.segs_of(self.I, hs)
        if not sc.ok(len(objs) == len(self.IDS), rule,
                     'the result has %d objects instead of %d'
                     % (len(objs), len(self.IDS))):
            return
        log = []
        for t, o in zip(self.IDS, objs):
            for n, a, opts in sel:
                e, decl = fields[n]
                env = {'this': Obj(node, t)}
                for k, d in decl.items():
                    env[k] = opts[k] if k in opts else d[1]
                if e is None:
                    e = ('.', ('s', 'this'), n)
                want = self.mean(e, env, log)
                got = self.read(o, Const(a), rule, 'object %s' % t[1])
                if got is not None and isinstance(want, Sym) and \
                        isinstance(got, Ref) and self.I.o(got).kind == 'inst':
                    sc.ok(False, rule, '%s of object %s is an object instead '
                          'of the value of a field' % (a, t[1]))
                elif got is not None and not self.has_obj(want):
                    sc.same(got, value(sc, want), rule,
                            '%s of object %s' % (a, t[1]))
        got, want = sorted(self.calls), sorted(log)
        if not self.count:
            return
        sc.ok(got == want, rule, 'functions are called with %s instead of '
              '%s' % (differ(got, want), differ(want, got)))

    def has_obj(self, v):
        if isinstance(v, Obj):
            return True
        if isinstance(v, (list, tuple)):
            return any(map(self.has_obj, v))
        if isinstance(v, dict):
            return any(map(self.has_obj, v.values()))
        return False


def differ(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append('%s(%s)' % (x[0], ', '.join(x[1])))
    return '; '.join(out[:3]) or 'nothing else'
