"""Abstract values, list segments and heap records of the analyser."""


class Imprecise(Exception):
    """The abstraction met something it does not model: no verdict here."""
    current = None       # the running interpreter, for the site

    def __init__(self, *args):
        Exception.__init__(self, *args)
        self.path = tuple(self.current.callpath()) if self.current else ()


class Infeasible(Exception):
    """The chosen combination of facts is contradictory."""


class AbsRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, val, stack=()):
        self.val = val
        self.stack = tuple(stack)


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Through(Exception):
    """Control leaving a generator's consumer through the generator."""

    def __init__(self, inner, owner):
        self.inner = inner
        self.owner = owner


class Stop(Exception):
    """The consumer of an iteration needs no further elements."""


class WhileIter(Exception):
    """The body of a `while` loop takes the next element of a collection of
    unknown length: the loop is summarised as a loop over it."""

    def __init__(self, loop, oid):
        self.loop = loop
        self.oid = oid


class Hoist(Exception):
    """A predicate that does not depend on the open loop index: decide it
    outside of the loop."""

    def __init__(self, pred):
        self.pred = pred


class Const:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) \
            and o.v == self.v

    def __hash__(self):
        return hash((type(self.v), self.v))

    def __repr__(self):
        return repr(self.v)


class Sym:
    """Opaque value named by a structural term."""
    __slots__ = ('term', 'ty')

    def __init__(self, term, ty=None):
        self.term = term
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term == self.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return '`' + show_term(self.term) + '`'


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return '@%d' % self.oid


class Tup:
    """Tuple value; items are values or Star segments."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(('tup', self.items))

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Bi:
    """A builtin function or type that the analyser models."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Bi) and o.name == self.name

    def __hash__(self):
        return hash(('bi', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Ext:
    """External module / object, by dotted path."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return '<ext %s>' % self.path


class BoundM:
    """Method of a builtin/primitive/external receiver."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BoundM) and (o.recv, o.name) == (
            self.recv, self.name)

    def __hash__(self):
        return hash(('bm', self.recv, self.name))

    def __repr__(self):
        return '%r.%s' % (self.recv, self.name)


class Bound:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and (o.func, o.self_) == (
            self.func, self.self_)

    def __hash__(self):
        return hash(('bound', self.func, self.self_))

    def __repr__(self):
        return 'bound(%r, %r)' % (self.func, self.self_)


class Super:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, Super) and (o.cls, o.obj) == (self.cls, self.obj)

    def __hash__(self):
        return hash(('super', self.cls, self.obj))


class IDict:
    """The __dict__ of an object."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, IDict) and o.oid == self.oid

    def __hash__(self):
        return hash(('idict', self.oid))


class Choice:
    """A value that depends on per-index facts: ((guard, value), ...)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, Choice) and o.alts == self.alts

    def __hash__(self):
        return hash(('choice', self.alts))

    def __repr__(self):
        return 'choice' + repr(self.alts)


class Star:
    """`n` repetitions (n >= 1, unknown) of a block that may depend on the
    index ('ix', n) and, through guards, on facts about it."""
    __slots__ = ('n', 'variants')

    def __init__(self, n, variants):
        self.n = n
        self.variants = tuple((tuple(g), tuple(b)) for g, b in variants)

    @property
    def simple(self):
        return len(self.variants) == 1 and len(self.variants[0][1]) == 1 \
            and not isinstance(self.variants[0][1][0], Star)

    @property
    def uniform(self):
        """every iteration contributes exactly one element"""
        return all(len(b) == 1 and not isinstance(b[0], Star)
                   for _, b in self.variants)

    def __eq__(self, o):
        return isinstance(o, Star) and (o.n, o.variants) == (
            self.n, self.variants)

    def __hash__(self):
        return hash(('star', self.n, self.variants))

    def __repr__(self):
        return 'Star[%s](%s)' % (self.n, ' | '.join(
            (('%r: ' % (g,)) if g else '') + ', '.join(map(repr, b))
            for g, b in self.variants))


class StarEv:
    """Events of the iterations of a star loop."""
    __slots__ = ('n', 'variants')

    def __init__(self, n, variants):
        self.n = n
        self.variants = tuple(variants)

    def __repr__(self):
        return 'StarEv[%s]%r' % (self.n, self.variants)


class Event:
    __slots__ = ('kind', 'data', 'site')

    def __init__(self, kind, data, site):
        self.kind = kind
        self.data = data
        self.site = site

    def __repr__(self):
        return 'Event(%s, %r)' % (self.kind, self.data)


class DEntry:
    """Dict entry; n/guards set for entries stored by a star loop."""
    __slots__ = ('key', 'val', 'n', 'guard', 'src')

    def __init__(self, key, val, n=None, guard=(), src=None):
        self.src = src       # (star entry, binding) this is an instance of
        self.key = key
        self.val = val
        self.n = n
        self.guard = guard

    def __eq__(self, o):
        return isinstance(o, DEntry) and (
            (o.key, o.val, o.n, o.guard)
            == (self.key, self.val, self.n, self.guard))

    def __hash__(self):
        return hash((self.key, self.val, self.n, self.guard))

    def __repr__(self):
        return '%r: %r%s' % (self.key, self.val,
                             ' for %s' % (self.n,) if self.n else '')


class Obj:
    """Heap record."""
    __slots__ = ('kind', 'cls', 'attrs', 'data', 'extra', 'idx', 'gen',
                 'site', 'tag', 'wsite')

    def __init__(self, kind, cls=None, attrs=None, data=None, extra=None,
                 idx=(), site=None, tag=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.data = data
        self.extra = extra
        self.idx = idx
        self.gen = -1
        self.site = site
        self.tag = tag
        self.wsite = site

    def clone(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.cls = self.cls
        o.attrs = dict(self.attrs)
        d = self.data
        o.data = list(d) if isinstance(d, list) else d
        o.extra = self.extra
        o.idx = self.idx
        o.gen = self.gen
        o.site = self.site
        o.tag = self.tag
        o.wsite = self.wsite
        return o

    def same(self, o):
        return (self.kind == o.kind and self.cls == o.cls
                and self.attrs == o.attrs and self.data == o.data
                and self.extra == o.extra)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def ix(n):
    return ('ix', n)


DERIVED = ('first', 'rest', 'pre', 'at', "'", 'o', 'key')


def ix_parent(n):
    """the collection an index name was derived from, None if it is basic"""
    if isinstance(n, tuple) and len(n) >= 2 and n[0] in DERIVED:
        return n[1]
    return None


def ix_chain(n):
    out = [n]
    while True:
        n = ix_parent(n)
        if n is None:
            return out
        out.append(n)


def unprime(n):
    while isinstance(n, tuple) and n and n[0] == "'":
        n = n[1]
    return n


def count_name(n):
    """the collection a star has as many elements as"""
    while isinstance(n, tuple) and n and n[0] in ("'", 'rev'):
        n = n[1]
    return n


def ix_eq(a, b):
    """may the elements at two index names be the same one?  True, False or
    None (unknown)"""
    if a == b:
        return True
    ca, cb = ix_chain(a), ix_chain(b)
    if ca[-1] != cb[-1]:
        return False
    # deepest common collection
    ra, rb = ca[::-1], cb[::-1]
    i = 0
    while i < len(ra) and i < len(rb) and ra[i] == rb[i]:
        i += 1
    if i < len(ra) and i < len(rb):
        kinds = {ra[i][0], rb[i][0]}
        if kinds == {'first', 'rest'} or kinds == {'pre', 'at'}:
            return False
    if i == len(ra) and rb[i][0] == 'o' or i == len(rb) and ra[i][0] == 'o':
        return False
    return None


def mentions(term, what):
    """does a nested tuple / value mention the given sub-term?"""
    if term == what:
        return True
    if isinstance(term, tuple):
        return any(mentions(t, what) for t in term)
    if isinstance(term, Sym):
        return mentions(term.term, what)
    if isinstance(term, Tup):
        return any(mentions(t, what) for t in term.items)
    if isinstance(term, Star):
        return mentions(term.variants, what)
    if isinstance(term, Choice):
        return mentions(term.alts, what)
    if isinstance(term, (Bound,)):
        return mentions(term.func, what) or mentions(term.self_, what)
    if isinstance(term, BoundM):
        return mentions(term.recv, what)
    if isinstance(term, DEntry):
        return mentions((term.key, term.val), what)
    return False


def show_term(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'ix':
            return '#' + str(t[1])
        if t[0] == 'tok':
            return ''.join(str(x) if not isinstance(x, tuple)
                           else '[%s]' % show_term(x) for x in t[1:])
        if t[0] == 'attr':
            return '%s.%s' % (show_term(t[1]), t[2])
        if t[0] == 'c':
            return repr(t[-1])
        if t[0] == 'cat':
            return '"' + ''.join(
                p[-1] if isinstance(p, tuple) and p and p[0] == 'c'
                else '{%s}' % show_term(p) for p in t[1:]) + '"'
        return '%s(%s)' % (t[0], ', '.join(map(show_term, t[1:])))
    return str(t)
