"""SQL sources return rows aligned with the request."""
import itertools

from hikustat.values import *   # noqa
from hikustat import extlib, models as M
from hikustat.driver import describe_exc
from hikustat.qspec import value
from hikustat.world import World, nm

R_ROWS = 'C26.rows'
R_LINK = 'C26.links'
R_NONE = 'C26.no_statement'
R_REL = 'C26.released'
R_FAIL = 'C26.failure'
R_ALL = 'C26.complete'
R_GRAPH = 'C26.graph'

# A database of the environment: tables with rows in any order, statements
# which select columns of one table by the values of one column, connections
# which can fail at every step.
DB = '''
class Failure(Exception):
    pass


class Stop(BaseException):
    pass


class ResourceClosedError(Exception):
    pass


class Column:
    def __init__(self, table, name, primary_key=False, type=None):
        self.table = table
        self.name = self.key = name
        self.primary_key = primary_key
        self.type = type

    def in_(self, values):
        return Cond(self, list(values))

    def __eq__(self, other):
        if isinstance(other, AnyOf):
            return Cond(self, list(other.values))
        return Cond(self, [other])

    def __hash__(self):
        return id(self)

    def label(self, name):
        return Label(self, name)


class Label:
    def __init__(self, column, name):
        self.column = column
        self.name = self.key = name


class AnyOf:
    def __init__(self, values):
        self.values = values


class Cond:
    def __init__(self, column, values):
        self.column = column
        self.values = values

    def __bool__(self):
        return len(self.values) == 1 and self.column is self.values[0]

    def matches(self, row):
        value = row[self.column.name]
        if value is None:
            return False
        for v in self.values:
            if v is not None and value == v:
                return True
        return False


class Columns:
    def __init__(self, columns):
        self.all = columns

    def __getitem__(self, name):
        for c in self.all:
            if c.name == name:
                return c
        raise KeyError(name)

    def __getattr__(self, name):
        for c in self.__dict__['all']:
            if c.name == name:
                return c
        raise AttributeError(name)

    def __iter__(self):
        return iter(self.all)

    def __contains__(self, name):
        return any(c.name == name for c in self.all)


class Table:
    def __init__(self, name, columns, primary_key):
        self.name = name
        self.schema = self.metadata = None
        self.c = self.columns = Columns([
            Column(self, n, n in primary_key) for n in columns])
        self.primary_key = [c for c in self.c if c.primary_key]


class Select:
    def __init__(self, columns, conds=()):
        self.columns = columns
        self.conds = conds

    def select_from(self, *tables):
        return self

    def where(self, *conds):
        return Select(self.columns, self.conds + conds)

    def order_by(self, *columns):
        return self


def select(*args, **kw):
    if kw:
        args = [kw['columns']]
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    return Select(list(args))


def column_of(c):
    if isinstance(c, Label):
        return c.column
    return c


class Row:
    """rows of SQLAlchemy are sequences of values, rows of aiopg mappings"""
    def __init__(self, columns, values, keys):
        self._columns = columns
        self._values = values
        self._keys = keys

    def __getitem__(self, key):
        if isinstance(key, int):
            return self.__dict__['_values'][key]
        if isinstance(key, str):
            return self._named(key, KeyError)
        for c, v in zip(self.__dict__['_columns'], self.__dict__['_values']):
            if column_of(c) is column_of(key):
                return v
        raise KeyError('no such column')

    def _named(self, name, error):
        found = []
        for c, v in zip(self.__dict__['_columns'], self.__dict__['_values']):
            if c.name == name:
                if not any(column_of(c) is column_of(o) for o, _ in found):
                    found.append((c, v))
        if not found:
            raise error(name)
        if len(found) > 1:
            raise LookupError('ambiguous column name ' + name)
        return found[0][1]

    def __getattr__(self, name):
        return self._named(name, AttributeError)

    def __iter__(self):
        if self.__dict__['_keys']:
            return iter([c.name for c in self.__dict__['_columns']])
        return iter(self.__dict__['_values'])

    def __len__(self):
        return len(self.__dict__['_values'])

    def values(self):
        return list(self.__dict__['_values'])

    def as_tuple(self):
        return tuple(self.__dict__['_values'])


class Database:
    def __init__(self, rows, keys=False, fail=None, error=Failure):
        self.rows = rows
        self.keys = keys
        self.fail = fail
        self.error = error
        self.opened = []
        self.statements = []
        self.steps = []

    def step(self, name):
        self.steps.append(name)
        if name == self.fail or self.fail == (
                name, len([s for s in self.steps if s == name])):
            raise self.error('the database fails')

    def run(self, statement):
        self.step('execute')
        self.statements.append(statement)
        table = column_of(statement.columns[0]).table
        rows = []
        for row in self.rows[table.name]:
            for cond in statement.conds:
                if not cond.matches(row):
                    break
            else:
                rows.append(Row(statement.columns, [
                    row[column_of(c).name] for c in statement.columns],
                    self.keys))
        return rows


class Result:
    def __init__(self, connection, rows):
        self.connection = connection
        self.rows = rows
        self.pos = 0

    def take(self, n):
        if self.connection.closed or not self.connection.entered:
            raise ResourceClosedError('the connection is closed')
        self.connection.db.step('fetch')
        rows = self.rows[self.pos:] if n is None \\
            else self.rows[self.pos:self.pos + n]
        self.pos += len(rows)
        return rows


class SyncResult(Result):
    def fetchall(self):
        return self.take(None)

    def fetchmany(self, size=1):
        return self.take(size)

    def fetchone(self):
        rows = self.take(1)
        return rows[0] if rows else None

    def first(self):
        rows = self.take(1)
        return rows[0] if rows else None

    def all(self):
        return self.take(None)

    def __iter__(self):
        return iter(self.take(None))

    def close(self):
        pass


class AsyncResult(Result):
    async def fetchall(self):
        return self.take(None)

    async def all(self):
        return self.take(None)

    async def fetchmany(self, size=1):
        return self.take(size)

    async def fetchone(self):
        rows = self.take(1)
        return rows[0] if rows else None

    async def first(self):
        rows = self.take(1)
        return rows[0] if rows else None

    async def close(self):
        pass


class Connection:
    def __init__(self, db, entered):
        self.db = db
        self.closed = False
        self.entered = entered
        if entered:
            db.opened.append(self)

    def check(self):
        if self.closed or not self.entered:
            raise ResourceClosedError('the connection is closed')

    def enter(self):
        self.db.step('connect')
        self.entered = True
        self.db.opened.append(self)
        return self


class SyncConnection(Connection):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def close(self):
        self.closed = True

    def execute(self, statement):
        self.check()
        return SyncResult(self, self.db.run(statement))


class AsyncConnection(Connection):
    async def __aenter__(self):
        return self.enter()

    async def __aexit__(self, *args):
        self.closed = True

    async def start(self):
        return self.enter()

    async def close(self):
        self.closed = True

    async def stream(self, statement):
        self.check()
        return AsyncResult(self, self.db.run(statement))

    async def execute(self, statement):
        self.check()
        return SyncResult(self, self.db.run(statement))


class AiopgConnection(AsyncConnection):
    async def execute(self, statement):
        self.check()
        return AsyncResult(self, self.db.run(statement))


class Engine:
    def __init__(self, db):
        self.db = db

    def connect(self):
        self.db.step('connect')
        return SyncConnection(self.db, True)


class AsyncEngine:
    def __init__(self, db):
        self.db = db

    def connect(self):
        return AsyncConnection(self.db, False)


class AiopgEngine:
    def __init__(self, db):
        self.db = db

    def acquire(self):
        return AiopgConnection(self.db, False)

    def release(self, connection):
        connection.closed = True


class Namespace:
    def __init__(self):
        self.Table = Table
        self.Database = Database
        self.select = select
        self.AnyOf = AnyOf
        self.Failure = Failure
        self.Stop = Stop
        self.sync = Engine
        self.async_ = AsyncEngine
        self.aiopg = AiopgEngine
'''

VARIANTS = {'sync': 'hiku.sources.sqlalchemy',
            'async_': 'hiku.sources.sqlalchemy_async',
            'aiopg': 'hiku.sources.aiopg'}

FOO = [{'id': 1, 'name': 'foo1', 'count': 5, 'bar_id': None},
       {'id': 2, 'name': 'foo2', 'count': None, 'bar_id': 5},
       {'id': 0, 'name': '', 'count': 0, 'bar_id': 4},
       {'id': 7, 'name': 'foo1', 'count': 5, 'bar_id': 5},
       {'id': 9, 'name': 'foo9', 'count': -1, 'bar_id': 0}]
BAR = [{'id': 4, 'name': 'bar4', 'type': 1},
       {'id': 0, 'name': 'bar0', 'type': None},
       {'id': 5, 'name': 'bar5', 'type': 0}]
COLS = {'foo': ['id', 'name', 'count', 'bar_id'],
        'bar': ['id', 'name', 'type']}
IDS = {
    'in order': [1, 2, 0, 7], 'reversed': [9, 7, 0, 2, 1],
    'duplicates': [2, 1, 2, 2, 9, 1], 'missing': [3, 1, 8, 2],
    'only missing': [3, 8], 'falsy': [0], 'None': [None, 2, None, 0],
    'one': [7], 'missing twice': [3, 3, 7, 3],
}
FIELDS = {
    'one column': ['name'], 'columns': ['name', 'count'],
    'columns in another order': ['bar_id', 'count', 'name'],
    'the key': ['id'], 'the key last': ['count', 'id'],
    'the same column twice': ['name', 'count', 'name'],
    'all': ['id', 'name', 'count', 'bar_id'],
}
LINKS = {  # from, to
    'by the key': ('id', 'bar_id'), 'to the key': ('bar_id', 'id'),
    'same column': ('id', 'id'), 'other columns': ('count', 'name'),
}
SOURCES = {
    'in order': [5, 4, 0], 'reversed': [0, 4, 5],
    'duplicates': [5, 4, 5, 5, 0, 4], 'missing': [3, 4, 8],
    'only missing': [3, 8], 'falsy': [0], 'None': [None, 5, None, 0],
    'None last': [4, None],
}
CARDS = ('one', 'maybe', 'many')


def run(c):
    c.rule(R_ROWS, 'one row of the requested columns per identifier, in the '
           'requested order, nulls for missing rows')
    c.rule(R_LINK, 'the related identifiers per value, by the cardinality '
           'of the link')
    c.rule(R_NONE, 'no statement when there is nothing to look up')
    c.rule(R_REL, 'every connection is released')
    c.rule(R_FAIL, 'failures of the database are raised')
    c.rule(R_ALL, 'the complete result is read')
    c.rule(R_GRAPH, 'queries of graphs give the related rows')
    for v in VARIANTS:
        for i in IDS:
            c.scenario('%s: rows, %s' % (v, i), lambda s, a=(v, i):
                       rows(s, *a), R_ROWS)
        for card in CARDS:
            for n in LINKS:
                c.scenario('%s: link %s, %s' % (v, card, n),
                           lambda s, a=(v, card, n): links(s, *a), R_LINK)
        for ids in itertools.product('xy', repeat=2):
            for table in ('p', 'pq'):
                c.scenario('%s: any rows, %s of %s' % (
                    v, ''.join(ids), table), lambda s, a=(v, ids, table):
                    any_rows(s, *a), R_ROWS, free=FREE, cost=2)
        for card in CARDS:
            for n in (1, 2):
                c.scenario('%s: any links, %s, %d' % (v, card, n),
                           lambda s, a=(v, card, n): any_links(s, *a),
                           R_LINK, free=FREE, cost=2)
        c.scenario('%s: nothing to look up' % v, lambda s, v=v:
                   nothing(s, v), R_NONE)
        for n in (1, 99, 100, 101, 199, 200, 201, 250):
            c.scenario('%s: %d rows' % (v, n), lambda s, a=(v, n):
                       complete(s, *a), R_ALL, cost=4)
        for error in ('Failure', 'Stop'):
            for step in ('connect', 'execute', 'fetch', ('fetch', 2)):
                c.scenario('%s: %s at %s' % (v, error, step),
                           lambda s, a=(v, error, step): failing(s, *a),
                           R_FAIL)
        c.scenario('%s: keys' % v, lambda s, v=v: keys(s, v), R_ROWS)
        for t in TRANSFORMS:
            c.scenario('%s: graph%s' % (v, t), lambda s, a=(v, t):
                       graph(s, *a), R_GRAPH, cost=5)
    c.scenario('links of two tables', two_tables, R_LINK)


FREE = ()
TRANSFORMS = ('', ', other order', ', metrics')


class W26(World):
    def __init__(self, s, variant, rows=None, fail=None, error='Failure',
                 cols=None):
        super().__init__(s)
        self.v = variant
        self.mod = VARIANTS[variant]
        self.ns = s.call(s.code(DB, 'Namespace'))
        s.I.rich_eq = True
        h = s.I.ext_handlers
        for name, v in (('select', 'select'), ('any_', 'AnyOf'),
                        ('sql.select', 'select')):
            f = s.attr(self.ns, v)
            for p in {'sqlalchemy.' + name,
                      extlib.canon('sqlalchemy.' + name)}:
                h[p] = lambda I, a, k, f=f: I.call(f, list(a), k)
        self.tables = {n: s.call(
            s.attr(self.ns, 'Table'), Const(n), value(s, cs),
            value(s, ['id'])) for n, cs in (cols or COLS).items()}
        self.data = rows or {'foo': FOO, 'bar': BAR}
        self.db = s.call(
            s.attr(self.ns, 'Database'), value(s, {
                n: list(rs) for n, rs in self.data.items()}),
            keys=Const(variant == 'aiopg'), fail=value(s, fail),
            error=s.attr(self.ns, error))
        self.ctx = s.dict_of([(Const('db'), self.engine(self.db))])

    def engine(self, db):
        return self.s.call(self.s.attr(self.ns, self.v), db)

    def fq(self, table='foo', **kw):
        return self.s.mk(self.mod + ':FieldsQuery', kw.pop('key', Const(
            'db')), self.tables[table], **kw)

    def column(self, table, name):
        return self.s.item(self.s.attr(self.tables[table], 'c'), Const(name))

    def lq(self, frm, to, table='foo', key='db'):
        return self.s.mk(self.mod + ':LinkQuery', Const(key),
                         from_column=self.column(table, frm),
                         to_column=self.column(table, to))

    def result(self, r):
        return r if self.v == 'sync' else M.await_(self.I, r)

    def load(self, source, names, ids):
        """the rows a loader of fields returns"""
        s = self.s
        return self.result(s.call(source, self.ctx, s.list(*[
            s.mk('hiku.query:Field', Const(n)) for n in names]),
            value(s, ids)))

    def link_loader(self, card, source):
        """the loader of a link defined with the source"""
        s = self.s
        link = s.mk('hiku.graph:Link', Const('l'), self.linktype(
            card, 'foo'), source, requires=Const('id'))
        plain = self.field('id', s.stub(lambda a, k: NONE))
        g = self.graph(s.mk('hiku.graph:Node', Const('foo'), s.list(
            plain, link)), self.root())
        node = s.item(s.attr(g, 'nodes_map'), Const('foo'))
        return s.attr(s.item(s.attr(node, 'fields_map'), Const('l')), 'func')

    def follow(self, loader, ids):
        return self.result(self.s.call(loader, self.ctx, value(
            self.s, ids)))

    def count(self, name):
        return len(M.segs_of(self.I, self.s.attr(self.db, name)))

    def released(self, what):
        s = self.s
        for c in M.segs_of(self.I, s.attr(self.db, 'opened')):
            s.ok(s.I.resolve(s.attr(c, 'closed')) == Const(True), R_REL,
                 'a connection is not released after ' + what)

    def reset(self):
        for n in ('opened', 'statements', 'steps'):
            self.s.I.setattr(self.db, n, self.s.list())


def items(s, v):
    v = s.I.resolve(v)
    if not isinstance(v, (Ref, Tup)):
        return None
    if isinstance(v, Ref) and s.I.o(v).kind not in ('list', 'iter', 'gen'):
        return None
    return M.segs_of(s.I, v)


def same_list(s, got, want, rule, what, bag=False):
    xs = items(s, got)
    if xs is None:
        # other sequences
        out = []
        s.each(got, out.append)
        xs = out
    if not s.ok(len(xs) == len(want), rule, '%s: %d values instead of %d: '
                '%s' % (what, len(xs), len(want), s.show(got))):
        return None
    if bag:
        left = list(xs)
        for w in want:
            hit = [x for x in left if s.same3(x, value(s, w)) is True]
            if not s.ok(bool(hit), rule, '%s: %s is not among %s' % (
                    what, s.show(value(s, w)), s.show(got))):
                return None
            left = [x for x in left if x is not hit[0]]
        return xs
    for i, (x, w) in enumerate(zip(xs, want)):
        if w is not None and not isinstance(w, (list, tuple)):
            s.same(x, value(s, w), rule, '%s, value %d' % (what, i))
        elif w is None:
            s.ok(s.I.resolve(x) == NONE, rule, '%s, value %d is %s instead '
                 'of None' % (what, i, s.show(x)))
    return xs




def orders(rs):
    yield rs
    yield rs[::-1]
    yield rs[2:] + rs[:2]


def check_rows(s, w, got, names, ids, rs, key='id', what=''):
    what = 'rows of %s for %s%s' % (names, ids, what)
    by = {r[key]: r for r in rs}
    got = same_list(s, got, [[]] * len(ids), R_ROWS, what)
    for i, r in zip(ids, got or []):
        r0 = by.get(i) if i is not None else None
        same_list(s, r, [r0[n] if r0 else None for n in names], R_ROWS,
                  '%s, the row of %s' % (what, i))


def rows(s, v, ids):
    for rs in orders(FOO):
        w = W26(s, v, {'foo': rs, 'bar': BAR})
        q = w.fq()
        for names in FIELDS.values():
            got = w.load(q, names, IDS[ids])
            check_rows(s, w, got, names, IDS[ids], rs)
            w.released('a query of rows')


def related(rs, frm, to, x):
    return [r[to] for r in rs if x is not None and r[frm] == x]


def check_links(s, w, card, got, ids, rs, frm, to):
    what = '%s links from %s to %s of %s' % (card, frm, to, ids)
    got = same_list(s, got, [[]] * len(ids), R_LINK, what)
    nothing = s.get('hiku.graph:Nothing')
    for i, r in zip(ids, got or []):
        want = related(rs, frm, to, i)
        what1 = '%s, those of %s' % (what, i)
        if card == 'many':
            same_list(s, r, want, R_LINK, what1, bag=True)
        elif want:
            s.ok(any(s.same3(r, value(s, x)) is True for x in want), R_LINK,
                 '%s: %s, related are %s' % (what1, s.show(r), want))
        else:
            s.ok(s.I.resolve(r) == s.I.resolve(nothing), R_LINK,
                 '%s: %s instead of Nothing' % (what1, s.show(r)))


def links(s, v, card, name):
    frm, to = LINKS[name]
    rs0 = [r for r in FOO if r[to] is not None]
    if card != 'many':
        # at most one row per value
        rs0 = [r for i, r in enumerate(rs0)
               if r[frm] not in [x[frm] for x in rs0[:i]]]
    for rs in orders(rs0):
        w = W26(s, v, {'foo': rs, 'bar': BAR})
        loader = w.link_loader(card, w.lq(frm, to))
        for ids in list(SOURCES.values()) + list(IDS.values()):
            if card == 'one':
                ids = [i for i in ids if related(rs, frm, to, i)]
            got = w.follow(loader, ids)
            check_links(s, w, card, got, ids, rs, frm, to)
            w.released('a query of links')


def eq(s, a, b):
    return s.I.eq(a, b)


def some(s, *names):
    return [s.tok(n) for n in names]




def any_rows(s, v, ids, table):
    """any identifiers and keys, equal or not"""
    keys = some(s, *table)
    if len(keys) > 1 and (eq(s, *keys)):
        return   # keys of a table are unique
    rs = [{'id': k, 'name': s.tok('name of', n), 'count': s.tok('count of', n)}
          for n, k in zip(table, keys)]
    ids = [s.tok(i) for i in ids]
    w = W26(s, v, {'foo': rs}, cols={'foo': ['id', 'name', 'count']})
    names = ['count', 'name']
    got = w.load(w.fq(), names, ids)
    got = same_list(s, got, [[]] * len(ids), R_ROWS, 'rows of any identifiers')
    for i, r in zip(ids, got or []):
        hit = [x for x in rs if (eq(s, x['id'], i))]
        same_list(s, r, [hit[0][n] if hit else None for n in names], R_ROWS,
                  'the row of an identifier which is %s of the table' % (
                      'a key' if hit else 'not a key'))


def any_links(s, v, card, n):
    fs = some(s, 'p', 'q')[:n]
    if card != 'many' and n > 1 and (eq(s, *fs)):
        return
    rs = [{'a': f, 'b': s.tok('to', i)} for i, f in enumerate(fs)]
    w = W26(s, v, {'foo': rs}, cols={'foo': ['a', 'b']})
    ids = some(s, 'x', 'y')
    if card == 'one' and not all(any((eq(
            s, f, i)) for f in fs) for i in ids):
        return
    got = w.follow(w.link_loader(card, w.lq('a', 'b')), ids)
    got = same_list(s, got, [[]] * len(ids), R_LINK, 'any links')
    nothing = s.get('hiku.graph:Nothing')
    for i, r in zip(ids, got or []):
        want = [x['b'] for x in rs if (eq(s, x['a'], i))]
        if card == 'many':
            same_list(s, r, want, R_LINK, 'links of any value', bag=True)
        else:
            s.same(r, want[0] if want else nothing, R_LINK,
                   'the link of any value')


def nothing(s, v):
    w = W26(s, v)
    for names in FIELDS.values():
        got = w.load(w.fq(), names, [])
        same_list(s, got, [], R_ROWS, 'rows of no identifiers')
    for card in CARDS:
        for frm, to in LINKS.values():
            for ids in ([], [None], [None, None]):
                if card == 'one' and ids:
                    continue
                got = w.follow(w.link_loader(card, w.lq(frm, to)), ids)
                check_links(s, w, card, got, ids, [], frm, to)
    s.ok(w.count('statements') == 0, R_NONE, '%d statements are issued when '
         'there is nothing to look up' % w.count('statements'))
    w.released('nothing')


def complete(s, v, n):
    rs = [{'id': i, 'name': 'n%d' % i, 'count': i % 2, 'bar_id': 10 * i}
          for i in range(n)]
    w = W26(s, v, {'foo': rs})
    got = w.load(w.fq(), ['bar_id'], list(range(n)))
    got = same_list(s, got, [[]] * n, R_ALL, '%d rows' % n)
    for i, r in enumerate(got or []):
        same_list(s, r, [10 * i], R_ALL, 'row %d of %d' % (i, n))
    got = w.follow(w.link_loader('many', w.lq('count', 'id')), [1, 0])
    got = same_list(s, got, [[]] * 2, R_ALL, 'links of %d rows' % n)
    for i, r in zip((1, 0), got or []):
        xs = items(s, r)
        s.ok(sorted(x.v for x in xs) == list(range(i, n, 2)), R_ALL,
             'of %d related rows %d are returned' % (
                 len(range(i, n, 2)), len(xs)))
    w.released('a query of %d rows' % n)


def failing(s, v, error, step):
    rs = [{'id': i, 'name': 'n', 'count': 1, 'bar_id': i}
          for i in range(120)]
    w = W26(s, v, {'foo': rs}, step, error)
    for what, fn in (
            ('a query of rows', lambda: w.load(w.fq(), ['name'], list(
                range(120)))),
            ('a query of links', lambda: w.follow(w.link_loader(
                'many', w.lq('count', 'id')), [1]))):
        w.reset()
        exc, r = s.raises(fn)
        steps = [x.v for x in M.segs_of(s.I, s.attr(w.db, 'steps'))]
        name, n = step if isinstance(step, tuple) else (step, 1)
        if steps.count(name) < n:
            # the failure did not take place
            s.ok(exc is None, R_FAIL, '%s raises %s' % (
                what, exc and describe_exc(s.I, s.last_raise)))
        elif s.ok(exc is not None, R_FAIL, '%s hides the failure of the '
                  'database at %s' % (what, name)):
            s.ok(M.isinstance_(s.I, exc, s.attr(w.ns, error)), R_FAIL,
                 '%s raises %s instead of the failure of the database' % (
                     what, describe_exc(s.I, s.last_raise)))
        w.released('%s which fails at %s' % (what, name))


def keys(s, v):
    """two databases, another key"""
    w = W26(s, v)
    other = s.call(s.attr(w.ns, 'Database'), value(s, {
        'foo': [dict(r, name='other ' + r['name']) for r in FOO],
        'bar': BAR}), keys=Const(v == 'aiopg'))
    M.dict_set(s.I, w.ctx, Const('other'), w.engine(other))
    second = [dict(r, name='other ' + r['name']) for r in FOO]
    got = w.load(w.fq(key=Const('other')), ['name', 'id'], [2, 7])
    check_rows(s, w, got, ['name', 'id'], [2, 7], second)
    got = w.follow(w.link_loader('many', w.lq('id', 'name', key='other')),
                   [2, 7])
    check_links(s, w, 'many', got, [2, 7], second, 'id', 'name')
    got = w.load(w.fq(), ['name', 'id'], [2, 7])
    check_rows(s, w, got, ['name', 'id'], [2, 7], FOO)
    # the same sources with another context
    one, ctx = w.fq(), w.ctx
    follow = w.link_loader('many', w.lq('id', 'name'))
    swapped = s.dict_of([(Const('db'), w.engine(other))])
    for c, rs in ((ctx, FOO), (swapped, second), (ctx, FOO)):
        w.ctx = c
        got = w.load(one, ['name', 'id'], [2, 7])
        check_rows(s, w, got, ['name', 'id'], [2, 7], rs)
        got = w.follow(follow, [2, 7])
        check_links(s, w, 'many', got, [2, 7], rs, 'id', 'name')
    w.ctx = ctx
    # a key of another kind
    k = s.tok('key')
    M.dict_set(s.I, w.ctx, k, w.engine(other))
    got = w.load(w.fq(key=k), ['name', 'id'], [2, 7])
    check_rows(s, w, got, ['name', 'id'], [2, 7], second)
    # another primary key
    w = W26(s, v, {'foo': FOO[1:]})
    q = w.fq(primary_key=w.column('foo', 'name'))
    for ids in (['foo1', '', 'foo9'], ['foo9', 'foo2', 'nope', 'foo2']):
        got = w.load(q, ['id', 'count'], ids)
        check_rows(s, w, got, ['id', 'count'], ids, FOO[1:], 'name')
    w.released('queries of several databases')


def two_tables(s):
    for v in VARIANTS:
        w = W26(s, v)
        exc, r = s.raises(lambda: s.mk(
            w.mod + ':LinkQuery', Const('db'),
            from_column=w.column('foo', 'bar_id'),
            to_column=w.column('bar', 'id')))
        s.ok(exc is not None, R_LINK, 'a link between columns of two tables '
             'is accepted')


TYPES = {'id': 'Integer', 'name': 'String', 'count': 'Integer',
         'bar_id': 'Integer', 'type': 'Integer'}


def graph(s, v, how):
    foo, bar = FOO, BAR
    if 'order' in how:
        foo, bar = FOO[::-1], BAR[::-1]
    w = W26(s, v, {'foo': foo, 'bar': bar})
    fq, bq = w.fq('foo'), w.fq('bar')
    t = lambda n: s.get('hiku.types:' + TYPES[n])
    field = lambda n, q: s.mk('hiku.graph:Field', Const(n), t(n), q)
    mk = lambda n, ty, f, r: s.mk('hiku.graph:Link', Const(n), ty, f,
                                  requires=Const(r) if r else NONE)
    const = lambda x: s.stub(lambda a, k: value(s, x))
    if v != 'sync':
        const = lambda x: w.coro(s.stub(lambda a, k: value(s, x)))
    g = w.graph(
        s.mk('hiku.graph:Node', Const('foo'), s.list(
            *[field(n, fq) for n in COLS['foo']],
            mk('bar', w.linktype('maybe', 'bar'), w.lq('id', 'id', 'bar'),
               'bar_id'))),
        s.mk('hiku.graph:Node', Const('bar'), s.list(
            *[field(n, bq) for n in COLS['bar']],
            mk('foos', w.linktype('many', 'foo'), w.lq('bar_id', 'id'),
               'id'),
            mk('same', w.linktype('one', 'bar'), w.lq('id', 'id', 'bar'),
               'id'))),
        w.root(
            mk('foos', w.linktype('many', 'foo'), const([9, 1, 2, 9, 0]),
               None),
            mk('bars', w.linktype('many', 'bar'), const([5, 0, 5]), None),
            mk('none', w.linktype('many', 'bar'), const([]), None),
            mk('missing', w.linktype('many', 'foo'), const([3, 2]), None)))
    ex = w.sync() if v == 'sync' else w.async_executor()
    if 'metrics' in how:
        name = 'GraphMetrics' if v == 'sync' else 'AsyncGraphMetrics'
        m = s.mk('hiku.telemetry.prometheus:' + name, Const('g'),
                 metric=s.stub(lambda a, k: NONE, attrs={
                     'labels': s.stub(lambda a, k: s.stub(None, attrs={
                         'observe': s.stub(lambda a, k: NONE)}))}))
        g = s.meth(m, 'visit', g)
    F, L = w.qf, w.ql
    q = w.qn(
        L('foos', w.qn(F('name'), L('bar', w.qn(F('type'), L('foos', w.qn(
            F('id'), F('bar_id'))))), F('count'))),
        L('bars', w.qn(L('foos', w.qn(F('name'))), F('id'),
                       L('same', w.qn(F('name'))))),
        L('none', w.qn(F('name'), L('foos', w.qn(F('id'))))),
        L('missing', w.qn(F('name'))))
    r = w.execute(g, q, ex, w.ctx)
    if v != 'sync':
        r = M.await_(s.I, r)
    fb, bb = {x['id']: x for x in FOO}, {x['id']: x for x in BAR}
    of = lambda b: [x for x in foo if x['bar_id'] == b]

    def bar_(i):
        if i is None:
            return None
        return {'type': bb[i]['type'], 'foos': ('bag', [
            {'id': x['id'], 'bar_id': x['bar_id']} for x in of(i)])}
    want = {
        'foos': [{'name': fb[i]['name'], 'count': fb[i]['count'],
                  'bar': bar_(fb[i]['bar_id'])} for i in (9, 1, 2, 9, 0)],
        'bars': [{'id': i, 'same': {'name': bb[i]['name']},
                  'foos': ('bag', [{'name': x['name']} for x in of(i)])}
                 for i in (5, 0, 5)],
        'none': [],
        'missing': [{'name': None}, {'name': 'foo2'}]}
    compare(s, r, want, 'the result')
    w.released('a query of a graph')


def matches(s, v, w):
    if isinstance(w, dict):
        return all(matches(s, s.item(v, Const(n)), x) for n, x in w.items())
    return s.same3(v, value(s, w)) is True


def compare(s, v, w, what):
    v = s.I.resolve(v)
    if isinstance(w, dict):
        if not s.ok(v != NONE, R_GRAPH, '%s is None' % what):
            return
        for n, x in w.items():
            compare(s, s.item(v, Const(n)), x, '%s.%s' % (what, n))
    elif isinstance(w, tuple):
        xs = items(s, v)
        s.ok(xs is not None and len(xs) == len(w[1]) and all(
            any(matches(s, x, y) for x in xs) for y in w[1]), R_GRAPH,
            '%s is %s instead of %s' % (what, s.show(v), w[1]))
    elif isinstance(w, list):
        xs = items(s, v)
        if s.ok(xs is not None and len(xs) == len(w), R_GRAPH, '%s is %s, '
                'expected are %d objects' % (what, s.show(v), len(w))):
            for i, (x, y) in enumerate(zip(xs, w)):
                compare(s, x, y, '%s[%d]' % (what, i))
    elif w is None:
        s.ok(v == NONE, R_GRAPH, '%s is %s instead of None' % (
            what, s.show(v)))
    else:
        s.same(v, value(s, w), R_GRAPH, what)
