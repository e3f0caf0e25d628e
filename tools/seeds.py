"""The planted bugs: edits of /repo's original lines, and demonstrations."""
SEEDS = {}
ENG = 'hiku/engine.py'


def seed(sid, property, edits, needs, what, demo):
    SEEDS[sid] = dict(property=property, edits=edits, needs=needs, what=what,
                      demo=demo)


seed('c01-reuse-row', 'C01', [
    (ENG, "            node_idx[i].update(zip(names, row))",
          "            if names[0] not in node_idx[i]:\n"
          "                node_idx[i].update(zip(names, row))"),
], 'a loader whose first requested field was stored before by another visit '
   'of the same object, with further fields that were not',
   'the values of the other fields of an object reached twice are dropped', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q


def load(fields, ids):
    return [['%s-%s' % (f.name, i) for f in fields] for i in ids]


g = Graph([
    Node('x', [Field('a', None, load), Field('b', None, load)]),
    Root([
        Link('one', Sequence[TypeRef['x']], lambda: [1, 2], requires=None),
        Link('two', Sequence[TypeRef['x']], lambda: [2, 3], requires=None),
    ]),
])
r = Engine(SyncExecutor()).execute(g, q.Node([
    q.Link('one', q.Node([q.Field('a')])),
    q.Link('two', q.Node([q.Field('a'), q.Field('b')])),
]))
assert [x.b for x in r.two] == ['b-2', 'b-3']
''')

seed('c03-last-future', 'C03', [
    (ENG, "            to_dep[func] = self._schedule_fields(node, func, "
          "func_fields, ids)",
          "            dep = self._schedule_fields(node, func, func_fields, "
          "ids)\n            to_dep[func] = dep"),
    (ENG, "                dep = to_dep[to_func[graph_link.requires]]\n", ""),
], 'a node with two field loaders, the one a link requires being scheduled '
   'first and finishing last (ThreadsExecutor)',
   'links wait for the last scheduled loader, not for the one they require', '''
import time
from concurrent.futures import ThreadPoolExecutor
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.threads import ThreadsExecutor
from hiku import query as q


def slow(fields):
    time.sleep(0.3)
    return [1 for f in fields]


def fast(fields):
    return [2 for f in fields]


g = Graph([
    Node('x', [Field('v', None, lambda fs, ids: [[i] for i in ids])]),
    Root([
        Field('a', None, slow),
        Field('b', None, fast),
        Link('xs', Sequence[TypeRef['x']], lambda a: [a, a + 1],
             requires='a'),
    ]),
])
with ThreadPoolExecutor(2) as pool:
    r = Engine(ThreadsExecutor(pool)).execute(g, q.Node([
        q.Field('a'), q.Field('b'), q.Link('xs', q.Node([q.Field('v')]))]))
assert [x.v for x in r.xs] == [1, 2]
''')

seed('c04-group-by-func', 'C04', [
    (ENG, "        if func == self._current_func:\n"
          "            self._groups[-1].append((graph_obj, obj))",
          "        if self._current_func is not None "
          "and func in self._funcs:\n"
          "            self._groups[self._funcs.index(func)]"
          ".append((graph_obj, obj))"),
], 'an ordered query where a field of another loader stands between two '
   'fields of one loader',
   'the later field joins the first group of its loader: it runs before the '
   'selections written between them', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q
log = []


def act(fields):
    log.extend(f.name for f in fields)
    return [f.name for f in fields]


def other(fields):
    return act(fields)


def lnk():
    log.append('l')
    return [1]


g = Graph([
    Node('x', [Field('v', None, lambda fs, ids: [[i] for i in ids])]),
    Root([
        Field('a', None, act), Field('b', None, act),
        Field('o', None, other),
        Link('l', Sequence[TypeRef['x']], lnk, requires=None),
    ]),
])
r = Engine(SyncExecutor()).execute(g, q.Node([
    q.Field('a'), q.Link('l', q.Node([q.Field('v')])), q.Field('o'),
    q.Field('b')], ordered=True))
assert log == ['a', 'l', 'o', 'b'], log
''')

seed('c05-row-too-long', 'C05', [
    (ENG, "            and all(isinstance(r, Sequence) and len(r) == "
          "len(fields)",
          "            and all(isinstance(r, Sequence) and len(r) >= "
          "len(fields)"),
], 'a node loader that returns a row with more values than fields',
   'a malformed row is accepted and its values are cut off', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q

g = Graph([
    Node('x', [Field('v', None, lambda fs, ids: [[i, i] if i == 2 else [i]
                                                 for i in ids])]),
    Root([Link('l', Sequence[TypeRef['x']], lambda: [1, 2, 3],
               requires=None)]),
])
try:
    Engine(SyncExecutor()).execute(g, q.Node([
        q.Link('l', q.Node([q.Field('v')]))]))
except TypeError:
    pass
else:
    raise AssertionError('the malformed row was accepted')
''')

seed('c06-nothing-among-others', 'C06', [
    (ENG, "            if any(i is Nothing for i in result):",
          "            if result and all(i is Nothing for i in result):"),
    (ENG, "    assert ident is not Nothing\n    return Reference",
          "    return Reference"),
], 'a required single link which returns Nothing for some source objects but '
   'not for all of them',
   'Nothing is taken for an identifier of the linked node', '''
from hiku.graph import Graph, Root, Node, Field, Link, Nothing
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q


def load(fields, ids):
    return [[i for f in fields] for i in ids]


g = Graph([
    Node('y', [Field('v', None, load)]),
    Node('x', [Field('v', None, load),
               Link('y', TypeRef['y'],
                    lambda ids: [i if i != 2 else Nothing for i in ids],
                    requires='v')]),
    Root([Link('l', Sequence[TypeRef['x']], lambda: [1, 2, 3],
               requires=None)]),
])
try:
    Engine(SyncExecutor()).execute(g, q.Node([
        q.Link('l', q.Node([q.Link('y', q.Node([q.Field('v')]))]))]))
except (TypeError, AssertionError):
    pass
else:
    raise AssertionError('Nothing was accepted')
''')

seed('c09-first-ordered', 'C09', [
    ('hiku/query.py', "    ordered = any(n.ordered for n in nodes)",
     "    ordered = bool(nodes) and nodes[0].ordered"),
], 'merging an unordered query with an ordered one which is not the first',
   'an ordered query loses its order when it is merged into another one', '''
from hiku.query import Node, Field, merge

n = merge([Node([Field('a')]), Node([Field('b'), Field('c')], ordered=True)])
assert n.ordered
assert merge([Node([], ordered=True), Node([Field('b')])]).ordered
''')

seed('c10-falsy-copy', 'C10', [
    ('hiku/query.py', "kwargs.get(attr, self.__dict__[attr])",
     "kwargs.get(attr) or self.__dict__[attr]"),
], 'a copy whose new attribute is empty: all declared options of a link come '
   'out as an empty mapping, or all fields of a node are removed',
   'copies keep the old value when the new one is falsy', '''
from hiku.query import Node, Field, Link, QueryTransformer


class Strip(QueryTransformer):
    def visit_node(self, obj):
        return obj.copy(fields=[self.visit(f) for f in obj.fields
                                if not f.name.startswith('_')])


q = Node([Field('a'), Link('k', Node([Field('_x')]))])
n = Strip().visit(q)
assert n.fields_map['k'].node.fields == [], n.fields_map['k'].node.fields
assert Field('a', options={'x': 1}).copy(options=None).options is None
''')

seed('c11-fork-clear', 'C11', [
    ('hiku/executors/queue.py',
     "                for fork_set in self._forks.values():\n"
     "                    fork_set.discard(task_set)",
     "                for fork_set in self._forks.values():\n"
     "                    if task_set in fork_set:\n"
     "                        fork_set.clear()"),
], 'a task set with two forks which complete at different times',
   'a task set is complete as soon as one of its forks is', '''
from hiku.executors.queue import Queue


class Executor:
    def submit(self, fn, *args, **kwargs):
        return object()


queue = Queue(Executor())
top = queue.fork(None)
a, b = queue.fork(top), queue.fork(top)
ta, tb = a.submit(len), b.submit(len)
log = []
queue.add_callback(top, lambda: log.append('top'))
queue.progress([ta])
assert log == [], log
queue.progress([tb])
assert log == ['top'], log
''')

seed('c13-list-dedup', 'C13', [
    ('hiku/result.py',
     "            return [self.__class__(self.__idx__, ref, field.node)\n"
     "                    for ref in value]",
     "            seen = {ref.ident: ref for ref in value}\n"
     "            return [self.__class__(self.__idx__, ref, field.node)\n"
     "                    for ref in seen.values()]"),
], 'a sequence link which links to one object more than once',
   'repeated objects of a sequence link are dropped from the result', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q

g = Graph([
    Node('x', [Field('a', None, lambda fs, ids: [['a%s' % i] for i in ids])]),
    Root([Link('xs', Sequence[TypeRef['x']], lambda: [2, 1, 2],
               requires=None)]),
])
r = Engine(SyncExecutor()).execute(
    g, q.Node([q.Link('xs', q.Node([q.Field('a')]))]))
assert [x.a for x in r.xs] == ['a2', 'a1', 'a2'], [x.a for x in r.xs]
''')

seed('c15-option-of-links', 'C15', [
    ('hiku/validate/query.py',
     "unknown = set(self._options).difference(obj.options_map)\n"
     "        if unknown:",
     "unknown = set(self._options).difference(obj.options_map)\n"
     "        if unknown and obj.options:"),
], 'an option given to a link or field which declares no options at all',
   'unknown options are accepted where nothing is declared', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef
from hiku.validate.query import validate
from hiku import query as q

g = Graph([
    Node('x', [Field('a', None, None)]),
    Root([Link('xs', Sequence[TypeRef['x']], None, requires=None),
          Field('f', None, None)]),
])
assert validate(g, q.Node([
    q.Link('xs', q.Node([q.Field('a')]), options={'limit': 1})]))
assert validate(g, q.Node([q.Field('f', options={'limit': 1})]))
''')

seed('c16-null-member', 'C16', [
    ('hiku/validate/query.py',
     "            with self.push(self.value[key]):\n"
     "                self.visit(value_type)",
     "            if self.value[key] is not None:\n"
     "                with self.push(self.value[key]):\n"
     "                    self.visit(value_type)"),
], 'a record option with null in a member whose type is not Optional',
   'null is accepted for every member of a record', '''
from hiku.graph import Graph, Root, Field, Option
from hiku.types import Record, Integer, Optional
from hiku.validate.query import validate
from hiku import query as q

g = Graph([Root([Field('f', None, None, options=[
    Option('r', Record[{'i': Integer, 'o': Optional[Integer]}])])])])
check = lambda v: validate(g, q.Node([q.Field('f', options={'r': v})]))
assert not check({'i': 1, 'o': None})
assert check({'i': None, 'o': 1})
''')

seed('c17-adjacent-duplicates', 'C17', [
    ('hiku/validate/graph.py',
     "        counter = Counter(names)\n"
     "        return [k for k, v in counter.items() if v > 1]",
     "        names = list(names)\n"
     "        return [b for a, b in zip(names, names[1:]) if a == b]"),
], 'duplicated names with another name between them',
   'only neighbouring duplicates are found', '''
from hiku.graph import Graph, Node, Field
from hiku.validate.graph import GraphValidationError

for items in ([Node('x', [Field('a', None, None), Field('b', None, None),
                          Field('a', None, None)])],
              [Node('x', []), Node('y', []), Node('x', [])]):
    try:
        Graph(items)
    except GraphValidationError:
        continue
    raise AssertionError('accepted')
''')

seed('c19-null-variable', 'C19', [
    ('hiku/readers/graphql.py',
     "            try:\n"
     "                value = variables[name]  # TODO: check variable type\n"
     "            except KeyError:",
     "            value = variables.get(name)\n"
     "            if value is None:"),
], 'a variable with a default value which is given as null',
   'an explicit null is replaced by the default', '''
from hiku.readers.graphql import read

src = 'query Q($x: Int = 5) { a(p: $x) }'
assert read(src, {'x': None}).fields[0].options == {'p': None}
assert read(src, {}).fields[0].options == {'p': 5}
''')

seed('c18-skip-wins', 'C18', [
    ('hiku/readers/graphql.py',
     "        include = next((d for d in obj.directives "
     "if d.name.value == 'include'),\n                       None)",
     "        include = obj.directives[0] \\\n"
     "            if obj.directives[0].name.value == 'include' else None"),
], 'a selection with @skip before @include',
   '@include is only seen as the first directive', '''
from hiku.readers.graphql import read

q = read('query Q($s: Boolean, $i: Boolean) '
         '{ a @skip(if: $s) @include(if: $i) b @include(if: $i) }',
         {'s': False, 'i': False})
assert [f.name for f in q.fields] == [], q.fields
''')

seed('c21-sequence-option', 'C21', [
    ('hiku/introspection/graphql.py',
     "        return ident.of_type if isinstance(ident, NON_NULL) else ident",
     "        return ident.of_type if isinstance(ident, (NON_NULL, LIST)) "
     "else ident"),
], 'an optional of an optional sequence',
   'Optional[Optional[Sequence]] is described as the element type', '''
from hiku.graph import Graph, Root, Field
from hiku.types import Optional, Sequence, Integer
from hiku.introspection.graphql import GraphQLIntrospection
from hiku.graph import apply
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.readers.graphql import read
from hiku.result import denormalize

g = Graph([Root([Field('f', Optional[Optional[Sequence[Integer]]], None)])])
g = apply(g, [GraphQLIntrospection(g)])
q = read('{ __type(name: "Query") { fields { name type { kind } } } }')
r = denormalize(g, Engine(SyncExecutor()).execute(g, q))
kinds = {f['name']: f['type']['kind'] for f in r['__type']['fields']}
assert kinds['f'] == 'LIST', kinds
''')

seed('c22-formfeed', 'C22', [
    ('hiku/edn.py', '    "f": "\\f",\n', '    "f": "\\v",\n'),
], 'a string with a form feed', 'form feeds are read as vertical tabs', r'''
from hiku.edn import dumps, loads

assert loads(dumps('a\fb')) == 'a\fb', loads(dumps('a\fb'))
assert loads(dumps('a\fb', ensure_ascii=False)) == 'a\fb'
''')

seed('c32-plus-exponent', 'C32', [
    ('hiku/edn.py', '        if c in "0123456789+-eEMN.":',
     '        if c in "0123456789-eEMN.":'),
], 'a float which is written with a positive exponent',
   'the exponent of a large number is read as a number of its own', '''
from hiku.edn import dumps, loads

assert list(loads(dumps([1e+22, 1]))) == [1e+22, 1]
''')

seed('c23-options-leak', 'C23', [
    ('hiku/readers/protobuf.py',
     "            options = None\n"
     "            if i.link.HasField('options'):",
     "            if i.link.HasField('options'):"),
    ('hiku/readers/protobuf.py', "    for i in pb_node.items:",
     "    options = None\n    for i in pb_node.items:"),
], 'a link without options after a selection with options',
   'a link gets the options of the selection before it', '''
from hiku.export.protobuf import export
from hiku.readers.protobuf import transform
from hiku.query import Node, Field, Link

q = Node([Field('a', options={'x': 1.0}), Link('k', Node([Field('b')]))])
n = transform(export(q))
k, = [f for f in n.fields if f.name == 'k']
assert not k.options, k.options
''')

seed('c25-dedup-ids', 'C25', [
    ('hiku/sources/graph.py',
     "        q.process_link(self.graph.root, this_graph_link, "
     "this_query_link,\n                       None, ids)",
     "        q.process_link(self.graph.root, this_graph_link, "
     "this_query_link,\n                       None, "
     "list(dict.fromkeys(ids)))"),
], 'a sub-graph field visited with one identifier twice',
   'one row per distinct identifier is returned', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, TypeRef, Integer
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.sources.graph import SubGraph
from hiku import query as q

low = Graph([Node('x', [Field(
    'a', Integer, lambda fs, ids: [[i * 10 for _ in fs] for i in ids])])])
sg = SubGraph(low, 'x')
rows = {}
g = Graph([
    Node('X', [Field('a', Integer, sg)]),
    Root([Link('xs', Sequence[TypeRef['X']], lambda: [2, 1, 2],
               requires=None)]),
])
r = Engine(SyncExecutor()).execute(
    g, q.Node([q.Link('xs', q.Node([q.Field('a')]))]))
assert [x.a for x in r.xs] == [20, 10, 20], [x.a for x in r.xs]
''')

seed('c26-consumed-pair', 'C26', [
    ('hiku/sources/sqlalchemy.py',
     "    return [mapping.get(value, Nothing) for value in values]",
     "    return [mapping.pop(value, Nothing) for value in values]"),
], 'an optional SQL link from several objects with the same value',
   'only the first of several objects with one value gets its linked object',
   '''
from sqlalchemy import create_engine, MetaData, Table, Column, Integer
from sqlalchemy.pool import StaticPool
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import Sequence, Optional, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.sources import sqlalchemy as sa
from hiku import query as q

meta = MetaData()
t = Table('t', meta, Column('id', Integer, primary_key=True),
          Column('ref', Integer))
db = create_engine('sqlite://', poolclass=StaticPool,
                   connect_args={'check_same_thread': False})
meta.create_all(db)
with db.begin() as c:
    c.execute(t.insert(), [{'id': 1, 'ref': 7}])
g = Graph([
    Node('t', [Field('ref', None, sa.FieldsQuery('db', t))]),
    Node('x', [
        Field('key', None, lambda fs, ids: [[7] for _ in ids]),
        Link('t', Optional[TypeRef['t']],
             sa.LinkQuery('db', from_column=t.c.ref, to_column=t.c.id),
             requires='key'),
    ]),
    Root([Link('xs', Sequence[TypeRef['x']], lambda: [1, 2],
               requires=None)]),
])
r = Engine(SyncExecutor()).execute(g, q.Node([q.Link('xs', q.Node([
    q.Link('t', q.Node([q.Field('ref')]))]))]), {'db': db})
assert [x['t'] and x['t']['ref'] for x in r.xs] == [7, 7], \\
    [x['t'] for x in r.xs]
''')

seed('c27-observed-once', 'C27', [
    ('hiku/telemetry/prometheus.py',
     "        return func([f.name for f in args[fields_pos]], *args)",
     "        return func({f.name for f in args[fields_pos]}, *args)"),
], 'one field requested twice with different options (aliases)',
   'a field requested twice in one call is observed once', '''
from prometheus_client import REGISTRY
from hiku.graph import Graph, Root, Field, Option, apply
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.telemetry.prometheus import GraphMetrics
from hiku import query as q

g = apply(Graph([Root([Field(
    'f', None, lambda fs: [f.options['o'] for f in fs],
    options=[Option('o', None)])])]), [GraphMetrics('g')])
Engine(SyncExecutor()).execute(g, q.Node([
    q.Field('f', options={'o': 1}, alias='x'),
    q.Field('f', options={'o': 2}, alias='y')]))
n = REGISTRY.get_sample_value('graph_field_time_count', {
    'graph': 'g', 'node': 'Root', 'field': 'f'})
assert n == 2, n
''')

seed('c28-length', 'C28', [
    ('hiku/console/ui.py', "limit > 2 ** 20", "limit >= 2 ** 20"),
], 'a request of exactly the allowed size',
   'a query of exactly the size limit is refused', '''
import io
import json
from hiku.graph import Graph, Root, Field
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.console.ui import ConsoleApplication

g = Graph([Root([Field('f', None, lambda fs: [1 for _ in fs])])])
app = ConsoleApplication(g, Engine(SyncExecutor()))
body = b'[:f]'
body += b' ' * (2 ** 20 - len(body))
out = []
data = app({'REQUEST_METHOD': 'POST', 'PATH_INFO': '/', 'SCRIPT_NAME': '',
            'CONTENT_LENGTH': str(len(body)), 'wsgi.input': io.BytesIO(body)},
           lambda status, headers: out.append(status))
assert out == ['200 OK'], (out, data)
''')

seed('c29-link-options-context', 'C29', [
    ('hiku/engine.py',
     "            args.append(query_link.options)\n"
     "        dep = self._submit(graph_link.func, *args)",
     "            args.append(query_link.options)\n"
     "            dep = self._task_set.submit(graph_link.func, *args)\n"
     "        else:\n"
     "            dep = self._submit(graph_link.func, *args)"),
], 'a marked loader of a link with options',
   'loaders of links with options do not get the context', '''
from hiku.graph import Graph, Root, Node, Field, Link, Option
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine, pass_context
from hiku.executors.sync import SyncExecutor
from hiku import query as q


@pass_context
def load(ctx, opts):
    return [ctx['base'] + opts['n']]


g = Graph([
    Node('x', [Field('a', None, lambda fs, ids: [[i] for i in ids])]),
    Root([Link('xs', Sequence[TypeRef['x']], load, requires=None,
               options=[Option('n', None)])]),
])
r = Engine(SyncExecutor()).execute(g, q.Node([q.Link(
    'xs', q.Node([q.Field('a')]), options={'n': 1})]), {'base': 10})
assert [x.a for x in r.xs] == [11]
''')

seed('c31-read-cache', 'C31', [
    ('hiku/readers/graphql.py',
     "def read_operation(src, variables=None, operation_name=None):",
     "_ops = {}\n\n\n"
     "def read_operation(src, variables=None, operation_name=None):\n"
     "    if variables:\n"
     "        return _read_operation(src, variables, operation_name)\n"
     "    if src not in _ops:\n"
     "        _ops[src] = _read_operation(src, variables, operation_name)\n"
     "    return _ops[src]\n\n\n"
     "def _read_operation(src, variables=None, operation_name=None):"),
], 'one document read twice with different operation names',
   'the operation chosen first is returned for every later name', '''
from hiku.readers.graphql import read_operation

src = 'query A { a } query B { b }'
assert read_operation(src, None, 'A').name == 'A'
assert read_operation(src, None, 'B').name == 'B'
''')

seed('c02-split-by-options', 'C02', [
    ('hiku/engine.py',
     "            to_func[graph_field.name] = func\n"
     "            from_func[func].append((graph_field, query_field))\n",
     "            key = func, bool(query_field.options)\n"
     "            to_func[graph_field.name] = key\n"
     "            from_func[key].append((graph_field, query_field))\n"),
    ('hiku/engine.py',
     "        for func, func_fields in from_func.items():\n"
     "            to_dep[func] = self._schedule_fields(node, func, func_fields,"
     " ids)\n",
     "        for key, func_fields in from_func.items():\n"
     "            to_dep[key] = self._schedule_fields(node, key[0],"
     " func_fields, ids)\n"),
], 'one loader for fields with and without options, both selected',
   'the loader is called twice for the same objects', '''
from hiku.graph import Graph, Root, Field, Option
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q

calls = []


def load(fields):
    calls.append([f.name for f in fields])
    return [f.name for f in fields]


g = Graph([Root([Field('a', None, load),
                 Field('b', None, load, options=[Option('o', None)])])])
Engine(SyncExecutor()).execute(g, q.Node([
    q.Field('a'), q.Field('b', options={'o': 1})]))
assert calls == [['a', 'b']], calls
''')

seed('c07-self-link', 'C07', [
    ('hiku/engine.py',
     "            self._path.append(self._graph.nodes_map[graph_obj.node])\n"
     "            try:\n                node = self.visit(obj.node)\n"
     "            finally:\n                self._path.pop()\n",
     "            if graph_obj.node == self._path[-1].name:\n"
     "                # already there\n"
     "                node = obj.node\n"
     "            else:\n"
     "                self._path.append(self._graph.nodes_map[graph_obj.node])\n"
     "                try:\n                    node = self.visit(obj.node)\n"
     "                finally:\n                    self._path.pop()\n"),
], 'a link from a node to itself with options selected below it',
   'defaults are not filled in and required options are not checked', '''
from hiku.graph import Graph, Root, Node, Field, Link, Option
from hiku.types import Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q

seen = []


def load(fields, ids):
    seen.extend(f.options for f in fields)
    return [[i for f in fields] for i in ids]


g = Graph([
    Node('x', [
        Field('id', None, lambda fs, ids: [[i] for i in ids]),
        Field('f', None, load, options=[Option('o', None, default=5)]),
        Link('up', Sequence[TypeRef['x']], lambda ids: [[i] for i in ids],
             requires='id'),
    ]),
    Root([Link('xs', Sequence[TypeRef['x']], lambda: [1], requires=None)]),
])
Engine(SyncExecutor()).execute(g, q.Node([q.Link('xs', q.Node([
    q.Link('up', q.Node([q.Field('f')]))]))]))
assert seen == [{'o': 5}], seen
''')

seed('c12-gives-up', 'C12', [
    ('hiku/executors/threads.py',
     "            done, _ = wait(queue.__futures__, "
     "return_when=FIRST_COMPLETED)\n"
     "            queue.progress(done)\n",
     "            done, _ = wait(queue.__futures__, timeout=3,\n"
     "                           return_when=FIRST_COMPLETED)\n"
     "            queue.progress(done)\n"
     "            if not done:\n"
     "                break\n"),
], 'a loader which takes longer than three seconds',
   'the query is answered while its loader still runs', '''
import time
from concurrent.futures import ThreadPoolExecutor
from hiku.graph import Graph, Root, Field
from hiku.engine import Engine
from hiku.executors.threads import ThreadsExecutor
from hiku import query as q


def load(fields):
    time.sleep(4)
    return [f.name for f in fields]


with ThreadPoolExecutor(1) as pool:
    r = Engine(ThreadsExecutor(pool)).execute(
        Graph([Root([Field('a', None, load)])]), q.Node([q.Field('a')]))
    assert r.a == 'a'
''')

seed('c14-memo', 'C14', [
    ('hiku/denormalize/base.py',
     "            self._res.append({})\n"
     "            self._data.append(value)\n"
     "            super().visit_link(obj)\n"
     "            self._data.pop()\n"
     "            self._type.pop()\n"
     "            return self._res.pop()\n",
     "            self._res.append({})\n"
     "            self._data.append(value)\n"
     "            key = None\n"
     "            if isinstance(value, Proxy):\n"
     "                key = (value.__ref__.node, value.__ref__.ident, obj.name)\n"
     "            if key not in self._seen:\n"
     "                super().visit_link(obj)\n"
     "            else:\n"
     "                self._res[-1].update(self._seen[key])\n"
     "            self._data.pop()\n"
     "            self._type.pop()\n"
     "            res = self._res.pop()\n"
     "            if key is not None:\n"
     "                self._seen[key] = res\n"
     "            return res\n"),
    ('hiku/denormalize/base.py',
     "        self._res = deque()\n",
     "        self._res = deque()\n        self._seen = {}\n"),
], 'one object selected twice through one link with different selections',
   'the second place shows the fields of the first', '''
from hiku.graph import Graph, Root, Node, Field, Link
from hiku.types import TypeRef
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku import query as q

load = lambda fs, ids: [[f.name for f in fs] for i in ids]
g = Graph([
    Node('x', [Field('a', None, load), Field('b', None, load)]),
    Root([Link('x', TypeRef['x'], lambda: 1, requires=None)]),
])
query = q.Node([q.Link('x', q.Node([q.Field('a')]), alias='p'),
                q.Link('x', q.Node([q.Field('b')]), alias='q')])
r = Engine(SyncExecutor()).execute(g, query)
out = DenormalizeGraphQL(g, r, 'Query').process(query)
assert out == {'p': {'a': 'a'}, 'q': {'b': 'b'}}, out
''')

seed('c20-strip-special', 'C20', [
    ('hiku/endpoint/graphql.py',
     "                                        and f.name == '__typename')])",
     "                                        and f.name.startswith('__'))])"),
], 'an unknown field whose name begins with two underscores',
   'loaders are called for the invalid document and dispatch raises', '''
from hiku.graph import Graph, Root, Field
from hiku.types import String
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.endpoint.graphql import GraphQLEndpoint

calls = []


def load(fields):
    calls.append(fields)
    return ['x' for f in fields]


ep = GraphQLEndpoint(Engine(SyncExecutor()), Graph([
    Root([Field('a', String, load)])]))
out = ep.dispatch({'query': '{ a __nope }'})
assert 'errors' in out and not calls, (out, calls)
''')

seed('c24-else-scope', 'C24', [
    ('hiku/expr/checker.py',
     "            then = self.visit(then)\n        else_ = self.visit(else_)\n",
     "            then = self.visit(then)\n"
     "            else_ = self.visit(else_)\n"),
], 'if_some with a variable named like an outer one used in the else branch',
   'the checker takes the outer variable of the else branch for the bound one',
   '''
from hiku.expr.core import S, if_some, to_expr
from hiku.expr.checker import check
from hiku.types import Record, Optional, String

expr, functions = to_expr(if_some([S.x, S.x.sub], S.x.a, S.x.b))
check(expr, {}, {'x': Record[{
    'sub': Optional[Record[{'a': String}]], 'b': String}]})
''')

seed('c17-single-item', 'C17', [
    ('hiku/validate/graph.py',
     "        self.visit(root)\n\n        for item in items:\n",
     "        if root.fields and len(items) > 1:\n"
     "            self.visit(root)\n\n        for item in items:\n"),
], 'a graph of one root only', 'duplicated names are accepted', '''
from hiku.graph import Graph, Root, Field
from hiku.validate.graph import GraphValidationError

load = lambda fs: [1 for f in fs]
try:
    Graph([Root([Field('a', None, load), Field('a', None, load)])])
except GraphValidationError:
    pass
else:
    raise SystemExit('duplicated names are accepted')
''')

seed('c21-memo-by-name', 'C21', [
    ('hiku/introspection/graphql.py',
     "@listify\ndef field_type_link(schema, ids):\n    nodes_map",
     "@listify\ndef field_type_link(schema, ids):\n"
     "    seen = {}\n    nodes_map"),
    ('hiku/introspection/graphql.py',
     "            yield type_ident.visit(field.type or Any)",
     "            if field.name not in seen:\n"
     "                seen[field.name] = type_ident.visit(field.type or Any)\n"
     "            yield seen[field.name]"),
], 'fields of two nodes with one name and different types',
   'both are described with the type of the first', '''
from hiku.graph import Graph, Root, Node, Field
from hiku.types import String, Integer
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.endpoint.graphql import GraphQLEndpoint

load = lambda fs, ids=(): []
ep = GraphQLEndpoint(Engine(SyncExecutor()), Graph([
    Node('x', [Field('a', String, load)]),
    Node('y', [Field('a', Integer, load)]),
    Root([Field('r', String, load)]),
]))
out = ep.dispatch({'query': '{ __schema { types { name fields { name type '
                            '{ ofType { name } } } } } }'})
got = {t['name']: t['fields'][0]['type']['ofType']['name']
       for t in out['data']['__schema']['types'] if t['name'] in ('x', 'y')}
assert got == {'x': 'String', 'y': 'Int'}, got
''')

seed('c16-equal-values', 'C16', [
    ('hiku/validate/query.py',
     "            self.path.append(linked_node)\n"
     "            try:\n                self.visit(obj.node)\n",
     "            if (linked_node.name, obj.node) in self.checked:\n"
     "                return\n"
     "            self.checked.append((linked_node.name, obj.node))\n"
     "            self.path.append(linked_node)\n"
     "            try:\n                self.visit(obj.node)\n"),
    ('hiku/validate/query.py',
     "        self.errors = Errors()\n\n    def visit_field",
     "        self.errors = Errors()\n        self.checked = []\n\n"
     "    def visit_field"),
], 'the same selection below two links, with 1 and True for an option',
   'True is accepted as an Integer', '''
from hiku.graph import Graph, Root, Node, Field, Link, Option
from hiku.types import Integer, TypeRef
from hiku.validate.query import validate
from hiku import query as q

load = lambda *a: None
g = Graph([
    Node('x', [Field('f', None, load, options=[Option('o', Integer)])]),
    Root([Link('a', TypeRef['x'], load, requires=None),
          Link('b', TypeRef['x'], load, requires=None)]),
])
sub = lambda v: q.Node([q.Field('f', options={'o': v})])
assert not validate(g, q.Node([q.Link('a', sub(1)), q.Link('b', sub(1))]))
assert validate(g, q.Node([q.Link('a', sub(1)), q.Link('b', sub(True))]))
''')

seed('c08-empty-values', 'C08', [
    ('hiku/query.py',
     "            return _compute_hash(self.options)\n",
     "            return _compute_hash({k: v for k, v in self.options.items()\n"
     "                                  if v or v is False})\n"),
], 'one field selected twice, with null and with 0 for an option',
   'both selections get the value loaded for the last', '''
from hiku.graph import Graph, Root, Field, Option
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku import query as q

g = Graph([Root([Field('f', None, lambda fs: [f.options['o'] for f in fs],
                       options=[Option('o', None)])])])
r = Engine(SyncExecutor()).execute(g, q.Node([
    q.Field('f', options={'o': None}, alias='a'),
    q.Field('f', options={'o': 0}, alias='b')]))
assert r.a is None and r.b == 0, (r.a, r.b)
''')
