#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None,
        },
    })

ENG = 'hiku/engine.py'
p('C01', 'Every loaded value is stored for the right object and field',
  """For every graph and query, the value a field loader returns at position (i, j) becomes the result's value
  for the i-th identifier and the j-th requested field the loader was given, and the identifiers a link loader returns
  become the linked objects of the corresponding source object. Every field and link the query selects, at every level
  and for every reached object, is present in the finished result.""",
  ['inputs', 'programs'], 'all graphs (any number of nodes, fields, links, shared or separate loaders), all queries over them, any number and order of identifiers',
  'The tests run a few dozen fixed queries with 1-3 identifiers; a misalignment that needs several loaders, more identifiers or a mixed order is outside them.',
  [ENG, 'hiku/result.py'],
  [('Query.process_node / _schedule_fields / store_fields', ENG), ('process_link / store_links / link_result_to_ids', ENG)],
  ['hiku.engine.Engine.execute', 'hiku.result.Proxy'],
  [('Index', 'normalised storage node -> ident -> key -> value', 'hiku/result.py')])
p('C02', 'Loading is batched per loader, never per object (no N+1)',
  """While a query visits an unordered node, each distinct field loader among the selected fields is called exactly once,
  with all of its selected fields and all identifiers together, and the loader of each selected link is called exactly once
  for all identifiers. Loaders of fields and links that were not selected (and are not required by a selected link) are not called.""",
  ['inputs', 'programs'], 'all queries, graphs, and numbers of identifiers and fields',
  'Existing tests assert calls for a handful of shapes with at most three ids; the call count must not depend on the amount of data or the selection order.',
  [ENG], [('SplitQuery, process_node grouping by function', ENG), ('_schedule_fields / _schedule_link', ENG)], ['calls of user loader functions'])
p('C03', 'A link runs only after the field it requires, with its values',
  """Under every order in which tasks complete, a link that declares a required field is loaded only after the values of that
  field have been stored for the visited objects, whether or not the query selects the field itself. Its loader receives exactly those
  values, in the order of the identifiers (for the root: the single value).""",
  ['schedules', 'inputs'], 'all completion orders of submitted tasks, all positions of fields and links in the query, all ids',
  'Tests run mostly on the synchronous executor, which only ever produces one completion order.',
  [ENG, 'hiku/executors/queue.py'], [('add_callback(dep, schedule) in process_node', ENG), ('link_reqs', ENG), ('Queue.progress', 'hiku/executors/queue.py')],
  ['arguments of link loaders'])
p('C04', 'Mutations run serially in document order',
  """The top-level selections of a GraphQL mutation are executed one after another in the order they are written in the document:
  the loader of a later selection is not called before the loader of the previous one has completed and its value was stored.
  This holds after fragments are expanded and duplicate selections merged, for any mix of fields and links.""",
  ['schedules', 'inputs'], 'all mutation documents and all completion orders',
  'One test checks an ordered node with hand-built query on the sync executor; the path from document to execution order is not tested.',
  [ENG, 'hiku/query.py', 'hiku/readers/graphql.py'],
  [('GroupQuery, Query._process_node_ordered', ENG), ('merge keeps order for ordered nodes', 'hiku/query.py'), ('ordered=MUTATION', 'hiku/readers/graphql.py')],
  ['order of loader calls'])
p('C05', 'Loader results of the wrong shape are rejected, not stored',
  """When a field loader returns something that is not a sequence with one entry per identifier, each a sequence with one value per requested field
  (for the root: one value per field), or a link loader returns something that does not match the link's cardinality per source object,
  the query fails with TypeError. Nothing of the malformed result is stored, and well-formed results are always accepted.""",
  ['inputs', 'fault_sequences'], 'all loader results, for every cardinality and for root and non-root nodes',
  'The tests enumerate a few malformed results; which row or which identifier is wrong is not varied.',
  [ENG], [('_check_store_fields', ENG), ('_check_store_links', ENG)], ['Engine.execute raising', 'the result index'])
p('C06', 'Link cardinality and Nothing are honoured end to end',
  """A non-optional single link whose loader returns Nothing for any source object makes the query fail; an optional link returning Nothing yields None
  and nothing is loaded through it; a sequence link yields one list per source object in the returned order. The linked node is visited with exactly the identifiers
  that were linked to, and is not visited at all when there are none.""",
  ['inputs'], 'all loader results for links of each cardinality, from root and non-root nodes, with and without required field',
  'Tests cover each cardinality with one or two fixed results.',
  [ENG, 'hiku/graph.py'], [('link_ref_*', ENG), ('link_result_to_ids', ENG), ('get_type_enum', 'hiku/graph.py')], ['result values', 'identifiers given to loaders'])
p('C07', 'Options reach loaders complete, and missing ones stop the query',
  """Before any loader runs, every selected field or link with declared options gets exactly its declared options: the value from the query if given, otherwise the default.
  A declared option with neither makes the query fail with TypeError before any loader is called.
  A link's loader receives the options mapping exactly when the link declares options.""",
  ['inputs', 'programs'], 'all option declarations and all option values in queries, at every nesting level',
  'Tests sample single fields with one option.',
  [ENG, 'hiku/sources/graph.py'], [('InitOptions', ENG), ('_yield_options', ENG), ('_schedule_link options argument', ENG)], ['arguments of loaders'])
p('C08', 'Selections with different options never share a value',
  """Two selections of the same field or link with different option values (aliases) are stored and read back independently, whatever the option values are;
  the same selection under two aliases reads the same value. The storage key depends on the field name and on all option names and values and not on the alias.""",
  ['inputs'], 'all pairs of option values, including nested lists and mappings, negative numbers, booleans',
  'Tests use a handful of option values; a key computed through a lossy function collides only for special pairs.',
  ['hiku/query.py', ENG, 'hiku/result.py'], [('FieldBase.index_key / options_hash', 'hiku/query.py')], ['Proxy item access'])
p('C09', 'Merging queries neither loses nor invents selections',
  """Merging any list of queries yields each distinct selection (name, options, result name) exactly once, with the sub-selections of equal links merged recursively,
  and is ordered if any input is. Selections that differ in name, options or result name stay separate, and plain fields are never dropped in favour of links or vice versa.""",
  ['inputs'], 'all lists of query nodes, at any nesting depth',
  'Six hand-written merges exist in the tests.',
  ['hiku/query.py'], [('merge / _merge', 'hiku/query.py')], ['hiku.query.merge'])
p('C10', 'Queries and graphs are never modified by the library',
  """Executing, validating, exporting, transforming, merging or denormalizing never changes the query objects, option values, graph objects, variables or context that were passed in, nor the values loaders returned;
  transformed queries and graphs are new objects that preserve every attribute that was not deliberately changed. A result can therefore be read with the original query.""",
  ['inputs', 'histories'], 'all inputs; all sequences of library calls sharing the same query or graph objects',
  'Tests use each query once and rarely look at it afterwards.',
  ['hiku/query.py', 'hiku/graph.py', ENG, 'hiku/endpoint/graphql.py', 'hiku/validate/query.py'],
  [('Base.copy, QueryTransformer', 'hiku/query.py'), ('GraphTransformer', 'hiku/graph.py')], ['attributes of the objects passed in'])
p('C11', 'Queue callbacks fire exactly once, in order, after completion',
  """A callback registered on a task or on a task set fires exactly once: for a task after it was reported done, for a task set after all its own tasks and all task sets forked from it are complete.
  Callbacks of one task fire in registration order, and work submitted or callbacks added while callbacks run is not lost.""",
  ['schedules', 'histories'], 'all interleavings of submit, fork, add_callback and progress with any subset of tasks done',
  'Five unit tests with fixed schedules exist.',
  ['hiku/executors/queue.py'], [('Queue.progress/submit/fork/add_callback', 'hiku/executors/queue.py')], ['callback invocations'],
  [('_futures/_forks/_callbacks', 'pending tasks, pending child sets, registered callbacks', 'hiku/executors/queue.py')])
p('C12', 'Executors return only when no work is outstanding',
  """Every executor hands each submitted call with all its arguments to its backend, reports only finished tasks as done, and returns the workflow's result only when no task is outstanding;
  exceptions of loaders reach the caller. When an asyncio execution is cancelled, every outstanding task is cancelled and awaited and the cancellation propagates.""",
  ['schedules', 'crash_points'], 'all completion orders, all points of cancellation or failure',
  'Tests use one cancellation point and trivially short workloads.',
  ['hiku/executors/sync.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py', ENG], [('process loops', 'hiku/executors/*.py')], ['Engine.execute return/raise'])
p('C13', 'A result exposes exactly what was requested',
  """Reading a result under a name the query did not select raises KeyError (AttributeError for attribute access) and never creates data; reading a selected name returns the stored value,
  a nested result for a single link, a list of nested results in order for a sequence link, or None for an absent optional link.
  Data that is selected but missing fails loudly instead of reading as empty.""",
  ['inputs'], 'all queries, keys and stored values', 'Tests read expected keys only, with few exceptions.',
  ['hiku/result.py', ENG], [('Proxy.__getitem__/__getattr__', 'hiku/result.py'), ('Index.finish', 'hiku/result.py')], ['Proxy item and attribute access'])
p('C14', 'Denormalized output mirrors the query',
  """Both denormalizers turn a result into plain data that has, at every level, exactly one entry per selection under its result name (alias or name), lists for sequences in order and None for absent optionals,
  for links to nodes and for complex fields alike. In GraphQL output each selected __typename is the name of the type of the object it was selected on.""",
  ['inputs', 'programs'], 'all results of valid queries, all nesting of links, complex fields, optionals and sequences',
  'Tests cover a few shapes; aliases inside complex fields and nested named types are not covered.',
  ['hiku/result.py', 'hiku/denormalize/base.py', 'hiku/denormalize/graphql.py'], [('denormalize', 'hiku/result.py'), ('Denormalize.visit_*', 'hiku/denormalize/base.py')], ['hiku.result.denormalize', 'DenormalizeGraphQL.process'])
p('C15', 'Query validation reports every invalid selection and never crashes',
  """Validating any query against a graph reports at least one error when it selects, at any depth, an unknown field or link, a link as a field, a simple field as a link, an unknown or missing required option,
  or distinct selections under one result name; inside complex fields unknown names and options are errors too. A query with none of these gets no errors, and validation itself never raises.""",
  ['inputs', 'programs'], 'all graphs and all queries', 'Around 40 sample queries exist; the guarantee is over every selection at every depth.',
  ['hiku/validate/query.py'], [('QueryValidator', 'hiku/validate/query.py'), ('_RecordFieldsValidator', 'hiku/validate/query.py'), ('_ValidateOptions', 'hiku/validate/query.py')], ['hiku.validate.query.validate'])
p('C16', 'Option values are checked against their declared types',
  """Validation accepts an option value exactly when it conforms to the declared type: booleans, strings, integers and floats only by their own kind, Optional also null, sequences and mappings element by element,
  records with exactly their declared fields, named types by their definition, and anything for Any or undeclared types. The check goes through every nested element.""",
  ['inputs'], 'all declared types and all option values', 'Tests sample one or two values per type.',
  ['hiku/validate/query.py'], [('_OptionTypeValidator', 'hiku/validate/query.py')], ['hiku.validate.query.validate'])
p('C17', 'Inconsistent graph definitions are rejected',
  """Building a graph fails with GraphValidationError when it contains duplicated node names, duplicated field or link names in a node (or across root nodes), a link to a node that does not exist,
  a link requiring a field its node does not have, or members of a wrong kind in the graph, a node, or the options of a field or link; a graph with none of these is accepted. The check happens before anything else uses the definition.""",
  ['inputs', 'programs'], 'all graph definitions', 'Seven definitions are tested.',
  ['hiku/validate/graph.py', 'hiku/graph.py'], [('GraphValidator', 'hiku/validate/graph.py'), ('Graph.__init__', 'hiku/graph.py')], ['hiku.graph.Graph'])
p('C18', '@skip and @include decide selection exactly as GraphQL says',
  """A field, fragment spread or inline fragment is part of the query exactly when it has no @skip whose condition is true and no @include whose condition is false, for literal and variable conditions and any order or combination of both directives.
  A directive with a wrong number or name of arguments is rejected.""",
  ['inputs'], 'all documents and variable values', 'Tests check single directives with one value each.',
  ['hiku/readers/graphql.py'], [('_should_skip and its three users', 'hiku/readers/graphql.py')], ['hiku.readers.graphql.read'])
p('C19', 'GraphQL documents are read completely and faithfully',
  """Reading a document yields every selected field with its alias, arguments and nested selections, with fragments expanded in place and variables replaced by the provided value, else the default, else null; a missing required variable,
  an undeclared variable, a cyclic, duplicated or unknown fragment, an ambiguous or unknown operation are rejected. The chosen operation is the named one or the only one.""",
  ['inputs'], 'all documents, variables and operation names', 'The tests sample about thirty documents.',
  ['hiku/readers/graphql.py'], [('GraphQLTransformer, FragmentsTransformer, OperationGetter', 'hiku/readers/graphql.py')], ['hiku.readers.graphql.read', 'read_operation'])
p('C20', 'The GraphQL endpoint only executes readable, valid operations',
  """For any query document the endpoint answers either with data or with a list of errors: documents that cannot be parsed, read or validated, or whose operation type has no graph, produce errors and no loader is called.
  Queries run against the query graph and mutations against the mutation graph, the synchronous and asynchronous endpoints behave alike, and a batch gets one response per request in order.""",
  ['inputs'], 'all request documents and batches', 'Endpoint tests issue a few successful requests.',
  ['hiku/endpoint/graphql.py', 'hiku/readers/graphql.py'], [('_switch_graph, _process_query, dispatch', 'hiku/endpoint/graphql.py')], ['dispatch'])
p('C21', 'Introspection describes the whole graph, identically for sync and async',
  """Introspecting any valid graph lists every node, data type and root, every public field with its options and its type (nullable exactly for Optional and untyped, list for sequences; types GraphQL cannot express - Any, mappings, inline records - are the nullable scalar Any), for every kind of declared type, without failing.
  The asynchronous variant provides awaitable loaders for exactly the same schema.""",
  ['programs'], 'all graphs; all declared field and option types, including none', 'One large graph is compared in tests.',
  ['hiku/introspection/graphql.py'], [('TypeIdent, *_link, *_info loaders', 'hiku/introspection/graphql.py'), ('MakeAsync, BindToSchema', 'hiku/introspection/graphql.py')], ['__schema and __type queries'])
p('C22', 'Strings written as EDN read back unchanged',
  """Every escape sequence the EDN writer can produce for a string, with or without ASCII-only output, is understood by the EDN reader as the same character, and every delimiter or quoting character inside a string is escaped by the writer.
  The reader and writer agree on the literals for null, booleans, keywords, lists, vectors, sets, maps and tagged values.""",
  ['inputs'], 'all strings and all supported value kinds', 'Tests contain a few ASCII strings.',
  ['hiku/edn.py'], [('_CHAR_MAP and string branch of parser', 'hiku/edn.py'), ('_iterencode', 'hiku/edn.py')], ['hiku.edn.loads(hiku.edn.dumps(x))'])
p('C23', 'Exported queries carry everything their reader reads',
  """For every query of fields and links without aliases, exporting it to the simple (EDN), Protocol Buffers or GraphQL form and reading that form back gives the same selections, in the same nesting, with the same option names;
  the GraphQL form also keeps aliases. No selection, option or sub-selection is dropped, duplicated or attached to another parent.""",
  ['inputs'], 'all queries', 'One query per format is exported in tests.',
  ['hiku/export/simple.py', 'hiku/export/protobuf.py', 'hiku/export/graphql.py', 'hiku/readers/simple.py', 'hiku/readers/protobuf.py', 'hiku/builder.py'], [('Exporter classes', 'hiku/export/*.py'), ('transform/_extract', 'hiku/readers/*.py')], ['export then read'])
p('C24', 'Expression variables mean the same to the checker and to compiled code',
  """In every expression, each symbol resolves to the same binding in type checking and in the compiled code: the innermost enclosing binding of that name, visible only in the part of the form it is declared for, and otherwise the option, function or graph field of that name.
  Nested bindings of the same name do not interfere, and a binding leaves no trace after its form.""",
  ['programs'], 'all expressions built from get, each, if, if_some, function calls, lists and maps', 'Tests compile about fifteen expressions without reuse of names.',
  ['hiku/expr/checker.py', 'hiku/expr/compiler.py'], [('Environ in both modules', 'hiku/expr/*.py'), ('visit_each_expr, visit_if_some_expr', 'hiku/expr/*.py')], ['value of expression fields'])
p('C25', 'Expression fields get all low-level data they use, for the right object',
  """For every sub-graph field, the low-level query contains every field and link the expression and the declared argument types of its functions refer to, so evaluating it never misses data; fields of one sub-graph visit are served by one low-level query.
  Each expression is evaluated once per identifier, in order, with its own option values bound to the option names it declares.""",
  ['programs', 'inputs'], 'all expressions, function signatures, options and identifiers', 'About a dozen expressions are tested.',
  ['hiku/sources/graph.py', 'hiku/expr/refs.py', 'hiku/expr/core.py'], [('RequirementsExtractor, ref_to_req, type_to_query', 'hiku/expr/refs.py'), ('SubGraph.__call__, BoundExpr.__postprocess__', 'hiku/sources/graph.py')], ['values of expression fields'])
p('C26', 'SQL sources return rows aligned with the request',
  """Each SQL source returns for every identifier, in request order, the selected columns in request order (nulls for a missing row), and for links the identifiers related to each source value per the link's cardinality;
  it issues no statement when there is nothing to look up and always releases its connection. The synchronous and both asynchronous variants agree and read the complete result.""",
  ['inputs', 'fault_sequences'], 'all identifier lists (duplicates, missing, None), column selections and database row orders; failures during execution', 'The sync source is tested against one SQLite fixture; the async variants are not run at all.',
  ['hiku/sources/sqlalchemy.py', 'hiku/sources/sqlalchemy_async.py', 'hiku/sources/aiopg.py'], [('FieldsQuery, LinkQuery', 'hiku/sources/*.py'), ('_to_*_mapper', 'hiku/sources/sqlalchemy.py')], ['return values of sources'])
p('C27', 'Telemetry does not change behaviour and counts what ran',
  """Wrapping any graph with the metrics transformation leaves every loader's arguments, result, exceptions, context passing and grouping unchanged for synchronous, asynchronous and sub-graph loaders.
  Every successful loading is observed once per requested field or link under the name of the node that owns it.""",
  ['programs', 'inputs'], 'all graphs and queries, including loaders shared between nodes', 'Tests use one node with one function.',
  ['hiku/telemetry/prometheus.py'], [('GraphMetricsBase and wrappers', 'hiku/telemetry/prometheus.py')], ['loader calls', 'metric observations'])
p('C28', 'The console validates input and hides internals unless debugging',
  """The console executes a posted query only if it is within the size limit and validation reports no errors; failures while reading, validating or executing produce a 500 response that contains the traceback only in debug mode.
  Unknown paths and unsupported methods get 404 and 405, and the declared content length always equals the length of the body.""",
  ['inputs', 'fault_sequences'], 'all requests, paths, methods, bodies and failures', 'Five requests are tested.',
  ['hiku/console/ui.py'], [('ConsoleApplication', 'hiku/console/ui.py')], ['WSGI responses'])
p('C29', 'The query context reaches exactly the loaders that ask for it',
  """A loader marked to receive the context gets the query's context as its first argument on every call, however it is wrapped by sources, introspection or metrics; unmarked loaders never get it.
  Reading a missing key from the context raises KeyError naming the key, and sub-graph queries run with the same context.""",
  ['programs', 'inputs'], 'all loaders, wrappers and queries', 'Tests mark single plain functions.',
  [ENG, 'hiku/sources/sqlalchemy.py', 'hiku/sources/graph.py', 'hiku/telemetry/prometheus.py'], [('pass_context/_do_pass_context/_submit', ENG)], ['arguments of loaders'])
p('C30', 'Every kind of type is handled by every type consumer',
  """Each component that branches on the library's types (option validation, complex-field lookup, GraphQL type mapping, requirement extraction, expression type checking, schema documentation) has a defined outcome for every type a graph may legally use at that place,
  and dispatches each type kind to the handler for that kind, recursing into element types.""",
  ['programs'], 'all types built from the type constructors', 'No test enumerates the product of type kinds and consumers.',
  ['hiku/types.py', 'hiku/validate/query.py', 'hiku/introspection/graphql.py', 'hiku/typedef/kinko.py', 'hiku/expr/checker.py'], [('accept/visit_* double dispatch', 'hiku/types.py')], ['the consumers above'])
p('C31', 'Concurrent and repeated executions do not interfere',
  """Executing a query leaves no state behind in the engine, the executor, the graph or the library that another execution of the same objects could observe: two executions with the same arguments and loaders behave identically, also when interleaved.
  All working state of an execution belongs to that execution.""",
  ['histories', 'schedules'], 'all sequences and interleavings of executions sharing engine, graph, endpoint or reader', 'Tests never run two executions of one engine concurrently.',
  [ENG, 'hiku/endpoint/graphql.py', 'hiku/readers/graphql.py', 'hiku/sources/graph.py'], [('per-execution Query, Queue, Index', ENG)], ['writes to objects that outlive the call'])
p('C32', 'Numbers survive the EDN round trip',
  """Integers, decimals and finite floating point numbers written as EDN read back as equal numbers of the same kind.""",
  ['inputs'], 'all numeric values', 'Only a few numbers are sampled.',
  ['hiku/edn.py'], [('parse_number', 'hiku/edn.py')], ['hiku.edn.loads(hiku.edn.dumps(x))'])
p('C33', 'Recorded durations equal the time loading took',
  """The duration observed for a field or link is the wall-clock time between the start of its loading and the availability of its result.""",
  ['schedules'], 'all schedules', 'Timing is not asserted.',
  ['hiku/telemetry/prometheus.py'], [('time.perf_counter', 'hiku/telemetry/prometheus.py')], ['metric values'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
