text = r'''# Static verification of hiku

## Method

Everything is decided by one static analysis: a path-sensitive *abstract
interpreter* for the subset of Python hiku is written in (`hikustat/`,
~10k lines). It parses `/repo/hiku/**/*.py` on every run - hiku is never
imported and never executed - lowers it to a syntax tree of its own
(`pyast.py`), and evaluates it over an abstract domain (`values.py`,
`interp.py`, `models.py`, `builtins_.py`):

- **opaque tokens** for the data of users: identifiers, values, names,
  contexts, option values. A token is equal to itself; whether it equals another
  one, is true, or is of a type, is a *fact* of the path (a fork if it is not
  known yet).
- **star segments**: a collection is a sequence of segments, a segment is an
  element or "for every index of N: a block", with N symbolic. One abstract run
  covers collections of every size, including empty. A loop over a star is
  *summarised*: its body is run for a generic index until the abstract
  state is stable; its effects (appends, stores, calls, callbacks)
  become star-indexed themselves. Loops which cannot be summarised make the
  obligation *undecided*.
- **path facts**: an undetermined condition forks the path. A violation is
  reported only if all facts of its path are free inputs of the scenario
  (or choices of the environment: schedules, failures); a violation behind any
  other fact is *undecided*, is counted in the evidence, and raises no alarm.
- **the environment** (loaders of users, executor backends, SQL engines, WSGI
  servers, metric registries, protobuf messages) is modelled by its
  contract: stubs which return fresh tokens, choose any order of
  completion, fail at any step. Some environments are written as small Python
  sources (`DB` in `checks/c26.py`, `PB` in `checks/c23.py`) which the analyser
  interprets like any other code. Third party libraries are treated by contract
  (`extlib.py`); parsing and printing of constant GraphQL documents and
  EDN-independent literal formatting (`str(1.5)`, `int('7')`) are folded as
  constants with the installed library (`gql.py`), standard library sources
  needed are interpreted (`stdlib.py`).
- classes, properties, descriptors, metaclasses, generators and coroutines
  (`cogen.py`), context managers, exceptions with `finally`, closures, partials,
  and code which hiku itself generates (the expression compiler's `ast` output is
  interpreted as a program, `exprs.py`) are covered.

`checks/cXX.py` poses *scenarios* - abstract inputs which stand for a class
of graphs, queries, documents or histories - and *obligations* on the outcome
(values, calls, their arguments and order, exceptions). The *oracle* is a
specification written in the check, independently of hiku's code.
`driver.py` explores the scenarios on 8 processes, attributes each violation to
a construct of /repo (function, file, line and the call path to it), writes the
evidence, and prints `VIOLATION property=.. replay=..`.

Behaviour is judged, not text: no check looks at how a function is written or
which private helpers exist. The entry points are public names
(`hiku.engine.Engine.execute`, `hiku.readers.graphql.read`, ...). If one of
them is gone the check exits 2 ("anchors lost").

Exit codes: 0 no violation, 1 violation, 2 anchors lost or internal error.

What "undecided" means in practice: on the unchanged tree there are no or few
undecided obligations (see `undecided` in the evidence); after an edit which uses
a construct the interpreter does not model the affected scenarios become
undecided and the check stays quiet.

Bounds. Sizes of collections are unbounded where a scenario uses stars. The
*shapes* (nesting depth, kinds of selections, kinds of types, which positions hold
something special) are enumerated by each check and so are bounded; the text
below says to what. `thorough` runs the same rules on deeper and larger products of
shapes and with higher path limits.

Cost: quick checks take 1-45 s on 8 cores, thorough ones up to a few minutes.

## Properties

### Execution

'''
P = [
('C01', 'engine, result, query, queue and sync executor, end to end',
 'Graphs and queries whose fields, identifiers and linked objects are stars; '
 'loaders return values named after (identifier, field). Obligation: each value '
 'read from the result is the one named after that identifier and field; '
 'lengths and order of sequence links. Includes interleaved loaders, one loader '
 'in several nodes, objects reached twice with other fields, ordered queries, '
 'nested links, links of links.'),
('C02', 'the same', 'Number of calls and arguments of each loader stub per visit, for '
 'all numbers of fields, identifiers and links (stars) and three executors '
 '(synchronous, one-by-one completion, all at once).'),
('C03', 'the same plus schedules', 'The environment picks any pending task to '
 'complete next (paths = schedules). At the moment a link loader is called: the '
 'required field\'s loader has completed, and the argument equals its values in '
 'order of the identifiers. Required field selected or not, before or after the '
 'link, several links requiring the same or different fields.'),
('C04', 'reader, merge, engine', 'Mutation documents (fragments, duplicates, '
 'aliases) read by the interpreted reader and executed under any order of '
 'completion; the sequence of loader calls must be the order of the document and '
 'no call happens before the previous one completed and was stored.'),
('C05', 'engine', 'Loader results from a product of malformed and well-formed '
 'shapes: wrong length, wrong container, wrong row at the first, middle, last or '
 'generic position, for root/node fields and each cardinality of links. Rejected '
 'iff malformed; nothing is loaded through a malformed link.'),
('C06', 'engine, result', 'Each cardinality, from root and node, with and without '
 'required field: Nothing at any position, empty lists, repeated objects. Values '
 'read, identifiers the linked node is visited with, absence of visits.'),
('C07', 'engine (InitOptions) and sub-graphs', 'Every place a selection with '
 'options can stand (root/node field, link, required link, complex field, below '
 'others) x given / defaulted / missing / falsy values: the loader gets exactly the '
 'declared options; a missing one raises TypeError with no loader called.'),
('C08', 'query, engine, result', 'Pairs of different option values (nested lists and '
 'mappings, booleans against integers, negative numbers, permutations, prefixes '
 'of each other, opaque tokens assumed different) under two aliases: two stored '
 'values; equal options under two aliases: one key.'),
('C09', 'query.merge', 'Lists of nodes with the same/other name, options, result '
 'name, links merged to any depth, ordered flags at each position; star lists of '
 'nodes. The result is compared with a reference merge in the check.'),
('C10', 'everything that receives user objects', 'All objects given to the '
 'library are frozen in the abstract heap (`frozen.py`): any store into an object '
 'allocated by the scenario (query, graph, options, variables, context, loaded '
 'values) is a violation at the storing statement. Operations: execute (also '
 'repeatedly), validate, export, merge, transform, denormalize, dispatch, '
 'introspect, measure. Copies are compared attribute by attribute; transformed '
 'objects must be new.'),
('C11', 'executors/queue', 'Programs of fork/submit/add_callback, also from within '
 'callbacks, under every order and grouping of completions (paths). Each '
 'callback once, after completion of its task or task set with its forks, in '
 'registration order; nothing left. Callbacks added to a task or set '
 'which is already complete are outside (the engine never does it).'),
('C12', 'executors and the engine on them', 'Backends are stubs with states; any '
 'subset of pending tasks is done at each wait, any task may fail, asyncio '
 'executions may be cancelled at each await, tasks may misbehave in their '
 'cleanup. Each call handed over once with all arguments; the result only with '
 'no outstanding task; errors and cancellation propagate, after every '
 'outstanding task was cancelled and awaited.'),
('C13', 'result', 'Selected, unselected (arbitrary token names, names of other '
 'nodes, of methods) and missing data, as items and attributes, after executing '
 'and on hand-made indexes; reads change nothing (frozen).'),
('C29', 'engine, sources, metrics, introspection, endpoint', 'Marked and unmarked '
 'loaders of every kind x six ways to wrap the graph x contexts (missing, empty, '
 'falsy values). The first argument of a marked loader behaves as the '
 'context given to execute (a copy with equal content is accepted); unmarked '
 'loaders never get one; a missing key raises KeyError with the key.'),
('C31', 'engine, endpoint, reader, validation, introspection, expressions', 'For each '
 'environment and each pair of operations (a, b): the observations of b alone equal '
 'those of b after a, and of b with a run in the middle of b at every loader call. '
 'The order in which tasks complete is fixed in these comparisons: results '
 'which legitimately depend on it are not compared.'),
]
Q = [
('C14', 'both denormalizers', 'Products of types (record, reference, reference to '
 'reference, optional, sequence, inline record) nested to depth 3 with selections '
 'with aliases, repeated names, __typename at each level, values present, '
 'absent, empty, generic lists.'),
('C15', 'validate/query', 'Every invalid selection the property names x the '
 'place it stands at (root, node, below links, in complex fields of every type '
 'shape) x with valid selections before/after/any number; valid ones accepted; '
 'never raises.'),
('C16', 'validate/query options', 'Declared types (all kinds nested to depth 2-3 and '
 'named types) x values (all kinds, nested, one bad element at any position, '
 'generic lists), as option of field, link, complex field, as default.'),
('C17', 'graph construction', 'Definitions built from every kind of member with one '
 'inconsistency at each place among any number of consistent ones; loaders are '
 'stubs which record use, so "before anything else" is an obligation.'),
('C18', 'readers/graphql', 'Each place a directive can stand x literal/variable/default '
 'conditions x combinations and orders of both directives x wrong arguments; '
 'the document is a constant, the variables are symbolic booleans.'),
('C19', 'readers/graphql', 'Documents over the grammar the reader supports (aliases, '
 'arguments with all kinds of values, fragments nested and shared, several operations) '
 'with an expected tree; variables given/default/null/missing/undeclared; '
 'star documents for "any number of selections, arguments, variables".'),
('C20', 'endpoints', 'Readable/unreadable/invalid documents x operation types x '
 'graph kinds x sync/async x single/batch; loaders are stubs which record calls. '
 'Batches of any number of requests (star).'),
('C21', 'introspection', 'Graphs with every kind of declared type (nested) for '
 'fields and options, several roots, mutation graph, data types; compared with a '
 'reference schema; never raises; async equals sync. Types which GraphQL '
 'cannot express are the nullable scalar Any.'),
('C30', 'every type consumer', 'The product of type kinds and consumers: dispatch of '
 'visitors, option validation, complex fields, introspection, requirement extraction, '
 'expression checking, schema documentation, each against a specification of '
 'its own.'),
('C22', 'edn', 'The writer is run on strings made of each border code point, '
 'their neighbours and opaque surroundings, and on products of containers and '
 'literals; the produced text is fed to the interpreted reader automaton; the '
 'result must equal the input. Order of maps and sets is not required.'),
('C32', 'edn numbers', 'The same on integers, floats and decimals at the borders of '
 'their notations, alone and in containers. Equality and kind are required (not '
 'the sign of zero nor the exponent form of decimals).'),
('C23', 'export, readers, builder', 'Export of queries (products of selections, '
 'options of all kinds of values, nesting, duplicates, stars) is read back by '
 'the interpreted reader; protobuf messages are an interpreted model with field '
 'presence; print/parse of the GraphQL form is folded.'),
('C24', 'expr checker and compiler', 'Expressions enumerated over binding '
 'forms (each, if_some) in each place of the other, with equal/different/reserved '
 'names, options, functions; the compiled code (an ast built by the interpreted '
 'compiler) is interpreted and its value compared with a lexical-scope '
 'evaluation.'),
('C25', 'sub-graphs', 'Expressions over a low-level graph whose fields are '
 'stubs: no missing data, values as the reference evaluation, one low-level '
 'visit, identifiers with repetition, options by name.'),
('C26', 'SQL sources', 'A database modelled in interpreted code: any order of rows, '
 'missing and repeated identifiers, NULLs, errors at each step, buckets of '
 'results; all three variants against one specification.'),
('C27', 'metrics', 'Graph with and without metrics: equal calls, results, exceptions; '
 'observations counted by a registry stub; loaders shared between nodes, '
 'marked, partial, sub-graph, async, futures.'),
('C28', 'console', 'Paths x methods x sizes x bodies x failures (read, decode, '
 'validate, execute, denormalize) x debug; status, headers, length of the body, '
 'what was read and executed; histories of two requests.'),
]
def sec(items):
    out = []
    for pid, where, what in items:
        out.append('**%s** (%s). %s\n' % (pid, where, what))
    return '\n'.join(out)
text += sec(P) + '\n### Reading, describing and exchanging\n\n' + sec(Q)
text += r'''
**C33** is not applicable: that a recorded duration is the true elapsed time
quantifies over a clock at run time. That loading is observed, once, is C27.

Why this reaches what tests cannot: each scenario holds for every size, value and
(where relevant) schedule it abstracts, and the products of shapes are
enumerated, where the tests have single samples; the listed fixes below are
defects all 272 tests pass with.

## Not claimed

Deliberately outside the statements, because the code's intent is ambiguous or the
construct cannot be reached:

- callbacks added to a task or task set which has already completed (C11);
- order of map entries and sets, sign of zero, exponent form of decimals (C22, C32);
- `Optional[Sequence[Record]]` as the type of a complex field; a link whose
  `requires` names a link; Optional/Sequence nested more than one level around records
  (C14, C15, C30); equality of types beyond their kind (C30);
- `__type` of data types which GraphQL has no kind for, descriptions of
  directives, mutation graphs with nodes of their own (C21);
- options with defaults of low-level fields inside sub-graph queries, an `id`
  requested twice in one sub-graph visit (C25);
- Maybe links to a NULL column, the order of identifiers of "many" links, a "one" link
  without a row (KeyError), translation of column types (C26);
- non-numeric CONTENT_LENGTH, results which are not JSON (C28);
- EDN maps with several links in the simple query form (the exporter does not write
  them), empty links in the builder (C23);
- `TypeDoc.__getattr__` recursion on a missing private attribute (unreachable).

## Genuine defects found and repaired

All are `fix:` commits in /repo and `fixed` entries in `known_findings.json`;
no finding is left open (`findings` is empty).

'''
import json
kf = json.load(open('/verif/known_findings.json'))
for x in kf['fixed']:
    w = x.split(' ', 3)
    text += '- %s `%s` %s\n' % (w[1].split('=')[1], w[2], w[3])
text += r'''
The last one is a regression of one of the repairs, found by another check
(C14): the repair of the type checker changed which name a data type keeps.

## False alarms met while building, and what was done

- `x is False` on an opaque boolean was treated as falsity: identity and truth
  are separate facts now.
- An index loop over a sequence (`for i in range(len(xs))`) was not related to the
  elements of `xs`: index expressions over a star are star-indexed now.
- Tuples of different classes (`Tuple`, `List`) with equal content were the same
  dictionary key: the key of a value has its equality class.
- C31 compared runs with different orders of completion: the schedule is part of the
  comparison now.
- C29 required the very context object: a copy with equal content is accepted.
- C22/C32 required text equality: only equality of the values is required.
- C23: indexes of the "rest" of repeated protobuf fields looked like duplicates of a
  selection: symbolic duplicates of one star are ignored.
- C28 required that a repeated request is validated again: a cache is allowed as long as
  the answer is right.
- C25: `id` requested twice counted as two low-level calls: not claimed.
- Mechanical rewrites of the whole tree (every `for` as an index or a `while` loop,
  generators as lists, lists as generators, comprehensions as loops and back,
  `try`/`match`/`with` variants, temporaries, `.pop` loops, `getattr`), three combined
  trees on which the tests pass, run through all checks. They found: `enumerate` over
  lists of mixed layout, unpacking of summarised tuples, `while` loops which take
  elements from a list or advance an index (now summarised), the depth limit of the
  interpreter taken for a RecursionError (raised to Python's), the length of
  `reversed(reversed(xs))`, and positions whose first element was not told from the
  rest when the loop was peeled (elements were lost: a false alarm of C23).
- About 120 snippets of Python with known results compare the interpreter with Python
  itself. They found: named tuples against plain tuples, the value of `yield from`,
  set operators, `zip(it, it)`, `__class_getitem__`, calls of the standard library
  which change their arguments. `hikustat/shims.py` writes such functions out in
  Python and has them interpreted; an unknown one leaves the path undecided.

## Planted bugs

`tools/seeds.py` holds the edits and demonstrations, `tools/mkseed.py` builds
`/verif/seeded/<id>/` after confirming in a scratch clone that the tests pass, the
demonstration fails with the change and passes without it. All of them are caught
by the check of their property:

'''
import sys
sys.path.insert(0, '/verif/tools')
from seeds import SEEDS
text += '| planted bug | needs | caught by |\n|---|---|---|\n'
for k, v in sorted(SEEDS.items()):
    text += '| %s | %s | %s |\n' % (k, v['needs'], v['property'])
text += r'''
Besides these, about 400 mutants were written while the checks were built (per
property 10-40, each from the text of the property: off-by-one positions, first/last
only, lost falsy values, caches with too small keys, shared state, dropped branches,
swapped order, early returns) together with about 45 behaviour-preserving
refactorings (extracted helpers, rewritten loops, other containers, inlined
functions). Every mutant that passes the existing tests and is not equivalent is
caught by the check of its property. All refactorings are quiet. Misses found on the way, and what was strengthened:

- C23: options leaking from one selection into the next needed queries with a
  selection with options before one without, for each kind and at each level;
- C26: reading only one bucket of a result needed results larger than, equal to and
  just above the bucket size;
- C28: skipping validation of a repeated request needed histories of requests;
- C27: wrappers shared by nodes needed one function in several nodes *and* the
  observation labels of each;
- C31: caches keyed by too little needed pairs of operations on one object which
  differ in one aspect only (variables, operation name, options);
- C16/C15: elements other than the first of a list needed star lists with one bad
  element at a generic position;
- C12: cancellation needed tasks which fail in their cleanup, and tasks which finish
  while they are polled;
- C02: one loader for several selections of a node needed selections with and without
  options, in each order;
- C07: links of a node to itself and fields named like their node;
- C21: one name in several nodes (memoised descriptions), C20: unknown `__` names;
- C16: equal values of different types (`1`, `True`, `1.0`), C17: graphs with a single
  member, C19: fragments used in several places, defaults of list type.

## Tools not used

Solvers, fuzzers and model checkers are outside the family this task studies. `mypy`
and `pyright` cannot decide any of the properties (hiku is not annotated).
'''
open('/verif/DESIGN.md', 'w').write(text)
