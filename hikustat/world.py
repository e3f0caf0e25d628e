"""Graphs, queries and loaders of the engine scenarios."""
from .values import *   # noqa
from . import models as M


def val(*parts):
    return Sym(('tok', 'val') + parts, 'any')


class World:
    """loaders are stubs of the environment: they log their calls and return
    values named after (identifier, field)"""

    def __init__(self, s):
        self.s = s
        self.I = s.I
        self.T = 'hiku.types:'
        self.rows = {}

    # --- graph definitions
    def field(self, name, func, type_=NONE, options=None):
        kw = {'options': options} if options is not None else {}
        return self.s.mk('hiku.graph:Field', nm(name), type_, func, **kw)

    def typeref(self, name):
        return M.getitem(self.I, self.s.get('hiku.types:TypeRef'), nm(name))

    def sub(self, generic, param):
        return M.getitem(self.I, self.s.get('hiku.types:' + generic), param)

    def linktype(self, card, node):
        t = self.typeref(node)
        if card == 'one':
            return t
        return self.sub({'maybe': 'Optional', 'many': 'Sequence'}[card], t)

    def link(self, name, card, node, func, requires=None, options=None):
        kw = {'options': options} if options is not None else {}
        return self.s.mk('hiku.graph:Link', nm(name),
                         self.linktype(card, node), func,
                         requires=NONE if requires is None else nm(requires),
                         **kw)

    def node(self, name, *fields):
        return self.s.mk('hiku.graph:Node', nm(name), self.s.list(*fields))

    def root(self, *fields):
        return self.s.mk('hiku.graph:Root', self.s.list(*fields))

    def graph(self, *items, data_types=None):
        kw = {'data_types': data_types} if data_types is not None else {}
        return self.s.mk('hiku.graph:Graph', self.s.list(*items), **kw)

    def option(self, name, type_=NONE, **kw):
        return self.s.mk('hiku.graph:Option', nm(name), type_, **kw)

    # --- queries
    def qf(self, name, options=None, alias=None):
        return self.s.mk('hiku.query:Field', nm(name),
                         options=options if options is not None else NONE,
                         alias=nm(alias) if alias is not None else NONE)

    def ql(self, name, node, options=None, alias=None):
        return self.s.mk('hiku.query:Link', nm(name), node,
                         options=options if options is not None else NONE,
                         alias=nm(alias) if alias is not None else NONE)

    def qn(self, *fields, ordered=False):
        return self.s.mk('hiku.query:Node', self.s.list(*fields),
                         ordered=Const(ordered))

    # --- loaders
    def root_loader(self, tag, key=None):
        """[value of each requested field]"""
        s, I = self.s, self.I

        def load(tag, args, kw):
            s.emit('load', tag, tuple(args))
            out = I.new_list()

            def one(f):
                M.list_append(I, out, val(tag, self.fkey(f, key)))
            if len(args) != 1:
                s.fail('args', 'root loader %s called with %d arguments'
                       % (tag, len(args)))
                return out
            I.iterate(args[0], one)
            return out
        return s.stub(load, tag=tag)

    def fkey(self, f, key=None):
        if key is not None:
            return key(f)
        n = self.I.getattr(f, 'name')
        o = self.I.getattr(f, 'options')
        if o == NONE:
            return self.I.term(n)
        return (self.I.term(n), self.I.term(o))

    def node_loader(self, tag, key=None, hook=None):
        """[[value of each field] for each identifier]"""
        s, I = self.s, self.I

        def load(tag, args, kw):
            s.emit('load', tag, tuple(args))
            if len(args) != 2:
                s.fail('args', 'loader %s called with %d arguments'
                       % (tag, len(args)))
                return I.new_list()
            fields, ids = args
            out = I.new_list()

            def row(i):
                r = I.new_list()
                I.iterate(fields, lambda f: M.list_append(
                    I, r, val(tag, I.term(i), self.fkey(f, key))))
                M.list_append(I, out, r)
            I.iterate(ids, row)
            return out
        return s.stub(load, tag=tag)

    def const_loader(self, tag, result, nargs=None):
        """returns a fixed result"""
        s = self.s

        def load(tag, args, kw):
            s.emit('load', tag, tuple(args))
            r = result() if callable(result) else result
            return r
        return s.stub(load, tag=tag)

    def tuple_row_loader(self, tag):
        """a loader returning tuples instead of lists"""
        s, I = self.s, self.I
        inner = self.node_loader(tag)

        def load(tag, args, kw):
            r = I.call(inner, list(args), {})
            return Tup(list(M.segs_of(I, r)))
        return s.stub(load, tag=tag)

    def map_loader(self, tag, fn):
        """link loader over required values: [fn(v) for v in values]"""
        s, I = self.s, self.I

        def load(tag, args, kw):
            s.emit('load', tag, tuple(args))
            out = I.new_list()
            I.iterate(args[0], lambda v: M.list_append(I, out, fn(v)))
            return out
        return s.stub(load, tag=tag)

    def sync(self):
        return self.s.mk('hiku.executors.sync:SyncExecutor')

    def map_key(self, tag):
        """root sequence link loader over a required value"""
        s = self.s

        def load(tag, args, kw):
            s.emit('load', tag, tuple(args))
            t = self.I.term(args[0])
            return s.list(s.star((tag, t), lambda x: s.tok(tag, t, x)))
        return s.stub(load, tag=tag)

    def scheduler(self, mode='any', log=True):
        """an executor of the environment: submitted calls run when their
        future is completed, futures complete in every order.

        mode 'any'  - one future at a time, every choice explored
             'all'  - every outstanding future at once, either order
             'last' - newest first; 'first' - oldest first
        """
        s, I = self.s, self.I
        state = {'n': 0}
        futures = []

        def submit(args, kw):
            fn, rest = args[0], list(args[1:])
            box = {}
            k = state['n']
            state['n'] += 1

            def result(a, k_):
                if 'v' not in box:
                    s.emit('unready', k)
                    return NONE
                return box['v']
            fut = s.stub(None, attrs={'result': s.stub(result)})
            box.update(fut=fut, fn=fn, args=rest, kw=dict(kw), k=k)
            futures.append(box)
            s.emit('submit', k, fn)
            return fut

        def complete(box):
            box['v'] = NONE
            del box['v']
            v = I.call(box['fn'], box['args'], box['kw'])
            box['v'] = v
            box['done'] = True
            s.emit('complete', box['k'])

        def pending(queue):
            live = M.segs_of(I, I.getattr(queue, '__futures__'))
            oids = {f.oid for f in live if isinstance(f, Ref)}
            return [b for b in futures if b['fut'].oid in oids]

        def process(args, kw):
            queue, workflow = args[0], args[1]
            step = 0
            while True:
                live = pending(queue)
                if not live:
                    break
                step += 1
                if step > 60:
                    s.fail('progress', 'the queue never drains')
                    break
                if mode == 'first':
                    batch = [live[0]]
                elif mode == 'last':
                    batch = [live[-1]]
                elif mode == 'all':
                    batch = list(live)
                    if len(live) > 1 and I.decide(('sched', step, 'rev')):
                        batch.reverse()
                else:
                    i = 0
                    while i < len(live) - 1 and not I.decide(
                            ('sched', step, i)):
                        i += 1
                    batch = [live[i]]
                for b in batch:
                    if not b.get('done'):
                        complete(b)
                I.call(I.getattr(queue, 'progress'),
                       [s.list(*[b['fut'] for b in batch])], {})
            left = [b for b in futures if not b.get('done')]
            if left:
                s.fail('progress', '%d submitted tasks are forgotten by the '
                       'queue' % len(left))
            return I.call(I.getattr(workflow, 'result'), [], {})
        return s.stub(None, attrs={'submit': s.stub(submit),
                                   'process': s.stub(process)})

    ASYNC = '''
class Task:
    def __init__(self, coro):
        self.coro = coro
        self.value = None

    def result(self):
        return self.value


class AsyncExecutor:
    def submit(self, fn, *args, **kwargs):
        return Task(fn(*args, **kwargs))

    async def process(self, queue, workflow):
        while queue.__futures__:
            task = list(queue.__futures__)[0]
            task.value = await task.coro
            queue.progress([task])
        return workflow.result()
'''

    def async_executor(self):
        """an executor of the environment which awaits the loaders one by
        one"""
        return self.s.call(self.s.code(self.ASYNC, 'AsyncExecutor'))

    def coro(self, loader):
        """the loader as a coroutine function"""
        mk = self.s.code('''
def mk(fn):
    async def load(*args):
        return fn(*args)
    return load
''', 'mk')
        return self.s.call(mk, loader)

    def execute(self, graph, query, executor=None, ctx=None):
        eng = self.s.mk('hiku.engine:Engine', executor or self.sync())
        args = [graph, query] + ([ctx] if ctx is not None else [])
        return self.s.meth(eng, 'execute', *args)

    # --- expected values
    def read(self, obj, key, rule, what):
        """obj[key] on a result, a raise is a failure"""
        exc, v = self.s.raises(lambda: M.getitem(self.I, obj, key))
        if exc is not None:
            from .driver import describe_exc
            self.s.ok(False, rule, '%s: reading %s raised %s' % (
                what, self.s.show(key), describe_exc(
                    self.I, self.s.last_raise)))
            return None
        return v

    def expect(self, obj, key, want, rule, what):
        v = self.read(obj, key, rule, what)
        if v is not None:
            self.s.same(v, want, rule, '%s: value of %s' % (
                what, self.s.show(key)))
        return v

    def nothing(self):
        return self.s.get('hiku.graph:Nothing')


def nm(x):
    return Const(x) if isinstance(x, (str, type(None))) else x
