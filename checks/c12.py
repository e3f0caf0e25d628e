"""Executors hand every call to their backend, report only finished tasks, and
return the result only when no work is outstanding; errors of loaders and
cancellation reach the caller."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World
from checks.c11 import PROGRAMS

R_ARGS = 'C12.submitted'
R_DONE = 'C12.finished_only'
R_RES = 'C12.result'
R_EXC = 'C12.exceptions'
R_CANCEL = 'C12.cancellation'

EXECUTORS = ('sync', 'threads', 'asyncio')


def run(c):
    c.rule(R_ARGS, 'a submitted call is made once by the backend, with all '
           'its arguments, and its future gives its result')
    c.rule(R_DONE, 'only finished tasks are reported to the queue, and each '
           'of them')
    c.rule(R_RES, 'the result of the workflow is taken once, when no task is '
           'outstanding, and returned')
    c.rule(R_EXC, 'an exception of a loader is raised to the caller')
    c.rule(R_CANCEL, 'cancelling an asyncio execution cancels and awaits '
           'every outstanding task and is raised to the caller')
    for ex in EXECUTORS:
        c.scenario('arguments, %s' % ex, lambda s, e=ex: arguments(s, e),
                   R_ARGS)
        for name, prog in PROGRAMS.items():
            c.scenario('%s, %s' % (name, ex), lambda s, a=(prog, ex):
                       program(s, *a), R_RES, max_paths=3000)
            c.scenario('%s, %s, a call fails' % (name, ex),
                       lambda s, a=(prog, ex): failing(s, *a), R_EXC,
                       max_paths=3000)
        c.scenario('no tasks, %s' % ex, lambda s, e=ex: nothing(s, e), R_RES)
        for shape in SHAPES:
            c.scenario('engine, %s, %s' % (shape, ex), lambda s, a=(
                shape, ex): engine(s, *a), R_EXC, max_paths=3000)
    for name, prog in PROGRAMS.items():
        c.scenario('%s, cancelled' % name,
                   lambda s, p=prog: cancelled(s, p), R_CANCEL,
                   max_paths=4000, cost=3)


class Backend:
    """a thread pool and an event loop: outstanding tasks finish in any order
    whenever something waits for them"""

    def __init__(self, s, kind):
        self.s, self.I, self.kind = s, s.I, kind
        self.tasks = []
        self.n = 0
        self.step = 0
        self.cancels = False      # may the awaiting task be cancelled
        self.cancelled = False
        self.pick = None          # 'first', 'last': the task which finishes
        self.misbehave = False    # tasks may react to cancellation
        h = s.I.ext_handlers
        for p in ('concurrent.futures.wait', 'concurrent.futures._base.wait'):
            h[p] = self.t_wait
        for p in ('concurrent.futures.as_completed',
                  'concurrent.futures._base.as_completed'):
            h[p] = self.t_as_completed
        for p in ('asyncio.wait', 'asyncio.tasks.wait'):
            h[p] = self.a_wait
        h['asyncio.gather'] = self.a_gather
        for p in ('asyncio.', 'asyncio.events.', '_asyncio.'):
            for n in ('get_event_loop', 'get_running_loop'):
                h[p + n] = lambda I, a, k: self.backend
        for p in ('asyncio.create_task', 'asyncio.tasks.create_task',
                  'asyncio.ensure_future', 'asyncio.tasks.ensure_future'):
            h[p] = lambda I, a, k: self.create_task(a, k)
        self.backend = s.stub(None, attrs={
            'submit': s.stub(self.t_submit),
            'create_task': s.stub(self.create_task)})

    def executor(self):
        s = self.s
        if self.kind == 'sync':
            return s.mk('hiku.executors.sync:SyncExecutor')
        if self.kind == 'threads':
            return s.mk('hiku.executors.threads:ThreadsExecutor',
                        self.backend)
        return s.mk('hiku.executors.asyncio:AsyncIOExecutor', self.backend)

    # --- tasks
    def new(self, run):
        s = self.s
        t = {'run': run, 'state': 'pending', 'cancel': 0, 'k': len(
            self.tasks)}
        t['fut'] = s.stub(None, attrs={
            'result': s.stub(lambda a, k: self.result(t)),
            'exception': s.stub(lambda a, k: self.exception(t)),
            'done': s.stub(lambda a, k: self.poll(t)),
            'running': s.stub(lambda a, k: Const(not self.poll(t).v)),
            'cancelled': s.stub(lambda a, k: Const(
                t['state'] == 'done' and t.get('was', False))),
            'cancel': s.stub(lambda a, k: self.cancel(t)),
        }, await_=lambda I, v: self.awaited(t))
        self.tasks.append(t)
        return t['fut']

    def find(self, v):
        v = self.I.resolve(v)
        for t in self.tasks:
            if isinstance(v, Ref) and t['fut'].oid == v.oid:
                return t
        raise Imprecise('waiting for %r' % (v,))

    def tasks_of(self, v):
        segs = v if isinstance(v, list) else M.segs_of(self.I, v)
        out = []
        for x in segs:
            t = self.find(x)
            if t not in out:
                out.append(t)
        return out

    def complete(self, t):
        """the task runs to its end"""
        if t['state'] == 'done':
            return
        I, s = self.I, self.s
        t['state'] = 'running'
        if t['cancel']:
            t['was'] = True
            t['exc'] = I.call(Bi('CancelledError'), [], {})
            if self.misbehave:
                # a loader may fail while it is being cancelled
                if I.decide(('sched', 'cleanup', t['k'])):
                    t['was'] = False
                    t['exc'] = I.call(Bi('ValueError'), [], {})
        else:
            exc, v = s.raises(t['run'])
            if exc is not None:
                t['exc'] = exc
            else:
                t['v'] = v
        t['state'] = 'done'

    def result(self, t):
        if t['state'] != 'done':
            if self.kind == 'asyncio':
                raise self.I.exc('RuntimeError', Const('not ready'))
            self.complete(t)
        if 'exc' in t:
            raise AbsRaise(t['exc'])
        return t['v']

    def exception(self, t):
        if t['state'] != 'done':
            if self.kind == 'asyncio':
                raise self.I.exc('RuntimeError', Const('not ready'))
            self.complete(t)
        return t.get('exc', NONE)

    def cancel(self, t):
        if t['state'] == 'done':
            return FALSE
        t['cancel'] += 1
        return TRUE

    def poll(self, t):
        """a thread may finish its task at any time"""
        if self.kind == 'threads' and t['state'] == 'pending':
            t['polls'] = t.get('polls', 0) + 1
            if self.I.decide(('sched', 'finished', t['k'], t['polls'])):
                self.complete(t)
        return Const(t['state'] == 'done')

    def awaited(self, t):
        self.complete(t)
        return self.result(t)

    # --- threads
    def t_submit(self, a, k):
        fn, rest = a[0], list(a[1:])
        return self.new(lambda: self.I.call(fn, rest, dict(k)))

    def some(self, ts, all_):
        """tasks which finished while waiting: all of them or some"""
        I = self.I
        self.step += 1
        todo = [t for t in ts if t['state'] != 'done']
        if all_:
            for t in todo:
                self.complete(t)
        elif todo and len(todo) == len(ts) and self.pick:
            todo.sort(key=lambda t: t['k'])
            self.complete(todo[0 if self.pick == 'first' else -1])
        elif todo and len(todo) == len(ts):
            n = 0
            for i, t in enumerate(todo):
                if (i == len(todo) - 1 and not n) or I.decide(
                        ('sched', self.step, i)):
                    self.complete(t)
                    n += 1
        return ([t for t in ts if t['state'] == 'done'],
                [t for t in ts if t['state'] != 'done'])

    def waited(self, a, k):
        I = self.I
        names = ['fs', 'timeout', 'return_when'] \
            if self.kind == 'threads' else ['fs']
        kw = dict(k)
        for n, v in zip(names, a):
            kw[n] = v
        ts = self.tasks_of(kw['fs'])
        how = I.resolve(kw.get('return_when', Const('ALL_COMPLETED')))
        if isinstance(how, Ext):
            from hikustat import extlib
            how = Const(extlib.const(how.path))
        if I.resolve(kw.get('timeout', NONE)) != NONE:
            if I.decide(('sched', 'timeout', self.step)):
                self.step += 1
                return [], ts
        if not isinstance(how, Const):
            raise Imprecise('return_when')
        return self.some(ts, how.v == 'ALL_COMPLETED')

    def pair(self, r):
        s = self.s
        mk = s.code('''
from collections import namedtuple
Waited = namedtuple('Waited', ['done', 'not_done'])


def mk(done, not_done):
    return Waited(set(done), set(not_done))
''', 'mk')
        return s.call(mk, *[s.list(*[t['fut'] for t in x]) for x in r])

    def t_wait(self, I, a, k):
        return self.pair(self.waited(a, k))

    def t_as_completed(self, I, a, k):
        ts = self.tasks_of(a[0])
        out = []
        while ts:
            d, ts = self.some(ts, False)
            out += d
        return self.s.list(*[t['fut'] for t in out])

    # --- asyncio
    def create_task(self, a, k):
        coro = a[0]
        return self.new(lambda: M.await_(self.I, coro))

    def scheduled(self, v):
        v = self.I.resolve(v)
        if any(isinstance(v, Ref) and t['fut'].oid == v.oid
               for t in self.tasks):
            return v
        return self.create_task([v], {})

    def interrupt(self):
        """the task which awaits may be cancelled while it does"""
        if self.cancels and not self.cancelled and self.I.decide(
                ('sched', 'cancel', self.step)):
            self.cancelled = True
            raise AbsRaise(self.I.call(Bi('CancelledError'), [], {}))

    def a_wait(self, I, a, k):
        s = self.s

        def aw(I, v):
            ts = self.tasks_of(a[0] if a else k['fs'])
            if not ts:
                raise I.exc('ValueError', Const('empty'))
            self.step += 1
            self.interrupt()
            return self.pair(self.waited(a, k))
        return s.stub(None, await_=aw)

    def a_gather(self, I, a, k):
        s = self.s

        def aw(I, v):
            ts = self.tasks_of([self.scheduled(x) for x in a])
            keep = I.truth(k.get('return_exceptions', FALSE))
            self.step += 1
            self.interrupt()
            order = list(ts)
            if len(ts) > 1 and not self.pick and I.decide(('sched', self.step, 'rev')):
                order.reverse()
            for t in order:
                self.complete(t)
                if 'exc' in t and not keep:
                    raise AbsRaise(t['exc'])
            return s.list(*[t['exc'] if 'exc' in t else t['v'] for t in ts])
        return s.stub(None, await_=aw)

    # --- calls
    def fn(self, f):
        """a loader this executor can call"""
        if self.kind != 'asyncio':
            return f
        return self.s.call(self.s.code('''
def mk(fn):
    async def load(*args, **kwargs):
        return fn(*args, **kwargs)
    return load
''', 'mk'), f)

    def finish(self, v):
        if self.kind == 'asyncio':
            return M.await_(self.I, v)
        return v


QUEUE = '''
def make(Queue, report):
    class Reporting(Queue):
        def progress(self, done):
            done = list(done)
            report(*done)
            return super().progress(done)
    return Reporting
'''


class Run:
    """a program of C11 on a real executor and a real queue"""

    def __init__(self, s, kind, fails=False):
        self.s, self.I = s, s.I
        self.b = Backend(s, kind)
        self.executor = self.b.executor()
        cls = s.call(s.code(QUEUE, 'make'),
                     s.get('hiku.executors.queue:Queue'),
                     s.stub(self.report))
        self.queue = s.call(cls, self.executor)
        self.fails = fails
        self.failed = None
        self.sets, self.futs = {}, {}
        self.calls, self.cbs, self.reported, self.results = [], [], [], 0
        self.workflow = s.stub(None, attrs={'result': s.stub(self.result)})

    def report(self, a, k):
        s = self.s
        for f in a:
            if self.b.kind == 'sync':
                continue
            t = self.b.find(f)
            s.ok(t['state'] == 'done', R_DONE,
                 'a task is reported to the queue before it is finished')
            s.ok(t not in self.reported, R_DONE,
                 'a task is reported to the queue twice')
            self.reported.append(t)
        return NONE

    def result(self, a, k):
        s = self.s
        self.results += 1
        left = [t for t in self.b.tasks if t['state'] != 'done']
        s.ok(not left, R_RES, 'the result is taken with %d outstanding tasks'
             % len(left))
        if self.b.kind != 'sync':
            s.ok(len(self.reported) == len(self.b.tasks), R_RES,
                 'the result is taken before every finished task was '
                 'reported')
        missing = [n for n, _ in self.regs if n not in self.cbs]
        s.ok(not missing, R_RES, 'the result is taken before callbacks were '
             'called')
        return s.tok('result')

    regs = ()

    def steps(self, steps):
        s = self.s
        for st in steps:
            k = st[0]
            if k == 'fork':
                self.sets[st[1]] = s.meth(
                    self.queue, 'fork',
                    NONE if st[2] is None else self.sets[st[2]])
            elif k == 'task':
                fn = self.b.fn(s.stub(lambda a, k, n=st[1]: self.load(
                    n, a, k)))
                self.futs[st[1]] = s.meth(
                    self.sets[st[2]], 'submit', fn, Const(st[1]), Const(2),
                    key=Const(3))
            elif k == 'cb':
                self.regs = list(self.regs) + [(st[1], st[2])]
                of = self.futs.get(st[2]) or self.sets[st[2]]
                s.meth(self.queue, 'add_callback', of, s.stub(
                    lambda a, k, st=st: self.fire(st)))

    def load(self, name, a, k):
        s = self.s
        ok = list(a) == [Const(name), Const(2)] and k == {'key': Const(3)}
        s.ok(ok and name not in self.calls, R_ARGS, 'call %s got %s %s' % (
            name, a, k))
        self.calls.append(name)
        if self.fails and self.failed is None and self.I.decide(
                ('sched', 'fails', name)):
            self.failed = name
            raise AbsRaise(s.mk_exc)
        return s.tok('res', name)

    def fire(self, st):
        s = self.s
        if st[2] in self.futs:
            v = s.meth(self.futs[st[2]], 'result')
            s.same(v, s.tok('res', st[2]), R_ARGS,
                   'the result of the call %s' % st[2])
        self.cbs.append(st[1])
        self.steps(st[3:])
        return NONE

    def process(self):
        return self.b.finish(self.s.meth(self.executor, 'process',
                                         self.queue, self.workflow))


def program(s, prog, kind):
    r = Run(s, kind)
    r.steps(prog)
    s.same(r.process(), s.tok('result'), R_RES, 'returned')
    s.ok(r.results == 1, R_RES, 'the result is taken %d times' % r.results)
    want = [n for n, _ in r.regs]
    s.ok(sorted(want) == sorted(r.cbs), R_RES, 'callbacks called: %s, '
         'registered: %s' % (r.cbs, want))


def nothing(s, kind):
    r = Run(s, kind)
    r.steps([('fork', 'A', None)])
    s.same(r.process(), s.tok('result'), R_RES, 'returned')
    s.ok(r.results == 1, R_RES, 'the result is taken %d times' % r.results)


def read_all(prog):
    """a task is read by a callback of it: failures surface there"""
    out = []
    for st in prog:
        if st[0] in ('cb', 'cbs'):
            if st[0] == 'cb':
                out.append(st[:3] + tuple(read_all(st[3:])))
        else:
            out.append(st)
            if st[0] == 'task':
                out.append(('cb', 'read ' + st[1], st[1]))
    return out


def failing(s, prog, kind):
    s.mk_exc = s.call(Bi('ZeroDivisionError'), Const('loader'))
    r = Run(s, kind, fails=True)

    def go():
        r.steps(read_all(prog))
        return r.process()
    exc, v = s.raises(go)
    if r.failed is None:
        s.ok(exc is None, R_EXC, 'raises %s' % (
            exc is not None and s.I.exc_name(exc)))
        return
    if s.ok(exc is not None, R_EXC, 'the failure of a call is not raised'):
        s.ok(s.same3(exc, s.mk_exc), R_EXC, 'the failure of a call is '
             'raised as %s' % s.I.exc_name(exc))
    s.ok(r.results == 0, R_EXC, 'the result is taken after a failure')


def cancelled(s, prog):
    r = Run(s, 'asyncio')
    r.b.cancels = True
    r.b.misbehave = True
    r.steps(prog)
    exc, v = s.raises(r.process)
    if not r.b.cancelled:
        s.ok(exc is None, R_CANCEL, 'raises %s' % (
            exc is not None and s.I.exc_name(exc)))
        return
    s.ok(r.results == 0, R_CANCEL, 'the result is taken after cancellation')
    left = [t for t in r.b.tasks if t['state'] != 'done']
    s.ok(not left, R_CANCEL, '%d tasks are outstanding after the cancelled '
         'execution has ended' % len(left))
    late = [t for t in r.b.tasks if t not in r.reported and not t['cancel']]
    s.ok(not late, R_CANCEL, '%d outstanding tasks are not cancelled' % len(
        late))
    if s.ok(exc is not None, R_CANCEL, 'the cancellation is not raised'):
        s.ok(s.is_exc(exc, 'CancelledError'), R_CANCEL,
             'the cancellation is raised as %s' % s.I.exc_name(exc))


def arguments(s, kind):
    b = Backend(s, kind)
    got = []

    def load(a, k):
        got.append((a, k))
        return s.tok('res')
    ex = b.executor()
    args = s.list(s.tok('a'), s.star('A', lambda x: s.tok('arg', x)), NONE)
    call = s.code('''
def call(ex, fn, args, kw):
    return ex.submit(fn, *args, **kw)
''', 'call')
    fut = s.call(call, ex, b.fn(s.stub(load)), args,
                 s.dict(x=s.tok('x'), y=NONE))
    for t in b.tasks:
        b.complete(t)
    s.same(s.meth(fut, 'result'), s.tok('res'), R_ARGS, 'the result')
    s.same(s.meth(fut, 'result'), s.tok('res'), R_ARGS, 'the second reading')
    if s.ok(len(got) == 1, R_ARGS, 'called %d times' % len(got)):
        a, k = got[0]
        s.same(s.list(*a), args, R_ARGS, 'arguments')
        s.ok(sorted(k) == ['x', 'y'], R_ARGS, 'keyword arguments')
        s.same(k.get('x', NONE), s.tok('x'), R_ARGS, 'keyword argument')


# queries with one failing loader among others
SHAPES = {
    'root field': ('x', lambda w: w.qn(w.qf('a'), w.qf('x'), w.qf('b'))),
    'last root field': ('x', lambda w: w.qn(w.qf('a'), w.qf('b'),
                                            w.qf('x'))),
    'root link': ('l', lambda w: w.qn(w.qf('a'), w.ql('l', w.qn(
        w.qf('v'))))),
    'node field': ('v', lambda w: w.qn(w.qf('a'), w.ql('l', w.qn(
        w.qf('w'), w.qf('v'))))),
    'required field': ('v', lambda w: w.qn(w.ql('l', w.qn(w.ql('k', w.qn(
        w.qf('w'))))))),
    'node link': ('k', lambda w: w.qn(w.ql('l', w.qn(w.qf('w'), w.ql(
        'k', w.qn(w.qf('w'))))))),
    'expression': ('p', lambda w: w.qn(w.ql('l', w.qn(w.qf('w'), w.qf(
        'e'))))),
    'ordered': ('x', lambda w: w.qn(w.qf('a'), w.qf('x'), w.qf('b'),
                                    ordered=True)),
    'ordered, first': ('a', lambda w: w.qn(w.qf('a'), w.qf('x'), w.qf('b'),
                                           ordered=True)),
}


def engine(s, shape, kind):
    w = World(s)
    b = Backend(s, kind)
    bad, q = SHAPES[shape]
    err = s.call(Bi('ZeroDivisionError'), Const('loader'))
    ids = s.list(s.tok('i', 1), s.tok('i', 2))

    def loader(name, kind_='field'):
        def load(a, k):
            if name == bad:
                raise AbsRaise(err)
            if name == 'l':
                return ids
            if name == 'k':
                return a[0]
            n = len(M.segs_of(s.I, a[0]))
            if len(a) == 1:
                return s.list(*[s.tok(name)] * n)
            m = len(M.segs_of(s.I, a[1]))
            return s.list(*[s.list(*[s.tok(name)] * n) for _ in range(m)])
        return b.fn(s.stub(load))
    low = w.graph(w.node('t', w.field('p', loader('p'))), w.root())
    sg = s.mk('hiku.sources.graph:SubGraph', low, Const('t'))
    S = s.get('hiku.expr.core:S')
    g = w.graph(
        w.node('n', w.field('v', loader('v')), w.field('w', loader('w')),
               w.link('k', 'one', 'n', loader('k'), requires='v'),
               w.field('e', s.meth(sg, 'c', s.attr(s.attr(S, 'this'), 'p')))),
        w.root(w.field('a', loader('a')), w.field('b', loader('b')),
               w.field('x', loader('x')),
               w.link('l', 'many', 'n', loader('l'))))
    exc, r = s.raises(lambda: b.finish(w.execute(g, q(w), b.executor())))
    if s.ok(exc is not None, R_EXC, 'the failure of a loader is not raised'):
        s.ok(s.same3(exc, err), R_EXC, 'the failure of a loader is raised as '
             '%s' % s.I.exc_name(exc))
