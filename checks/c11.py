"""Callbacks of the work queue fire exactly once, after completion, in the
order they were registered; nothing added while callbacks run is lost."""
from hikustat.values import *   # noqa
from hikustat import models as M
from hikustat.world import World

R_ONCE = 'C11.exactly_once'
R_AFTER = 'C11.after_completion'
R_ORDER = 'C11.order'
R_ARGS = 'C11.submitted'
R_LEFT = 'C11.drained'

# A program is a list of steps, callbacks are lists of steps too:
#   ('fork', set, parent)           a task set
#   ('task', task, set)             a call submitted to it
#   ('cb', name, of, *steps)        a callback on a task or task set
#   ('cbs', n, of)                  any number of callbacks
PROGRAMS = {
    'a task': [('fork', 'A', None), ('task', 't', 'A'), ('cb', 'c', 't')],
    'a task set': [('fork', 'A', None), ('task', 't', 'A'), ('cb', 'c', 'A')],
    'no callbacks': [('fork', 'A', None), ('task', 't', 'A'),
                     ('task', 'u', 'A')],
    'task and task set': [
        ('fork', 'A', None), ('task', 't', 'A'), ('cb', 's', 'A'),
        ('cb', 'c', 't')],
    'several callbacks of a task': [
        ('fork', 'A', None), ('task', 't', 'A'), ('cb', 'c1', 't'),
        ('cb', 'c2', 't'), ('cb', 'c3', 't'), ('cb', 's1', 'A'),
        ('cb', 's2', 'A'), ('cb', 's3', 'A')],
    'any number of callbacks': [
        ('fork', 'A', None), ('task', 't', 'A'), ('task', 'u', 'A'),
        ('cb', 'c1', 't'), ('cbs', 'N', 't'), ('cb', 'c2', 't'),
        ('cbs', 'K', 'A')],
    'three tasks': [
        ('fork', 'A', None), ('task', 't', 'A'), ('task', 'u', 'A'),
        ('task', 'v', 'A'), ('cb', 'ct', 't'), ('cb', 'cu', 'u'),
        ('cb', 'cv', 'v'), ('cb', 's', 'A')],
    'a fork': [
        ('fork', 'A', None), ('task', 't', 'A'), ('fork', 'B', 'A'),
        ('task', 'u', 'B'), ('cb', 'a', 'A'), ('cb', 'b', 'B')],
    'forks': [
        ('fork', 'A', None), ('task', 't', 'A'), ('fork', 'B', 'A'),
        ('task', 'u', 'B'), ('fork', 'C', 'A'), ('task', 'v', 'C'),
        ('cb', 'a', 'A'), ('cb', 'b', 'B'), ('cb', 'c', 'C')],
    'forks only': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('task', 'u', 'B'),
        ('fork', 'C', 'A'), ('task', 'v', 'C'),
        ('cb', 'a', 'A'), ('cb', 'b', 'B'), ('cb', 'c', 'C')],
    'nested forks': [
        ('fork', 'A', None), ('task', 't', 'A'), ('fork', 'B', 'A'),
        ('fork', 'C', 'B'), ('task', 'u', 'C'), ('task', 'v', 'B'),
        ('cb', 'a', 'A'), ('cb', 'b', 'B'), ('cb', 'c', 'C')],
    'deep forks, tasks at the bottom': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('fork', 'C', 'B'),
        ('fork', 'D', 'C'), ('task', 't', 'D'),
        ('cb', 'a', 'A'), ('cb', 'b', 'B'), ('cb', 'c', 'C'),
        ('cb', 'd', 'D')],
    'deep forks, tasks at the top': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('fork', 'C', 'B'),
        ('task', 't', 'A'), ('cb', 'a', 'A'), ('cb', 'b', 'B'),
        ('cb', 'c', 'C')],
    'independent sets': [
        ('fork', 'A', None), ('task', 't', 'A'), ('fork', 'B', None),
        ('task', 'u', 'B'), ('cb', 'a', 'A'), ('cb', 'b', 'B'),
        ('cb', 'ct', 't')],
    'submit in a callback': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't', ('task', 'u', 'A'), ('cb', 'd', 'u')),
        ('cb', 's', 'A')],
    'submit in a chain of callbacks': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't', ('task', 'u', 'A'), ('cb', 'd', 'u', (
            'task', 'v', 'A'), ('cb', 'e', 'v'))),
        ('cb', 's', 'A')],
    'submit in callbacks of two tasks': [
        ('fork', 'A', None), ('task', 't', 'A'), ('task', 'u', 'A'),
        ('cb', 'c', 't', ('task', 'v', 'A'), ('cb', 'e', 'v')),
        ('cb', 'd', 'u', ('task', 'w', 'A'), ('cb', 'f', 'w')),
        ('cb', 's', 'A')],
    'callback on an outstanding task in a callback': [
        ('fork', 'A', None), ('task', 't', 'A'), ('task', 'u', 'A'),
        ('cb', 'c', 't', ('task', 'v', 'A'), ('cb', 'd', 'v'),
         ('cb', 'e', 'v')), ('cb', 's', 'A')],
    'callback on the task set in a callback': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't', ('cb', 's2', 'A')), ('cb', 's1', 'A')],
    'fork in a callback': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't', ('fork', 'B', 'A'), ('task', 'u', 'B'),
         ('cb', 'b', 'B'), ('cb', 'd', 'u')), ('cb', 's', 'A')],
    'empty fork in a callback': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't', ('fork', 'B', 'A'), ('cb', 'b', 'B')),
        ('cb', 's', 'A')],
    'submit in a callback of a fork': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('task', 't', 'B'),
        ('cb', 'b', 'B', ('task', 'u', 'A'), ('cb', 'd', 'u')),
        ('cb', 's', 'A')],
    'submit in callbacks of two forks': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('task', 't', 'B'),
        ('fork', 'C', 'A'), ('task', 'v', 'C'),
        ('cb', 'b', 'B', ('task', 'u', 'A'), ('cb', 'd', 'u')),
        ('cb', 'c', 'C', ('task', 'w', 'A'), ('cb', 'e', 'w')),
        ('cb', 's', 'A')],
    'fork of the parent in a callback of a fork': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('task', 't', 'B'),
        ('cb', 'b', 'B', ('fork', 'C', 'A'), ('task', 'u', 'C'),
         ('cb', 'c', 'C')), ('cb', 's', 'A')],
    'empty fork of the parent in a callback of a fork': [
        ('fork', 'A', None), ('fork', 'B', 'A'), ('task', 't', 'B'),
        ('cb', 'b', 'B', ('fork', 'C', 'A'), ('cb', 'c', 'C')),
        ('cb', 's', 'A')],
    'submit to another set in a callback of a task': [
        ('fork', 'A', None), ('fork', 'B', None), ('task', 't', 'A'),
        ('task', 'u', 'B'),
        ('cb', 'c', 't', ('fork', 'C', 'A'), ('task', 'v', 'C'),
         ('cb', 'e', 'v')), ('cb', 's', 'A'), ('cb', 'z', 'B')],
    'callback of a task after callbacks of its set': [
        ('fork', 'A', None), ('cb', 's1', 'A'), ('task', 't', 'A'),
        ('cb', 's2', 'A'), ('cb', 'c1', 't'), ('cb', 's3', 'A'),
        ('cb', 'c2', 't')],
    'sub-queries of two fields': [
        ('fork', 'A', None), ('task', 't', 'A'),
        ('cb', 'c', 't',
         ('fork', 'B', 'A'), ('task', 'u', 'B'), ('cb', 'du', 'u'),
         ('cb', 'b', 'B', ('task', 'x', 'A'), ('cb', 'dx', 'x')),
         ('fork', 'C', 'A'), ('task', 'v', 'C'),
         ('cb', 'dv', 'v', ('task', 'w', 'C'), ('cb', 'dw', 'w')),
         ('cb', 'e', 'C')),
        ('cb', 's', 'A')],
}


def run(c):
    c.rule(R_ONCE, 'every registered callback is called exactly once')
    c.rule(R_AFTER, 'a callback of a task is called after the task was '
           'reported done, a callback of a task set after all of its tasks '
           'and of its forks')
    c.rule(R_ORDER, 'callbacks of one task are called in the order they were '
           'registered')
    c.rule(R_ARGS, 'a submitted call reaches the executor unchanged, once')
    c.rule(R_LEFT, 'outstanding tasks are exactly those not reported done; '
           'the queue drains')
    for name, prog in PROGRAMS.items():
        for mode in ('any', 'any set', 'all'):
            c.scenario('%s, %s' % (name, mode),
                       lambda s, a=(prog, mode): program(s, *a), R_ONCE,
                       max_paths=3000)
    for how in ('before', 'after', 'around'):
        for mode in ('all', 'one'):
            c.scenario('any number of tasks, %s, %s' % (how, mode),
                       lambda s, a=(how, mode): tasks(s, *a), R_ONCE,
                       'any number of tasks of the same task set are '
                       'outstanding')
    for as_set in (False, True):
        c.scenario('a task reported again, set=%s' % as_set,
                   lambda s, a=as_set: again(s, a), R_ONCE)
    c.scenario('arguments of calls', arguments, R_ARGS)


class Run:

    def __init__(self, s):
        self.s = s
        self.I = s.I
        self.futs = {}      # task -> future
        self.sets = {}      # name -> task set
        self.parent = {}
        self.members = {}
        self.queue = s.mk('hiku.executors.queue:Queue', s.stub(
            None, attrs={'submit': s.stub(self.submit)}))
        self.done = []
        self.live = []
        self.cur = None
        self.regs = []
        self.log = []

    def submit(self, args, kw):
        s = self.s
        fut = s.stub(None, attrs={'result': s.stub(lambda a, k: NONE)})
        self.got.append((list(args), dict(kw), fut))
        return fut

    got = ()

    def steps(self, steps):
        s = self.s
        for st in steps:
            k = st[0]
            if k == 'fork':
                self.sets[st[1]] = s.meth(
                    self.queue, 'fork',
                    NONE if st[2] is None else self.sets[st[2]])
                self.parent[st[1]] = st[2]
                self.members[st[1]] = []
            elif k == 'task':
                fn = s.stub(lambda a, k: NONE)
                self.got = []
                fut = s.meth(self.sets[st[2]], 'submit', fn, Const(st[1]),
                             key=Const(st[1]))
                ok = len(self.got) == 1 and self.got[0][0] == [
                    fn, Const(st[1])] and self.got[0][1] == {
                    'key': Const(st[1])}
                s.ok(ok, R_ARGS, 'the call is submitted to the executor '
                     '%s' % (self.got,))
                if len(self.got) == 1:
                    s.ok(s.same3(fut, self.got[0][2]), R_ARGS,
                         'submit returns the future of the executor')
                self.futs[st[1]] = fut
                self.members[st[2]].append(st[1])
                self.live.append(st[1])
                self.log.append(('submit', st[1]))
            elif k in ('cb', 'cbs'):
                of = self.futs.get(st[2]) or self.sets[st[2]]
                self.regs.append((st[1], st[2]))
                if k == 'cb':
                    cb = s.stub(lambda a, k_, st=st: self.fire(st, a, k_))
                    s.meth(self.queue, 'add_callback', of, cb)
                else:
                    s.each(s.list(s.star(st[1], lambda x: s.tok('i', x))),
                           lambda x: s.meth(
                        self.queue, 'add_callback', of, self.many(st)))

    def many(self, st):
        s = self.s

        def fire(tag, a, kw):
            s.emit('cb', st[1])
            return NONE
        return s.stub(fire, tag=st[1])

    def fire(self, st, args, kw):
        self.s.ok(not args and not kw, R_ONCE, 'a callback gets arguments')
        self.log.append(('cb', st[1]))
        self.s.emit('cb', st[1])
        self.steps(st[3:])
        return NONE

    def pending(self):
        """the names of the outstanding tasks, as the queue sees them"""
        fs = M.segs_of(self.I, self.I.getattr(self.queue, '__futures__'))
        names = []
        for f in fs:
            n = [k for k, v in self.futs.items()
                 if isinstance(f, Ref) and v.oid == f.oid]
            if not n:
                raise Imprecise('unknown future')
            names += n
        self.s.ok(sorted(names) == sorted(self.live), R_LEFT,
                  'outstanding tasks are %s, the queue has %s' % (
                      sorted(self.live), sorted(names)))
        return names

    def report(self, names, as_set):
        s = self.s
        for n in names:
            if n in self.live:
                self.live.remove(n)
            self.log.append(('done', n))
        done = s.list(*[self.futs[n] for n in names])
        if as_set:
            done = s.call(Bi('set'), done)
        s.meth(self.queue, 'progress', done)


def program(s, prog, mode):
    I = s.I
    r = Run(s)
    r.steps(prog)
    step = 0
    while True:
        live = r.pending()
        if not live or not r.live:
            break
        step += 1
        if step > 20:
            s.fail(R_LEFT, 'the queue never drains')
            return
        if mode == 'all':
            batch = list(live)
        elif mode == 'any':
            i = 0
            while i < len(live) - 1 and not I.decide(('sched', step, i)):
                i += 1
            batch = [live[i]]
        else:
            batch = [n for i, n in enumerate(live)
                     if I.decide(('sched', step, i))] or live[-1:]
        r.report(batch, mode != 'all')
    check(s, r)


def again(s, as_set):
    r = Run(s)
    r.steps([('fork', 'A', None), ('task', 't', 'A'), ('task', 'u', 'A'),
             ('cb', 'c', 't'), ('cb', 'd', 'u'), ('cb', 's', 'A')])
    r.report(['t'], as_set)
    r.report(['t'], as_set)
    r.report(['t', 'u'], as_set)
    check(s, r)


def complete(log, r, at, name):
    """is the task (set) complete at this point of the log?"""
    past = log[:at]
    if name in r.futs:
        return ('done', name) in past
    for t in r.members[name]:
        if ('submit', t) in past and ('done', t) not in past:
            return False
    return all(complete(log, r, at, n) for n, p in r.parent.items()
               if p == name)


def check(s, r):
    log = r.log
    fired = [x[1] for x in log if x[0] == 'cb']
    many = [e for e, ns in s.events('cb') if ns]
    for name, of in r.regs:
        if any(e.data[0] == name for e in many):
            n = len([e for e in many if e.data[0] == name])
        elif name.isupper():
            n = 0
        else:
            n = fired.count(name)
        s.ok(n == 1, R_ONCE, 'callback %s of %s is called %d times' % (
            name, of, n))
    for i, x in enumerate(log):
        if x[0] == 'cb':
            of = dict(r.regs)[x[1]]
            s.ok(complete(log, r, i, of), R_AFTER, 'callback %s of %s is '
                 'called before it is complete' % (x[1], of))
    evs = [(e.data[0]) for e, ns in s.events('cb')]
    for of in {o for _, o in r.regs if o in r.futs}:
        want = [n for n, o in r.regs if o == of]
        got = [n for n in evs if n in want]
        s.ok(got == want, R_ORDER, 'callbacks of %s are called in the order '
             '%s, registered as %s' % (of, got, want))


def tasks(s, how, mode):
    """any number of tasks, each with its callback"""
    I = s.I
    futs = {}
    submit = s.code('''
class Future:
    def __init__(self, fn):
        self.fn = fn


def submit(fn, *args, **kwargs):
    return Future(fn)
''', 'submit')
    queue = s.mk('hiku.executors.queue:Queue',
                 s.stub(None, attrs={'submit': submit}))
    ts = s.meth(queue, 'fork', NONE)
    regs = s.list()

    def cb(tag):
        def fire(t, a, k):
            s.emit('cb', t)
            return NONE
        return s.stub(fire, tag=tag)

    def many(n):
        def one(x):
            fut = s.meth(ts, 'submit', cb('fn'))
            s.meth(queue, 'add_callback', fut, cb(('many', x)))
            M.list_append(I, regs, fut)
        s.each(s.list(s.star(n, lambda x: s.tok('n', x))),
               lambda x: one(I.term(x)))

    def task(n):
        futs[n] = s.meth(ts, 'submit', cb('fn'))
        s.meth(queue, 'add_callback', futs[n], cb(n))
        M.list_append(I, regs, futs[n])
    if how != 'after':
        task('t')
    many('N')
    if how != 'before':
        task('u')
    s.meth(queue, 'add_callback', ts, cb('set'))
    if mode == 'all':
        s.meth(queue, 'progress', regs)
    else:
        n = sorted(futs)[0]
        s.meth(queue, 'progress', s.list(futs[n]))
        s.ok([(e.data[0], len(ns)) for e, ns in s.events('cb')] == [(n, 0)],
             R_AFTER, 'callbacks called after one task: %s' % (
                 s.events('cb'),))
        return
    evs = [(e.data[0], ns) for e, ns in s.events('cb')]
    for n in futs:
        k = len([1 for t, ns in evs if t == n and not ns])
        s.ok(k == 1, R_ONCE, 'callback of a task is called %d times' % k)
    k = len([1 for t, ns in evs if isinstance(t, tuple) and ns])
    s.ok(k == 1, R_ONCE, 'callbacks of the tasks are called %d times' % k)
    k = [i for i, (t, ns) in enumerate(evs) if t == 'set']
    s.ok(k == [len(evs) - 1], R_AFTER, 'the callback of the task set is not '
         'called once at the end')


def arguments(s):
    got = []
    fut = s.tok('future')

    def submit(a, k):
        got.append((a, k))
        return fut
    queue = s.mk('hiku.executors.queue:Queue',
                 s.stub(None, attrs={'submit': s.stub(submit)}))
    ts = s.meth(queue, 'fork', NONE)
    fn = s.tok('fn')
    args = s.list(s.tok('a'), s.star('A', lambda x: s.tok('arg', x)), NONE)
    call = s.code('''
def call(ts, fn, args, kw):
    return ts.submit(fn, *args, **kw)
''', 'call')
    r = s.call(call, ts, fn, args, s.dict(x=s.tok('x'), y=NONE))
    s.same(r, fut, R_ARGS, 'the returned future')
    if s.ok(len(got) == 1, R_ARGS, 'submitted %d times' % len(got)):
        a, k = got[0]
        s.same(s.list(*a[1:]), args, R_ARGS, 'arguments')
        s.same(a[0], fn, R_ARGS, 'function')
        s.ok(sorted(k) == ['x', 'y'], R_ARGS, 'keyword arguments')
        s.same(k.get('x', NONE), s.tok('x'), R_ARGS, 'keyword argument')
