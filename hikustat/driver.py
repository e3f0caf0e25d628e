"""Obligations: abstract scenarios over the analysed source, their verdicts,
and the evidence they leave."""
import ast
import io
import gc
import json
import os
import pickle
import select
import signal
import struct
import sys
import threading
import time
import traceback

from .interp import Interp
from .values import *   # noqa
from . import models as M

REPO = os.environ.get('HIKUSTAT_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('HIKUSTAT_EVID', os.path.join(ROOT, 'evidence'))


_code_cache = {}


class AnchorLost(Exception):
    """Something the check is anchored to is gone from the source."""


class Failure:
    def __init__(self, rule, what, site=None, path=(), construct=None):
        self.rule = rule
        self.what = what
        self.site = site
        self.path = tuple(path)
        self.construct = construct


# facts that merely choose among behaviours of the scenario's environment
FREE = {'setorder', 'exists', 'sched'}


class S:
    """Scenario under construction: helpers on top of the interpreter."""

    def __init__(self, I, check, name):
        self.I = I
        self.check = check
        self.name = name
        self.failures = []
        self.unknowns = []
        self.free = set(FREE)
        self.checked = 0
        self.log = []

    # --- values ---------------------------------------------------------
    def get(self, dotted):
        try:
            return self.I.get(dotted)
        except AbsRaise as e:
            raise AnchorLost('%s: %s' % (dotted, self.I.exc_name(e.val)))

    def mk(self, dotted, *args, **kw):
        return self.I.call(self.get(dotted), list(args), kw)

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    def meth(self, obj, name, *args, **kw):
        return self.I.call(self.I.getattr(obj, name), list(args), kw)

    def attr(self, obj, name):
        return self.I.getattr(obj, name)

    def item(self, obj, key):
        return M.getitem(self.I, obj, key)

    def c(self, v):
        return Const(v)

    def list(self, *items):
        return self.I.new_list(items)

    def dict(self, **kw):
        return self.I.new_dict([(Const(k), v) for k, v in kw.items()])

    def dict_of(self, pairs):
        return self.I.new_dict(pairs)

    def tok(self, *parts, ty='obj'):
        return Sym(('tok',) + parts, ty)

    def name_(self, *parts):
        return Sym(('tok',) + parts, 'name')

    def star(self, n, build):
        """Star of elements build(ix) allocated per index n"""
        self.I.open.append(n)
        try:
            e = build(ix(n))
        finally:
            self.I.open.pop()
        return Star(n, [((), [e])])

    def stub(self, fn=None, attrs=None, coro=False, tag=None, **hooks):
        """callable of the environment: fn(args, kwargs), or
        fn(tag, args, kwargs) when tagged; the tag follows the object when
        it stands for one per element of a collection"""
        hooks = {('await' if k == 'await_' else k): v
                 for k, v in hooks.items()}
        if coro:
            hooks['coro'] = True
        attrs = dict(attrs or {})
        data = None
        if fn is not None and tag is not None:
            attrs['$tag'] = Sym(('tag', tag), 'obj')

            def data(I, f, a, k):
                return fn(I.o(f).attrs['$tag'].term[1], a, k)
        elif fn is not None:
            def data(I, f, a, k):
                return fn(a, k)
        return self.I.new('stub', attrs=attrs, data=data, extra=hooks)

    def code(self, src, name):
        """a function of the environment, written in Python"""
        from .interp import Frame
        I = self.I
        tree = _code_cache.get(src)
        if tree is None:
            tree = _code_cache[src] = ast.parse(src)
        fr = I.new('frame', extra=None)
        I.setvar_raw(fr.oid, '__name__', Const('environment'))
        f = Frame(fr.oid, 'environment')
        I.stack.append(f)
        try:
            I.block(tree.body, f)
        finally:
            I.stack.pop()
        return I.heap[fr.oid].attrs[name]

    def each(self, seq, fn):
        self.I.iterate(seq, fn)

    def segs(self, v):
        return M.segs_of(self.I, v)

    def emit(self, kind, *data):
        self.I.trace.append(Event(kind, data, self.I.site()))

    def events(self, kind=None):
        """flat list of (event, enclosing star indices)"""
        out = []

        def walk(evs, ns):
            for e in evs:
                if isinstance(e, StarEv):
                    for g, b in e.variants:
                        walk(b, ns + (e.n,))
                elif kind is None or e.kind == kind:
                    out.append((e, ns))
        walk(self.I.trace, ())
        return out

    # --- verdicts ---------------------------------------------------------
    def fail(self, rule, what, site=None):
        s = site if site is not None else None
        self.failures.append(Failure(rule, what, s, self.I.callpath()))

    def unknown(self, what):
        self.unknowns.append(what)

    def ok(self, cond, rule, what, site=None):
        """cond: True | False | None (unknown)"""
        self.checked += 1
        if cond is True:
            return True
        if cond is None:
            self.unknown('%s: %s' % (rule, what))
        else:
            self.fail(rule, what, site)
        return False

    def same(self, got, want, rule, what, site=None):
        r = self.same3(got, want)
        if r is not True:
            what = '%s: got %s, expected %s' % (
                what, self.show(got), self.show(want))
        return self.ok(r, rule, what, site)

    def same3(self, a, b):
        I = self.I
        a, b = I.resolve(a), I.resolve(b)
        if isinstance(a, Const) and isinstance(b, Const):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, Sym) and isinstance(b, Sym) and a.term == b.term:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
        r = I.eq3(a, b)
        if r is None and isinstance(a, Sym) and isinstance(b, Sym):
            # opaque inputs of unknown kind, but different inputs
            if a.term[0] == 'tok' and b.term[0] == 'tok':
                return False
        return r

    def show(self, v):
        return show(self.I, v)

    def raises(self, fn):
        """run fn; (exception value or None, result)"""
        depth, slen = self.I.depth, len(self.I.stack)
        try:
            return None, fn()
        except AbsRaise as e:
            self.I.depth = depth
            del self.I.stack[slen:]
            self.last_raise = e
            return e.val, None

    def is_exc(self, val, *names):
        return any(M.isinstance_(self.I, val, Bi(n) if ':' not in n
                                 else self.get(n)) for n in names)


def show(I, v, d=0):
    try:
        v = I.resolve(v)
    except Exception:
        pass
    if d > 3:
        return '...'
    if isinstance(v, Ref):
        o = I.heap.get(v.oid)
        if o is None:
            return '?'
        if o.kind in ('list', 'set'):
            return '[%s]' % ', '.join(show(I, x, d + 1) for x in o.data)
        if o.kind == 'dict':
            return '{%s}' % ', '.join('%s: %s%s' % (
                show(I, e.key, d + 1), show(I, e.val, d + 1),
                ' for each %s' % (e.n,) if e.n else '') for e in o.data)
        if o.kind == 'class':
            return o.extra['name']
        if o.kind == 'func':
            return o.extra['qual']
        if o.kind == 'strval':
            return show(I, o.data, d)
        if o.kind == 'inst':
            return '%s(%s)' % (M.cls_name(I, o.cls), ', '.join(
                '%s=%s' % (k, show(I, x, d + 1))
                for k, x in list(o.attrs.items())[:6]))
        return o.kind
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(I, x, d + 1) for x in v.items)
    if isinstance(v, Star):
        return ' | '.join('%s*' % (', '.join(show(I, x, d + 1) for x in b),)
                          for g, b in v.variants)
    return repr(v)


class Check:
    """All scenarios and rules of one property."""

    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.violations = []
        self.undecided = []
        self.lost = []
        self.obligations = 0
        self.paths = 0
        self.scenarios = []
        self.rules = {}
        self.I = None
        self.extra_units = {}
        self.queue = []
        self.funcs = {}
        self.star_count = 0
        self.crashed = 0
        self.budget = 150 if tier == 'quick' else 700
        # no more new work after this point (a check has 900 s)
        self.ends = time.time() + (450 if tier == 'quick' else 800)

    def interp(self):
        if self.I is None:
            self.I = Interp(REPO)
            load_all(self.I)
            self.handlers = dict(self.I.ext_handlers)
        return self.I

    def rule(self, rid, text):
        self.rules[rid] = text

    def scenario(self, name, fn, expect=None, about='', max_paths=600,
                 free=(), cost=1):
        """queue the exploration of the abstract scenario fn(S); a raise of
        the analysed program is a violation of rule `expect` unless fn
        handles it"""
        self.queue.append((name, fn, expect, about, max_paths, free, cost))

    def run_queue(self, jobs=None):
        """explore the queued scenarios, in parallel processes"""
        queue, self.queue = self.queue, []
        if not queue:
            return
        self.interp()
        jobs = jobs or int(os.environ.get('HIKUSTAT_JOBS') or 0) \
            or min(8, os.cpu_count() or 1)
        jobs = min(jobs, len(queue))
        if jobs <= 1:
            results = {i: self.explore(*q[:-1]) for i, q in enumerate(queue)}
        else:
            results = self.fan_out(queue, jobs)
        for i, q in enumerate(queue):
            r = results.get(i)
            if r is None:
                self.undecided.append('%s: the exploration was ended' % q[0])
                continue
            self.absorb(r)

    def fan_out(self, queue, jobs):
        sys.stdout.flush()
        sys.stderr.flush()
        rq, wq = os.pipe()
        # longest first
        order = sorted(range(len(queue)), key=lambda i: -queue[i][-1])
        for i in order:
            os.write(wq, struct.pack('<I', i))
        os.close(wq)
        pipes = []
        # the loaded program is not garbage: keep its pages shared
        gc.collect()
        gc.freeze()
        gc.set_threshold(100000, 20, 20)
        for _ in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as out:
                        while True:
                            b = os.read(rq, 4)
                            if len(b) < 4:
                                break
                            i = struct.unpack('<I', b)[0]
                            res = self.explore(*queue[i][:-1])
                            pickle.dump((i, res), out)
                            out.flush()
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            pipes.append((pid, r))
        os.close(rq)
        results = {}
        files = {r: (pid, bytearray()) for pid, r in pipes}
        while files:
            for r in select.select(list(files), [], [])[0]:
                d = os.read(r, 1 << 20)
                pid, buf = files[r]
                if d:
                    buf += d
                    continue
                os.close(r)
                del files[r]
                f = io.BytesIO(bytes(buf))
                while True:
                    try:
                        i, res = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    results[i] = res
                _, st = os.waitpid(pid, 0)
                if st:
                    self.crashed += 1
        return results

    def absorb(self, r):
        for v in r['violations']:
            if all(v['key'] != w['key'] for w in self.violations):
                self.violations.append(v)
        self.undecided += r['undecided']
        self.lost += r['lost']
        self.paths += r['row']['paths']
        self.obligations += r['row']['obligations']
        self.scenarios.append(r['row'])
        for k, n in r['funcs'].items():
            self.funcs[k] = self.funcs.get(k, 0) + n
        self.star_count += r['stars']

    def explore(self, name, fn, expect, about, max_paths, free):
        I = self.interp()
        t = time.time()
        npaths = nob = nund = 0
        violations, undecided, lost = [], [], []
        I.funcs_seen = {}
        I.star_count = 0
        budget = max(1, min(self.budget, self.ends - t))
        I.deadline = t + budget
        box = {}

        def late(*_):
            raise Imprecise('time limit')
        alarm = threading.current_thread() is threading.main_thread()
        if alarm:
            signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, budget + 2, 2)

        def und(x):
            if len(undecided) < 40:
                undecided.append(x)

        def run():
            I.ext_handlers = dict(self.handlers)
            s = box['s'] = S(I, self, name)
            s.free |= set(free)
            fn(s)
            return s
        try:
            for kind, r in I.explore(run, max_paths=max_paths):
                if os.environ.get("HIKUSTAT_FACTS"): print("FACTS", dict(I.facts))
                npaths += 1
                s = box['s']
                nob += s.checked
                certain = self.certain(I, s)
                if kind == 'imprecise':
                    nund += 1
                    und('%s: %s' % (name, r))
                    continue
                if kind == 'raise':
                    nob += 1
                    what = '%s raised %s' % (name, describe_exc(I, r))
                    f = Failure(expect or self.pid, what,
                                r.stack[-1] if r.stack else None, r.stack)
                    s.failures.append(f)
                for u in s.unknowns:
                    nund += 1
                    und('%s: %s' % (name, u))
                for f in s.failures:
                    if certain is True:
                        self.add(I, violations, name, f)
                    else:
                        nund += 1
                        und('%s: possible: [%s] %s (depends on %s)' % (
                            name, f.rule, f.what, certain))
        except AnchorLost as e:
            lost.append('%s: %s' % (name, e))
        finally:
            if alarm:
                signal.setitimer(signal.ITIMER_REAL, 0)
        I.deadline = None
        return {'violations': violations, 'undecided': undecided,
                'lost': lost, 'funcs': dict(I.funcs_seen),
                'stars': I.star_count, 'row': {
                    'scenario': name, 'about': about, 'paths': npaths,
                    'obligations': nob, 'violations': len(violations),
                    'undecided': nund, 'wall_s': round(time.time() - t, 2)}}

    def certain(self, I, s):
        """True if the path depends on genuinely free inputs only"""
        for p, v in I.facts.items():
            if p[0] in s.free:
                continue
            if p[0] == 'exists':
                continue
            if not free_pred(p, s.free):
                return repr(p)[:200]
        return True

    def add(self, I, out, scen, f):
        key = (f.rule, f.site[:2] if f.site else None, f.what)
        if len(out) >= 40 or any(v['key'] == key for v in out):
            return
        out.append({
            'key': key, 'rule': f.rule, 'scenario': scen, 'what': f.what,
            'site': I.show_site(f.site) if f.site else None,
            'path': [I.show_site(x) for x in f.path],
            'rule_text': self.rules.get(f.rule, '')})

    def violation(self, rule, what, site=None, path=()):
        """violation found by a syntactic/dataflow rule"""
        self.violations.append({
            'key': (rule, site, what), 'rule': rule, 'scenario': None,
            'what': what, 'site': site, 'path': list(path),
            'rule_text': self.rules.get(rule, '')})


OPAQUE = {'loopval', 'last', 'meth', 'app', 'call', 'item', 'getattr',
          'super', 'chunkelem', 'lin', 'star', 'canon', 'elem', 'repr',
          'hash', 'join', 'format', 'mod', 'fmt', 'fmtspec', 'slice',
          'sum', 'min', 'max', 'eval', 'await', 'enter', 'next', 'rpos',
          'val', 'key', 'v'}
PLAIN = {'linle', 'lineq', 'linlt', 'truth', 'isnone', 'isinst', 'eq', 'is', 'in', 'hasattr',
         'callable', 'Lt', 'LtE', 'parse', 'numtype'}


def free_pred(p, free):
    """a predicate about scenario inputs only, so both outcomes occur"""
    if p[0] not in PLAIN:
        return False
    return free_term(p[1:], free)


def free_term(t, free):
    if isinstance(t, tuple):
        if not t:
            return True
        if t[0] in ('tok', 'c', 'ix'):
            return True
        if t[0] == 'attr':
            return free_term(t[1], free)
        if isinstance(t[0], str) and t[0] in OPAQUE and t[0] not in free:
            return False
        return all(free_term(x, free) for x in t)
    return True


def describe_exc(I, e):
    v = e.val
    try:
        msg = ''
        o = I.o(v)
        a = o.attrs.get('args')
        if isinstance(a, Tup) and a.items:
            msg = show(I, a.items[0])
        return '%s(%s) at %s' % (I.exc_name(v), msg[:160], I.show_site(
            e.stack[-1]) if e.stack else '?')
    except Exception:
        return repr(v)


def hiku_modules(repo=REPO):
    out = []
    base = os.path.join(repo, 'hiku')
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py') and not f.endswith('_pb2.py'):
                m = os.path.relpath(os.path.join(d, f), repo)[:-3]
                m = m.replace(os.sep, '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                out.append(m)
    return out


def load_all(I):
    for m in hiku_modules(I.repo):
        try:
            I.load(m)
        except AbsRaise as e:
            I.__dict__.setdefault('load_errors', {})[m] = describe_exc(I, e)
        except Imprecise as e:
            I.__dict__.setdefault('load_errors', {})[m] = str(e)


# ---------------------------------------------------------------------------
# reporting

def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def finish(check, explanation, assumptions=''):
    """print the report, write the evidence, return the exit status"""
    pid = check.pid
    check.run_queue()
    known = [k for k in known_findings() if k.get('property') == pid]
    new, seen = [], []
    for v in check.violations:
        k = next((k for k in known if k['rule'] == v['rule']
                  and k['match'] in (v['site'] or '') + ' ' + v['what']),
                 None)
        if k is not None:
            if k not in seen:
                seen.append(k)
        else:
            new.append(v)
    replay = None
    print('property %s (%s tier): %d scenarios, %d abstract paths, '
          '%d obligations' % (pid, check.tier, len(check.scenarios),
                              check.paths, check.obligations))
    brief = len(check.scenarios) > 400
    for s in check.scenarios:
        if brief and not s['violations'] and not s['undecided']:
            continue
        print('  %-46s paths=%-4d obligations=%-5d violations=%d '
              'undecided=%d  %.1fs' % (s['scenario'], s['paths'],
                                       s['obligations'], s['violations'],
                                       s['undecided'], s['wall_s']))
    und = list(dict.fromkeys(check.undecided))
    for u in und[:10]:
        print('  undecided: %s' % u[:400])
    for l in check.lost:
        print('  ANCHOR LOST: %s' % l)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new:
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s.txt' % pid)
        with open(replay, 'w') as f:
            for v in new:
                f.write(render(v) + '\n')
        for v in new[:12]:
            print(render(v))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    funcs = sorted('%s:%s' % k for k in check.funcs)
    scens = check.scenarios
    if brief:
        # the decided ones by name only
        step = max(1, len(scens) // 1500)
        scens = [s for s in scens if s['violations'] or s['undecided']][:400] \
            + [{'decided without violation': len(
                [s for s in scens if not s['violations']
                 and not s['undecided']]),
                'listed': 'every' if step == 1 else 'one of %d' % step,
                'names': [s['scenario'] for s in scens
                          if not s['violations'] and not s['undecided']
                          ][::step]}]
    ev = {
        'property': pid, 'tier': check.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': explanation,
            'rules': check.rules,
            'scenarios': scens,
            'abstract_paths': check.paths,
            'obligations': check.obligations,
            'loop_summaries': check.star_count,
            'functions_analysed': len(funcs),
            'functions': funcs,
            'undecided': und[:60],
            'anchors_lost': check.lost,
            'known_findings_reported': [k['what'] for k in seen],
            'units': check.extra_units,
        },
        'violations': [{k: v[k] for k in ('rule', 'what', 'site', 'path')}
                       for v in new],
        'wall_s': round(time.time() - check.t0, 2),
    }
    if assumptions:
        ev['assumptions'] = assumptions
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        return 1
    if check.obligations == 0:
        print('analysis lost its anchors: no verdict')
        return 2
    return 0


def render(v):
    out = ['  [%s] %s' % (v['rule'], v['what'])]
    if v['site']:
        out.append('      at %s' % v['site'])
    if v['scenario']:
        out.append('      scenario: %s' % v['scenario'])
    if v['rule_text']:
        out.append('      rule: %s' % v['rule_text'])
    if v['path']:
        out.append('      path: %s' % ' > '.join(v['path'][-8:]))
    return '\n'.join(out)
