"""Abstract interpreter for the analysed Python source.

The analysed program is never imported or run: its syntax trees are
interpreted over abstract values (see values.py).  Unknown predicates split
the trace (and are remembered as facts of the trace), loops over sequences of
unknown length are summarised to a fixpoint into `Star` segments."""
import ast
import builtins
import os
import time
import sys

from .cogen import killall
from .values import *   # noqa

sys.setrecursionlimit(200000)

MAX_DEPTH = 1000
MAX_PATHS = 4000
WHILE_LIMIT = 60
STEP_LIMIT = 4000000


class Oracle:
    def __init__(self):
        self.seq = []      # [choice, arity]
        self.pos = 0

    def next(self, k):
        if self.pos < len(self.seq):
            c, kk = self.seq[self.pos]
            if kk != k:
                raise Imprecise('non-deterministic replay')
        else:
            c = 0
            self.seq.append([0, k])
        self.pos += 1
        return c

    def advance(self):
        self.pos = 0
        while self.seq:
            if self.seq[-1][0] + 1 < self.seq[-1][1]:
                self.seq[-1][0] += 1
                return True
            self.seq.pop()
        return False


class Frame:
    """Lexical scopes live on the heap (kind 'frame'); this is the control
    part of an activation."""
    __slots__ = ('oid', 'module', 'locals', 'globals_decl', 'nonlocals',
                 'func', 'on_yield', 'cls_cell', 'self_', 'fname', 'is_class',
                 'exc', 'line')

    def __init__(self, oid, module, locals_=None):
        self.oid = oid
        self.module = module
        self.locals = locals_
        self.globals_decl = ()
        self.nonlocals = ()
        self.func = None
        self.on_yield = None
        self.cls_cell = None
        self.self_ = None
        self.fname = '<module>'
        self.is_class = False
        self.exc = None
        self.line = 0


_scope_cache = {}


_driven_cache = {}


def driven(node):
    """is the value of a yield used in this generator function?"""
    r = _driven_cache.get(node)
    if r is None:
        plain = set()
        used = False
        todo = list(node.body) if isinstance(node.body, list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
                plain.add(n.value)
            if isinstance(n, ast.Yield) and n not in plain:
                used = True
            todo.extend(ast.iter_child_nodes(n))
        r = _driven_cache[node] = used
    return r


def scope_info(node):
    """(locals, globals, nonlocals, is_generator) of a function body"""
    r = _scope_cache.get(node)
    if r is not None:
        return r
    loc, glob, nonl, gen = set(), set(), set(), [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                loc.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)) and not top:
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    walk(b)
            else:
                for b in n.args.defaults + [
                        d for d in n.args.kw_defaults if d is not None]:
                    walk(b)
            return
        if isinstance(n, ast.Lambda) and not top:
            for b in n.args.defaults:
                walk(b)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            # only walrus targets and the first iterable leak out
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    gen[0] = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx,
                                                    (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(node.body)
        args = node.args
    else:
        for s in node.body:
            walk(s)
        args = node.args
    for a in (args.posonlyargs + args.args + args.kwonlyargs
              + [x for x in (args.vararg, args.kwarg) if x]):
        loc.add(a.arg)
    loc -= glob
    loc -= nonl
    r = (frozenset(loc), frozenset(glob), frozenset(nonl), gen[0])
    _scope_cache[node] = r
    return r


def _rebase(n, x, y):
    if n == x:
        return y
    return (n[0], _rebase(n[1], x, y)) + tuple(n[2:])


def lit_differ(a, b):
    """two composed strings whose literal ends contradict each other"""
    x, y = a[0], b[0]
    if x[0] == 'c' and y[0] == 'c':
        x, y = x[-1], y[-1]
        if isinstance(x, str) and isinstance(y, str):
            short = len(a) == 1 and len(y) > len(x) \
                or len(b) == 1 and len(x) > len(y)
            if not (x.startswith(y) or y.startswith(x)) or short:
                return True
    x, y = a[-1], b[-1]
    if x[0] == 'c' and y[0] == 'c':
        x, y = x[-1], y[-1]
        if isinstance(x, str) and isinstance(y, str):
            if not (x.endswith(y) or y.endswith(x)):
                return True
    return False


def is_step(s, name):
    """name += 1 / name = name + 1"""
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and s.target.id == name and \
            isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) \
            and s.value.value == 1
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
        isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and \
        isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
        and isinstance(s.value.left, ast.Name) and \
        s.value.left.id == name and \
        isinstance(s.value.right, ast.Constant) and s.value.right.value == 1


def own_continue(s):
    """`continue` of the loop the statement belongs to"""
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        return any(own_continue(x) for x in s.orelse)
    return any(own_continue(x) for x in ast.iter_child_nodes(s)
               if isinstance(x, (ast.stmt, ast.ExceptHandler,
                                 getattr(ast, 'match_case', ()) or ast.stmt))
               )


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.heap = {}
        self.facts = {}
        self.trace = []
        self.modules = {}
        # `==` of objects gives what their __eq__ returns
        self.rich_eq = False
        self.next_oid = [1]
        self.gen = 0
        self.cogens = []
        self.oracles = []
        self.open = []
        self.track = []       # dependence tracking levels
        self.depth = 0
        self.stack = []       # Frames
        self.steps = 0
        self.whiles = []      # `while` loops which may be summarised
        self.step_limit = STEP_LIMIT
        self.while_limit = WHILE_LIMIT
        self.funcs_seen = {}
        self.deadline = None
        self.sources = {}
        self.call_hooks = {}      # Sym term head / Ext path -> handler
        self.ext_handlers = {}
        self.attr_hooks = []
        self.write_hook = None
        self.rw_hook = None
        self.notes = []
        self.uid = [0]
        self.paths_done = 0
        self.star_count = 0
        self.universal = []
        from . import models
        self.models = models
        models.install(self)
        from . import pyast
        pyast.install(self)
        from . import stdlib, shims
        stdlib.install(self)
        shims.install(self)

    # ------------------------------------------------------------------
    # heap
    def new(self, kind, cls=None, **kw):
        oid = self.next_oid[0]
        self.next_oid[0] += 1
        o = Obj(kind, cls, idx=tuple(self.open), site=self.site(), **kw)
        o.gen = self.gen
        self.heap[oid] = o
        return Ref(oid)

    def o(self, ref):
        return self.heap[ref.oid]

    def w(self, oid, slot=None):
        o = self.heap[oid]
        if o.gen != self.gen:
            o = o.clone()
            o.gen = self.gen
            self.heap[oid] = o
        if o.kind != 'frame':
            o.wsite = self.site()
        if self.write_hook is not None and o.kind != 'frame':
            self.write_hook(self, oid, o, slot)
        return o

    def new_list(self, segs=(), cls=None):
        return self.new('list', cls or Bi('list'), data=list(segs))

    def new_dict(self, pairs=(), cls=None, extra=None):
        return self.new('dict', cls or Bi('dict'),
                        data=[DEntry(k, v) for k, v in pairs], extra=extra)

    def new_set(self, items=(), cls=None):
        return self.new('set', cls or Bi('set'), data=list(items))

    def fresh(self, hint):
        self.uid[0] += 1
        return '%s%d' % (hint, self.uid[0])

    def site(self):
        for f in reversed(self.stack):
            return (f.module, f.fname, f.line)
        return None

    def callpath(self):
        return [(f.module, f.fname, f.line) for f in self.stack]

    # dependence tracking ------------------------------------------------
    def rd(self, oid, slot):
        if self.rw_hook is not None:
            self.rw_hook('r', oid, slot)
        for lvl in reversed(self.track):
            if oid in lvl['fresh']:
                return
            if (oid, slot) in lvl['written']:
                return
            lvl['reads'].add((oid, slot))

    def wr(self, oid, slot, strong=True):
        if self.rw_hook is not None:
            self.rw_hook('w', oid, slot)
        if self.track:
            lvl = self.track[-1]
            if strong:
                lvl['written'].add((oid, slot))
            lvl['writes'].add((oid, slot))

    # ------------------------------------------------------------------
    # snapshots and exploration
    def snapshot(self):
        self.gen += 1
        return (dict(self.heap), dict(self.facts), list(self.trace))

    def restore(self, s):
        self.gen += 1
        self.heap = dict(s[0])
        self.facts = dict(s[1])
        self.trace = list(s[2])

    def explore(self, fn, max_paths=MAX_PATHS, on_path=None):
        """Run fn() once per feasible combination of unknown predicates.
        Yields (kind, payload) where kind is 'ok' | 'raise' | 'imprecise'."""
        base = self.snapshot()
        Imprecise.current = self
        orc = Oracle()
        count = 0
        saved = (self.oracles, self.open, self.track, self.stack, self.depth)
        try:
            while True:
                self.restore(base)
                self.oracles = [orc]
                self.open = []
                self.track = []
                self.stack = []
                self.whiles = []
                self.depth = 0
                self.notes = []
                self.steps = 0
                self.uid[0] = 0
                killall(self)
                count += 1
                try:
                    r = ('ok', fn())
                except AbsRaise as e:
                    r = ('raise', e)
                except Infeasible:
                    r = None
                except Imprecise as e:
                    r = ('imprecise', '%s at %s' % (
                        e, ' < '.join(self.show_site(x) for x in
                                      reversed(e.path[-4:]))))
                except RecursionError:
                    r = ('imprecise', 'analyser recursion')
                except Exception as e:
                    if os.environ.get('HIKUSTAT_DEBUG'):
                        raise
                    r = ('imprecise', 'analyser error %s: %s' % (
                        type(e).__name__, e))
                if r is not None:
                    self.paths_done += 1
                    yield r
                if not orc.advance():
                    break
                if count >= max_paths:
                    yield ('imprecise', 'path limit')
                    break
                if self.deadline and time.time() > self.deadline:
                    yield ('imprecise', 'time limit')
                    break
        finally:
            killall(self)
            (self.oracles, self.open, self.track, self.stack,
             self.depth) = saved
            self.restore(base)

    def show_site(self, s):
        if not s:
            return '?'
        return '%s:%s (%s)' % (self.relfile(s[0]), s[2], s[1])

    def relfile(self, mod):
        p = self.sources.get(mod)
        return os.path.relpath(p, self.repo) if p else mod

    def choose(self, k):
        if k <= 1:
            return 0
        return self.oracles[-1].next(k)

    def _local_pred(self, pred):
        """may this predicate be decided inside the innermost star loop?"""
        if not self.open:
            return True
        return mentions(pred, ix(self.open[-1]))

    def decide(self, pred):
        v = self.facts.get(pred)
        if v is not None:
            return v
        v = self.implied(pred)
        if v is not None:
            return v
        if len(self.oracles) > 1 and not self._local_pred(pred):
            raise Hoist(pred)
        v = not bool(self.choose(2))
        self.assume(pred, v)
        return v

    def assume(self, pred, v):
        old = self.facts.get(pred)
        if old is not None:
            if old != v:
                raise Infeasible()
            return
        self.facts[pred] = v
        if v and pred[0] == 'isinst':
            pass

    _DISJ = ['bool', 'str', 'int', 'float', 'list', 'dict', 'set',
             'tuple', 'NoneType', 'bytes', 'frozenset']

    def implied(self, pred):
        h = pred[0]
        f = self.facts
        if h == 'isnone':
            if f.get(('truth', pred[1])):
                return False
            for c in self._DISJ:
                if f.get(('isinst', pred[1], c)) is True and c != 'NoneType':
                    return False
            for p, v in f.items():
                if v and p[0] == 'isinst' and p[1] == pred[1]:
                    return p[2] == 'NoneType'
                if v and p[0] == 'eq' and pred[1] in p[1:]:
                    other = p[2] if p[1] == pred[1] else p[1]
                    if other and other[0] == 'c':
                        return False
        elif h == 'truth':
            if f.get(('isnone', pred[1])):
                return False
            for p, v in f.items():
                if v and p[0] == 'eq' and pred[1] in p[1:]:
                    other = p[2] if p[1] == pred[1] else p[1]
                    if other and other[0] == 'c':
                        return bool(other[-1])
        elif h == 'eq':
            # t == const when t == other const is known
            a, b = pred[1], pred[2]
            if a[:1] == b[:1] == ('ix',):
                return self.ix_known(a[1], b[1])
            if a[:1] == ('c',):
                a, b = b, a
            if b[:1] == ('c',):
                if f.get(('isnone', a)):
                    return False
                for p, v in f.items():
                    if v and p[0] == 'eq' and a in p[1:]:
                        other = p[2] if p[1] == a else p[1]
                        if other[:1] == ('c',):
                            return other[1:] == b[1:]
        elif h == 'isinst':
            t, c = pred[1], pred[2]
            if f.get(('isnone', t)) and c != 'NoneType':
                return False
            for p, v in f.items():
                if v and p[0] == 'isinst' and p[1] == t:
                    r = self.models.class_disjoint(self, p[2], c)
                    if r is not None:
                        return r
        return None

    # ------------------------------------------------------------------
    # star loops
    def iterate(self, v, fn):
        """call fn(elem) for every element of v"""
        segs = self.models.iter_source(self, v, fn)
        if segs is None:
            return
        if isinstance(segs, tuple) and segs and segs[0] == 'live':
            oid = segs[1]
            i = 0
            self.rd(oid, '*')
            while i < len(self.heap[oid].data):
                s = self.heap[oid].data[i]
                i += 1
                if i > 2000:
                    raise Imprecise('list keeps growing while iterated')
                self.seg(s, fn)
            return
        for s in segs:
            self.seg(s, fn)

    def seg(self, s, fn):
        if isinstance(s, Star):
            self.star_loop(s, fn)
        else:
            fn(self.resolve(s))

    def resolve(self, v):
        while isinstance(v, Choice):
            for g, alt in v.alts[:-1]:
                if self.guard_holds(g):
                    v = alt
                    break
            else:
                v = v.alts[-1][1]
        return v

    def guard_holds(self, g):
        for p, val in g:
            if self.decide(p) != val:
                return False
        return True

    def pick(self, star):
        vs = star.variants
        for g, b in vs[:-1]:
            if self.guard_holds(g):
                return b
        g, b = vs[-1]
        for p, val in g:
            if len(vs) == 1:
                if self.decide(p) != val:
                    raise Infeasible()
        return b

    def _body(self, star, fn, base):
        """explore one generic iteration; returns list of
        (guard, outcome, snapshot)"""
        n = star.n
        paths = []
        orc = Oracle()
        while True:
            self.restore(base)
            self.oracles.append(orc)
            self.open.append(n)
            lvl = {'reads': set(), 'writes': set(), 'written': set(),
                   'fresh': _Fresh(base[0])}
            self.track.append(lvl)
            depth, slen = self.depth, len(self.stack)
            hoist = None
            try:
                try:
                    for s in self.pick(star):
                        self.seg(s, fn)
                    out = None
                except (Brk, Ret, AbsRaise, Through, Stop) as e:
                    out = e
                except Cont:
                    out = None
                except Infeasible:
                    out = 'infeasible'
                except Hoist as h:
                    hoist = h
            finally:
                self.track.pop()
                self.open.pop()
                self.oracles.pop()
                self.depth = depth
                del self.stack[slen:]
            if hoist is not None:
                self.restore(base)
                self.decide(hoist.pred)
                base = self.snapshot()
                paths = []
                orc = Oracle()
                continue
            if out != 'infeasible':
                # hoisted facts aside, remember what this path learned
                guard = tuple(sorted(
                    ((p, v) for p, v in self.facts.items()
                     if p not in base[1]), key=repr))
                paths.append((guard, out, self.snapshot(), lvl))
            if not orc.advance():
                break
            if len(paths) > 200:
                raise Imprecise('too many paths in one iteration')
        self.restore(base)
        return base, paths

    def star_loop(self, star, fn):
        self.star_count += 1
        if star.n in self.open:
            k = ("'", star.n)
            while k in self.open:
                k = ("'", k)
            star = self.rename_star(star, star.n, k)
        self.steps += 20
        base = self.snapshot()
        base, paths = self._body(star, fn, base)
        if not paths:
            raise Infeasible()
        normal = [p for p in paths if p[1] is None]
        conflict = self._conflict(base, paths, star.n)
        if conflict:
            w = self._warm(star, fn, base, paths, conflict)
            if w is None:
                return self._peeled(star, fn, base)
            base, paths = w
            normal = [p for p in paths if p[1] is None]
            self.restore(base)
        k = self._outcomes(base, paths, normal, star)
        if k is None:
            self._merge(base, normal, star.n)
            return
        pre = None
        if normal and self._has_effect(base, normal):
            self._merge(base, normal, ('pre', star.n), rename=star.n)
        else:
            self.restore(base)
        self._run_at(star, fn, k)

    def _outcomes(self, base, paths, normal, star):
        """pick (at the outer level) between normal completion and one of
        the abrupt exits; None means normal completion"""
        abrupt = [p for p in paths if p[1] is not None]
        self.restore(base)
        options = ([None] if normal else []) + abrupt
        c = self.choose(len(options))
        p = options[c]
        if p is None:
            if abrupt:
                # every iteration took a normal path
                for q in abrupt:
                    if len(q[0]) == 1:
                        (pr, v), = q[0]
                        self._univ(star.n, pr, not v)
                if len(normal) == 1:
                    for pr, v in normal[0][0]:
                        self._univ(star.n, pr, v)
            return None
        return p

    def _univ(self, n, pred, v):
        ex = self.facts.get(('exists', n, pred, not v))
        if ex:
            raise Infeasible()
        self.facts[pred] = v

    def _run_at(self, star, fn, p):
        """the iteration that leaves the loop, on the element `at`"""
        n = star.n
        at = ('at', n)
        while any(mentions(q, ix(at)) for q in self.facts):
            at = ('at', at)
        for pr, v in p[0]:
            self.assume(self.subst(pr, ix(n), ix(at)), v)
            if len(p[0]) == 1:
                self.facts[('exists', n, pr, v)] = True
        s2 = self.rename_star(star, n, at)
        for s in self.pick(s2):
            self.seg(s, fn)
        # the replay took another way out: contradiction with the choice
        raise Infeasible()

    def _has_effect(self, base, normal):
        for g, o, snap, lvl in normal:
            if len(snap[2]) != len(base[2]):
                return True
            for oid, rec in base[0].items():
                r2 = snap[0].get(oid)
                if r2 is not rec and not r2.same(rec):
                    if rec.kind != 'frame':
                        return True
        return False

    def _changed(self, base, paths):
        ch = {}
        for g, out, snap, lvl in paths:
            for oid, rec in base[0].items():
                r2 = snap[0].get(oid)
                if r2 is not rec and not r2.same(rec):
                    ch.setdefault(oid, []).append(r2)
        return ch

    def _conflict(self, base, paths, n):
        """what an iteration reads and another iteration wrote:
        {(oid, slot)}"""
        out = set()
        reads = set()
        writes = set()
        for _g, _o, _s, lvl in paths:
            reads |= lvl['reads']
            writes |= lvl['writes']
        ch = None
        by = {}
        for oid, slot in writes:
            by.setdefault(oid, []).append(slot)
        for oid, slot in reads:
            ws = by.get(oid)
            if not ws or oid not in base[0]:
                continue
            if ch is None:
                ch = self._changed(base, paths)
            if oid not in ch:
                continue
            for wslot in ws:
                if slot == '*' or wslot == '*':
                    if slot == wslot == '+':
                        continue
                    out.add((oid, wslot))
                    continue
                if slot == wslot and not isinstance(slot, tuple):
                    if slot == '+':
                        continue
                    out.add((oid, wslot))
                if isinstance(slot, tuple) and isinstance(wslot, tuple):
                    if slot[0] != wslot[0]:
                        continue
                    other = self.subst(wslot[1], ix(n), ix(("o", n)))
                    if self.term_eq(slot[1], other) is not False:
                        out.add((oid, wslot))
        return out

    def _warm(self, star, fn, base, paths, conflict):
        """memoised slots: when every iteration stores the same value in a
        slot, and does the same whether or not it is already there, the loop
        behaves as if it were there from the start"""
        n = star.n
        vals = {}
        for oid, slot in conflict:
            if not isinstance(slot, str) or slot in ('*', '+', '$cache'):
                return None
            brec = base[0].get(oid)
            if brec is None or brec.kind not in ('inst', 'class', 'func') \
                    or slot in brec.attrs:
                return None
            got = None
            for g, out, snap, lvl in paths:
                v = snap[0][oid].attrs.get(slot)
                if v is None:
                    continue
                if got is None:
                    got = (v, snap)
            if got is None:
                return None
            vals[(oid, slot)] = got
        heap = dict(base[0])
        ext = set()
        for (oid, slot), (v, snap) in vals.items():
            objs = self._closure(v, snap[0], base[0])
            if objs is None or self._mentions_ix(v, n):
                return None
            for o in objs:
                r = snap[0][o]
                if any(self._mentions_ix(x, n) for x in r.attrs.values()) \
                        or self._mentions_ix(
                            tuple(r.data) if isinstance(r.data, list)
                            else r.data, n):
                    return None
                r = r.clone()
                r.idx = tuple(i for i in r.idx if i != n)
                heap[o] = r
                ext.add(o)
        for (oid, slot), (v, snap) in vals.items():
            if heap[oid] is base[0].get(oid):
                heap[oid] = heap[oid].clone()
            heap[oid].attrs[slot] = v
        base2 = (heap, base[1], base[2])
        b2, paths2 = self._body(star, fn, base2)
        if b2[1] != base[1] or self._conflict(b2, paths2, n):
            return None
        if len(paths) != len(paths2):
            return None
        skip = set(vals)
        for p, q in zip(paths, paths2):
            if p[0] != q[0] or type(p[1]) is not type(q[1]):
                return None
            if self._delta(base, p[2], n, skip, ext) != \
                    self._delta(b2, q[2], n, skip, ext):
                return None
        return b2, paths2

    def _closure(self, v, heap, base):
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, (Ref, IDict)):
                if x.oid in out or x.oid in base:
                    continue
                o = heap.get(x.oid)
                if o is None:
                    return None
                if o.kind in ('gen', 'iter'):
                    return None
                out.add(x.oid)
                todo.extend(o.attrs.values())
                if o.cls is not None:
                    todo.append(o.cls)
                if isinstance(o.data, list):
                    todo.extend(o.data)
                elif o.data is not None:
                    todo.append(o.data)
                if isinstance(o.extra, dict):
                    todo.extend(o.extra.values())
            elif isinstance(x, Tup):
                todo.extend(x.items)
            elif isinstance(x, Star):
                for g, b in x.variants:
                    todo.extend(b)
            elif isinstance(x, DEntry):
                todo.extend((x.key, x.val))
            elif isinstance(x, Bound):
                todo.extend((x.func, x.self_))
            elif isinstance(x, BoundM):
                todo.append(x.recv)
            elif isinstance(x, Choice):
                todo.extend(b for g, b in x.alts)
            elif isinstance(x, (list, tuple)):
                todo.extend(x)
        return out

    def _mentions_ix(self, v, n):
        try:
            return mentions(v, ix(n))
        except RecursionError:
            return True

    def _delta(self, base, snap, n, skip, ext):
        save = self.heap
        self.heap = snap[0]
        self._ext = ext
        try:
            out = {}
            for oid, rec in base[0].items():
                r2 = snap[0].get(oid)
                if r2 is rec or r2.same(rec):
                    continue
                at = {k: v for k, v in r2.attrs.items()
                      if (oid, k) not in skip}
                ab = {k: v for k, v in rec.attrs.items()
                      if (oid, k) not in skip}
                if at == ab and r2.data == rec.data \
                        and r2.extra == rec.extra:
                    continue
                memo = {}
                out[oid] = (
                    self.canon(at, memo, n),
                    tuple(self.canon(x, memo, n) for x in r2.data)
                    if isinstance(r2.data, list)
                    else self.canon(r2.data, memo, n), repr(r2.extra))
            return out, tuple(self._canon_ev(e, n)
                              for e in snap[2][len(base[2]):])
        finally:
            self.heap = save
            self._ext = ()

    def _canon_ev(self, e, n):
        if isinstance(e, StarEv):
            return ('*', e.n, tuple((g, tuple(self._canon_ev(x, n)
                                              for x in b))
                                    for g, b in e.variants))
        return (e.kind, self.canon(e.data, {}, n), e.site)

    _ext = ()


    def _peeled(self, star, fn, base):
        """first iteration separately, then the rest to a fixpoint"""
        n = star.n
        self.restore(base)
        first, rest = ('first', n), ('rest', n)
        s1 = self.rename_star(star, n, first)
        for s in self.pick(s1):
            self.seg(s, fn)
        rstar = self.rename_star(star, n, rest)
        state = self.snapshot()
        for rnd in range(6):
            b, paths = self._body(rstar, fn, state)
            normal = [p for p in paths if p[1] is None]
            k = self._outcomes(b, paths, normal, rstar)
            if k is not None:
                self.restore(b)
                self._run_at(rstar, fn, k)
            conflict = self._conflict(b, normal, rest)
            pre_canon = self.canon_state(b)
            self._merge(b, normal, rest, maybe_empty=True)
            if not conflict:
                break
            if self.canon_state((self.heap, self.facts, self.trace),
                                only=b[0]) == pre_canon:
                break
            state = self.snapshot()
        else:
            raise Imprecise('loop does not stabilise')
        self._normalise(base, n, first, rest)

    # merging --------------------------------------------------------
    def _merge(self, base, normal, n, rename=None, maybe_empty=False):
        heap = dict(base[0])
        self.gen += 1
        ren = None
        src_n = rename if rename is not None else n
        for g, out, snap, lvl in normal:
            for oid, rec in snap[0].items():
                if oid not in base[0]:
                    heap[oid] = rec
        self.heap = heap
        self.facts = dict(base[1])
        self.trace = list(base[2])
        changed = {}
        for i, (g, out, snap, lvl) in enumerate(normal):
            for oid, rec in base[0].items():
                r2 = snap[0].get(oid)
                if r2 is not rec and not r2.same(rec):
                    changed.setdefault(oid, {})[i] = r2
        guards = [p[0] for p in normal]
        single = len(normal) == 1
        if single:
            guards = [()]
        for oid, recs in changed.items():
            brec = base[0][oid]
            full = [recs.get(i, brec) for i in range(len(normal))]
            self.heap[oid] = self._merge_obj(brec, full, guards, n, src_n)
        # events
        tails = [snap[2][len(base[2]):] for g, o, snap, l in normal]
        if any(tails):
            self.trace.append(StarEv(n, [
                (g, tuple(t)) for g, t in zip(guards, tails)]))
        # universal facts
        common = None
        for g, o, snap, lvl in normal:
            f = {p: v for p, v in snap[1].items() if p not in base[1]}
            if common is None:
                common = f
            else:
                common = {p: v for p, v in common.items()
                          if f.get(p) == v}
        self.facts.update(common or {})
        # propagate dependence info to the enclosing loop
        if self.track:
            up = self.track[-1]
            wr = None
            for g, o, snap, lvl in normal:
                up['writes'] |= lvl['writes']
                for r in lvl['reads']:
                    if r not in up['written'] and r[0] not in up['fresh']:
                        up['reads'].add(r)
                wr = lvl['written'] if wr is None else wr & lvl['written']
            up['written'] |= (wr or set())
        if rename is not None and rename != n:
            self._rename_new(base, normal, rename, n)

    def _rename_new(self, base, normal, old, new):
        memo = {}
        for g, out, snap, lvl in normal:
            for oid in list(base[0]):
                r = self.heap[oid]
                if r is base[0][oid]:
                    continue
                r = r.clone()
                r.gen = self.gen
                r.attrs = {k: self.subst(v, ix(old), ix(new), memo)
                           for k, v in r.attrs.items()}
                if isinstance(r.data, list):
                    r.data = [self.subst(v, ix(old), ix(new), memo)
                              for v in r.data]
                self.heap[oid] = r

    def _merge_obj(self, b, full, guards, n, src_n):
        r = b.clone()
        r.gen = self.gen
        r.wsite = full[-1].wsite
        keys = []
        for f in full:
            for k in f.attrs:
                if k not in keys:
                    keys.append(k)
        for k in keys:
            vals = [f.attrs.get(k) for f in full]
            if all(v == vals[0] for v in vals):
                if vals[0] is not None:
                    r.attrs[k] = vals[0]
                continue
            if src_n in b.idx:
                r.attrs[k] = Choice([(g, v if v is not None else NONE)
                                     for g, v in zip(guards, vals)])
            else:
                old = b.attrs.get(k)
                r.attrs[k] = Sym(('loopval', n, k), 'any') \
                    if b.kind == 'frame' or old is not None \
                    else Sym(('loopval', n, k), 'any')
        for k in list(r.attrs):
            if not any(k in f.attrs for f in full):
                del r.attrs[k]
        # values that depend on the index do not survive in single slots
        if src_n not in b.idx and b.kind != 'frame':
            for k, v in list(r.attrs.items()):
                if b.attrs.get(k) != v and mentions(v, ix(src_n)):
                    r.attrs[k] = Sym(('last', n, k), 'any')
        extras = [f.extra for f in full]
        if any(e != b.extra for e in extras):
            if all(e == extras[0] for e in extras):
                r.extra = extras[0]
            else:
                raise Imprecise('loop changes object state')
        if b.kind in ('list', 'iter', 'set') and isinstance(b.data, list):
            if any(f.data != b.data for f in full):
                if src_n in b.idx and len(full) == 1:
                    r.data = list(full[0].data)
                else:
                    r.data = self._merge_seq(b, full, guards, n, src_n)
        elif b.kind == 'dict':
            if any(f.data != b.data for f in full):
                if src_n in b.idx and len(full) == 1:
                    r.data = list(full[0].data)
                else:
                    r.data = self._merge_dict(b, full, guards, n, src_n)
        elif any(f.data != b.data for f in full):
            if all(f.data == full[0].data for f in full):
                r.data = full[0].data
            else:
                raise Imprecise('loop changes %s' % b.kind)
        return r

    def _merge_seq(self, b, full, guards, n, src_n):
        tails = []
        k = len(b.data)
        pre = False
        for f in full:
            if f.data[:k] == b.data:
                tails.append(tuple(f.data[k:]))
            elif k and f.data[-k:] == b.data:
                tails.append(tuple(f.data[:-k]))
                pre = True
            elif all(f2.data == f.data for f2 in full) \
                    and not mentions(tuple(f.data), ix(src_n)):
                return list(f.data)
            else:
                raise Imprecise('loop rewrites a sequence')
        if b.kind == 'set' or all(
                not mentions(t, ix(src_n)) and b.kind == 'set'
                for t in tails):
            # a set absorbs repeated index-free elements
            if all(t == tails[0] for t in tails) \
                    and not any(mentions(x, ix(src_n)) for x in tails[0]) \
                    and not any(self._perix(x, src_n) for x in tails[0]):
                return list(b.data) + list(tails[0])
        if all(t == tails[0] for t in tails):
            variants = [((), tails[0])]
        else:
            variants = list(zip(guards, tails))
        seg = Star(n, variants)
        if b.data and b.data[-1] == seg:
            return list(b.data)
        if pre:
            return [seg] + list(b.data)
        return list(b.data) + [seg]

    def _perix(self, v, n):
        return isinstance(v, Ref) and n in self.heap[v.oid].idx

    def _merge_dict(self, b, full, guards, n, src_n):
        out = list(b.data)
        single = len(full) == 1
        # entries removed one by one
        gone = []
        for e in b.data:
            if e.n is None or len(e.n) != 1:
                continue
            m = e.n[0]
            gd = self.gone_guard(m, src_n)
            cut = DEntry(e.key, e.val, e.n, (e.guard or ()) + gd)
            hits = [cut in f.data and e not in f.data for f in full]
            if not any(hits):
                continue
            if not all(hits):
                raise Imprecise('loop removes some dict entries')
            mm, nn = m, src_n
            while isinstance(mm, tuple) and mm[0] == "'":
                mm = mm[1]
            while isinstance(nn, tuple) and nn[0] == "'":
                nn = nn[1]
            if mm == nn or nn == ('rest', mm) and all(
                    x in (e.guard or ())
                    for x in self.gone_guard(m, ('first', mm))):
                gone.append(e)
                out = [x for x in out if x != e]
            else:
                raise Imprecise('loop removes part of a dict')
            full = [self._with_data(f, [e if x == cut else x
                                        for x in f.data]) for f in full]
        for g, f in zip(guards, full):
            removed = [e for e in b.data
                       if not any(e2.key == e.key and e2.n == e.n
                                  for e2 in f.data)]
            if removed:
                if all(not any(e2.key == e.key for e2 in ff.data)
                       for ff in full for e in removed) \
                        and not any(mentions(e.key, ix(src_n))
                                    for e in removed):
                    out = [e for e in out if e not in removed]
                else:
                    raise Imprecise('loop removes dict entries')
            for e in f.data:
                if e in b.data or e in out or e in gone:
                    continue
                idxk = mentions(e.key, ix(src_n)) or self._perix(e.key,
                                                                 src_n)
                old = next((x for x in out if x.key == e.key), None)
                if idxk:
                    ne = DEntry(e.key, e.val,
                                e.n + (n,) if e.n else (n,),
                                e.guard + (() if single else tuple(g)))
                    if ne not in out:
                        out.append(ne)
                elif old is None:
                    val = e.val
                    ne = DEntry(e.key, val, e.n,
                                e.guard if single else
                                e.guard + (('some', n, tuple(g)),))
                    if all(any(x.key == e.key and x.n == e.n
                               for x in ff.data) for ff in full):
                        ne = DEntry(e.key, val, e.n, e.guard)
                    out.append(ne)
                else:
                    i = out.index(old)
                    vals = [next((x.val for x in ff.data
                                  if x.key == e.key), old.val)
                            for ff in full]
                    if all(v == e.val for v in vals) \
                            and not mentions(e.val, ix(src_n)):
                        out[i] = DEntry(e.key, e.val, old.n, old.guard)
                    else:
                        out[i] = DEntry(e.key,
                                        Sym(('loopval', n, e.key), 'any'),
                                        old.n, old.guard)
        return out

    def gone_guard(self, m, at):
        return ((('eq',) + self._sorted2(ix(m), ix(at)), False),)

    def _with_data(self, o, data):
        o = o.clone()
        o.data = data
        return o

    def _normalise(self, base, n, first, rest):
        """[x(first), Star(rest, x)] -> Star(n, x)"""
        for oid in list(self.heap):
            r = self.heap[oid]
            if r is base[0].get(oid) or not isinstance(r.data, list):
                continue
            new = self._norm_segs(r.data, n, first, rest)
            if new != r.data:
                r = r.clone()
                r.gen = self.gen
                r.data = new
                self.heap[oid] = r
        out = []
        tr = self.trace
        i = len(base[2])
        if len(tr) > i and isinstance(tr[-1], StarEv) and tr[-1].n == rest \
                and len(tr[-1].variants) == 1:
            tail = tr[-1].variants[0][1]
            head = tr[i:-1]
            if len(head) == len(tail) and all(
                    isinstance(h, Event) and isinstance(t, Event)
                    and h.kind == t.kind for h, t in zip(head, tail)):
                a = [self.canon(e.data, {}, first) for e in head]
                b = [self.canon(e.data, {}, rest) for e in tail]
                if a == b:
                    sev = StarEv(n, [((), tuple(
                        Event(e.kind, self.subst(e.data, ix(rest), ix(n)),
                              e.site) for e in tail))])
                    self.trace = tr[:i] + [sev]

    def _norm_segs(self, data, n, first, rest):
        data = list(data)
        if data and isinstance(data[0], DEntry):
            out = []
            used = set()
            for i, e in enumerate(data):
                if i in used:
                    continue
                if e.n is None and mentions(e.key, ix(first)):
                    for j in range(len(data)):
                        f = data[j]
                        if j != i and f.n == (rest,) and not f.guard and \
                                self.canon((e.key, e.val), {}, first) == \
                                self.canon((f.key, f.val), {}, rest):
                            used.add(j)
                            memo = {}
                            out.append(DEntry(
                                self.subst(f.key, ix(rest), ix(n), memo),
                                self.subst(f.val, ix(rest), ix(n), memo),
                                (n,)))
                            break
                    else:
                        out.append(e)
                else:
                    out.append(e)
            if len(out) != len(data):
                return [e for e in out if not (e.n == (rest,) and any(
                    data[j] is e for j in used))]
            return data
        for i, s in enumerate(data):
            if isinstance(s, Star) and s.n == rest:
                if len(s.variants) == 1:
                    blk = s.variants[0][1]
                    k = len(blk)
                    if k and i >= k and not any(
                            isinstance(x, Star) for x in data[i - k:i]):
                        a = [self.canon(x, {}, first) for x in data[i - k:i]]
                        b = [self.canon(x, {}, rest) for x in blk]
                        if a == b:
                            memo = {}
                            nb = [self.subst(x, ix(rest), ix(n), memo)
                                  for x in blk]
                            return data[:i - k] + [Star(n, [((), nb)])] \
                                + data[i + 1:]
        return data

    # canonical forms --------------------------------------------------
    def canon(self, v, memo, n=None):
        """structural form of a value; objects allocated per index `n` (or
        reachable from it) are expanded, index renamed"""
        if isinstance(v, Sym):
            return ('s', self._cterm(v.term, n))
        if isinstance(v, Const):
            return ('c', type(v.v).__name__, v.v)
        if isinstance(v, Tup):
            return ('t',) + tuple(self.canon(x, memo, n) for x in v.items)
        if isinstance(v, Star):
            return ('star', self._cterm(v.n, n), tuple(
                (self._cterm(g, n),
                 tuple(self.canon(x, memo, n) for x in b))
                for g, b in v.variants))
        if isinstance(v, DEntry):
            return ('de', self.canon(v.key, memo, n),
                    self.canon(v.val, memo, n), v.n)
        if isinstance(v, Bound):
            return ('b', self.canon(v.func, memo, n),
                    self.canon(v.self_, memo, n))
        if isinstance(v, BoundM):
            return ('bm', v.name, self.canon(v.recv, memo, n))
        if isinstance(v, Choice):
            return ('ch', tuple((self._cterm(g, n), self.canon(x, memo, n))
                                for g, x in v.alts))
        if isinstance(v, Ref):
            if v.oid in memo:
                return ('back', memo[v.oid])
            o = self.heap.get(v.oid)
            if o is None:
                return ('gone',)
            per = any(n == i for i in o.idx) or n in o.attrs.get(
                '$ren', ())
            if n is not None and (not per or v.oid in self._ext):
                return ('o', v.oid)
            memo[v.oid] = len(memo)
            return ('obj', o.kind, self.canon(o.cls, memo, n)
                    if o.cls is not None else None,
                    tuple((k, self.canon(x, memo, n))
                          for k, x in sorted(o.attrs.items())
                          if k != '$ren'),
                    tuple(self.canon(x, memo, n) for x in o.data)
                    if isinstance(o.data, list) else None)
        if isinstance(v, (tuple, list)):
            return tuple(self.canon(x, memo, n) for x in v)
        if isinstance(v, dict):
            return tuple((k, self.canon(x, memo, n))
                         for k, x in sorted(v.items()))
        return v

    def _cterm(self, t, n):
        if n is None:
            return t
        return self.subst(t, ix(n), ('ix', '*'))

    def canon_state(self, st, only=None):
        heap = st[0]
        keys = only if only is not None else heap
        save = self.heap
        self.heap = heap
        try:
            # contents of non-frame objects, with one level of references
            out = {}
            for oid in keys:
                o = heap[oid]
                if o.kind in ('class', 'func', 'module'):
                    continue
                out[oid] = (
                    tuple(sorted(((k, self._shallow(v))
                                  for k, v in o.attrs.items()),
                                 key=repr)),
                    tuple(self._shallow(x) for x in o.data)
                    if isinstance(o.data, list) else None)
            return out
        finally:
            self.heap = save

    def _shallow(self, v):
        return self.canon(v, {}, ('~none~',))

    # renaming ---------------------------------------------------------
    def subst(self, v, old, new, memo=None):
        """replace index `old` by `new` in a value or term"""
        if memo is None:
            memo = {}
        if isinstance(v, tuple):
            if v == old:
                return new
            if not v:
                return v
            return tuple(self.subst(x, old, new, memo) for x in v)
        if isinstance(v, Sym):
            t = self.subst(v.term, old, new, memo)
            return v if t == v.term else Sym(t, v.ty)
        if isinstance(v, Tup):
            return Tup([self.subst(x, old, new, memo) for x in v.items])
        if isinstance(v, Star):
            nn = self._sub_n(v.n, old, new)
            return Star(nn, [(self.subst(g, old, new, memo),
                              [self.subst(x, old, new, memo) for x in b])
                             for g, b in v.variants])
        if isinstance(v, Choice):
            return Choice([(self.subst(g, old, new, memo),
                            self.subst(x, old, new, memo))
                           for g, x in v.alts])
        if isinstance(v, Bound):
            return Bound(self.subst(v.func, old, new, memo),
                         self.subst(v.self_, old, new, memo))
        if isinstance(v, BoundM):
            return BoundM(self.subst(v.recv, old, new, memo), v.name)
        if isinstance(v, DEntry):
            return DEntry(self.subst(v.key, old, new, memo),
                          self.subst(v.val, old, new, memo),
                          v.n and tuple(self._sub_n(x, old, new)
                                        for x in v.n),
                          self.subst(v.guard, old, new, memo))
        if isinstance(v, IDict):
            r = self.subst(Ref(v.oid), old, new, memo)
            return IDict(r.oid)
        if isinstance(v, Ref):
            o = self.heap.get(v.oid)
            if o is None or old[1] not in o.idx:
                return v
            key = (v.oid, old, new)
            if key in memo:
                return memo[key]
            # a stable clone per (object, renaming)
            ck = (v.oid, new)
            oid = self._clones().get(ck)
            if oid is not None and oid in self.heap:
                memo[key] = Ref(oid)
                return Ref(oid)
            oid = self.next_oid[0]
            self.next_oid[0] += 1
            memo[key] = Ref(oid)
            self._clones()[ck] = oid
            c = o.clone()
            c.gen = self.gen
            c.tag = o.tag if o.tag is not None else v.oid
            c.idx = tuple(new[1] if i == old[1] else i for i in o.idx)
            self.heap[oid] = c
            c.attrs = {k: self.subst(x, old, new, memo)
                       for k, x in o.attrs.items()}
            if isinstance(o.data, list):
                c.data = [self.subst(x, old, new, memo) for x in o.data]
            elif isinstance(o.data, (Sym, Ref, Tup)):
                c.data = self.subst(o.data, old, new, memo)
            if isinstance(o.extra, tuple):
                c.extra = self._subst_extra(o.extra, old, new, memo)
            elif isinstance(o.extra, (Sym, Ref, Tup, Bound)):
                c.extra = self.subst(o.extra, old, new, memo)
            return Ref(oid)
        return v

    def _sub_n(self, n, old, new):
        if n == old[1]:
            return new[1]
        return self.subst(n, old, new) if isinstance(n, tuple) else n

    def _subst_extra(self, e, old, new, memo):
        if isinstance(e, tuple):
            return tuple(self._subst_extra(x, old, new, memo) for x in e)
        if isinstance(e, dict):
            return {k: self._subst_extra(x, old, new, memo)
                    for k, x in e.items()}
        if isinstance(e, list):
            return [self._subst_extra(x, old, new, memo) for x in e]
        if isinstance(e, (Sym, Ref, Tup, Bound, BoundM, Choice, Star)):
            return self.subst(e, old, new, memo)
        return e

    def _clones(self):
        # clones are a function of the heap they were made in
        c = self.__dict__.get('_clone_tab')
        if c is None:
            c = self._clone_tab = {}
        return c

    def rename_star(self, star, old, new):
        memo = {}
        return Star(new, [(self.subst(g, ix(old), ix(new), memo),
                           [self.subst(x, ix(old), ix(new), memo)
                            for x in b]) for g, b in star.variants])

    def reversed_segs(self, segs):
        out = []
        for s in reversed(list(segs)):
            if isinstance(s, Star):
                new = s.n[1] if isinstance(s.n, tuple) and s.n[0] == 'rev' \
                    else ('rev', s.n)
                s = self.rename_star(s, s.n, new)
                s = Star(s.n, [(g, b[::-1]) for g, b in s.variants])
            out.append(s)
        return out

    # ------------------------------------------------------------------
    # terms, equality, truth
    def term(self, v):
        v = self.resolve(v)
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Const):
            return ('c', type(v.v).__name__, v.v)
        if isinstance(v, Tup):
            return ('tuple',) + tuple(self.term(x) if not isinstance(x, Star)
                                      else self.canon(x, {}) for x in v.items)
        if isinstance(v, Ref):
            o = self.o(v)
            if o.kind == 'strval':
                return self.term(o.data)
            if o.kind in ('list', 'set'):
                return (o.kind,) + tuple(
                    self.term(x) if not isinstance(x, Star)
                    else ('star', x.n, tuple((g, tuple(
                        self.term(y) if not isinstance(y, Star)
                        else self.canon(y, {}) for y in b))
                        for g, b in x.variants)) for x in o.data)
            if o.kind == 'dict':
                return ('dict',) + tuple(
                    (self.term(e.key), self.term(e.val), e.n, e.guard)
                    for e in o.data)
            if o.kind == 'ntuple':
                return ('nt', self.term(o.cls)) + tuple(
                    self.term(x) for x in o.data)
            return self.obj_term(v.oid, o)
        if isinstance(v, Bi):
            return ('bi', v.name)
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, Bound):
            return ('bound', self.term(v.func), self.term(v.self_))
        if isinstance(v, BoundM):
            return ('bm', self.term(v.recv), v.name)
        return ('v', repr(v))

    def tok(self, *parts, **kw):
        return Sym(('tok',) + parts, kw.get('ty', 'obj'))

    def term_eq(self, a, b):
        """three-valued equality of two terms (or slot keys)"""
        if a == b:
            return True
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
            return False
        ha, hb = a[0], b[0]
        if ha == 'c' and hb == 'c':
            try:
                return bool(a[-1] == b[-1])
            except Exception:
                return False
        if ha == 'tok' and hb == 'tok':
            return self._comp_eq(a, b)
        if ha == 'ix' and hb == 'ix':
            return self.ix_same(a[1], b[1])
        if ha == 'o' and hb == 'o':
            return self._comp_eq(a, b)
        if ha in ('o', 'bi', 'ext') and hb in ('o', 'bi', 'ext'):
            return False
        if ha in ('o', 'bi', 'ext') and hb in ('c', 'tok') \
                or hb in ('o', 'bi', 'ext') and ha in ('c', 'tok'):
            return False
        if ha in ('tuple', 'nt') and hb in ('tuple', 'nt'):
            xs, ys = (t[2:] if t[0] == 'nt' else t[1:] for t in (a, b))
            if len(xs) != len(ys):
                return False
            res = True
            for x, y in zip(xs, ys):
                r = self.term_eq(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if ha == 'dict' and hb == 'dict' and len(a) == len(b):
            res = True
            for x, y in zip(a[1:], b[1:]):
                if x == y:
                    continue
                if x[2:] != y[2:] or self.term_eq(x[0], y[0]) is not True:
                    return None
                r = self.term_eq(x[1], y[1])
                if r is False and not x[2] and not x[3]:
                    return False
                if r is not True:
                    res = None
            return res
        if ha == 'cat' and hb == 'cat':
            if len(a) == len(b) and all(
                    (x[0] == 'c') == (y[0] == 'c')
                    for x, y in zip(a[1:], b[1:])):
                lits_same = all(x == y for x, y in zip(a[1:], b[1:])
                                if x[0] == 'c')
                if lits_same:
                    res = [self.term_eq(x, y)
                           for x, y in zip(a[1:], b[1:]) if x[0] != 'c']
                    bad = [r for r in res if r is not True]
                    if not bad:
                        return True
                    if len(bad) == 1 and bad[0] is False:
                        return False
                    if all(r is not None for r in bad):
                        return False
            if lit_differ(a[1:], b[1:]):
                return False
            return None
        if {ha, hb} == {'cat', 'c'}:
            x, y = (a, b) if ha == 'cat' else (b, a)
            if not isinstance(y[-1], str) or lit_differ(x[1:], (y,)):
                return False
            return None
        if {ha, hb} <= {'cat', 'tok'}:
            return False      # atomic names are not composed strings
        if ha in ('tuple', 'list', 'dict') and hb in ('tok', 'c', 'cat') \
                or hb in ('tuple', 'list', 'dict') \
                and ha in ('tok', 'c', 'cat'):
            return False
        if ha == hb == 'lin':
            return self.models.lin_cmp(self, a, b, 'eq')
        return None

    def _comp_eq(self, a, b):
        """tokens are injective in their components"""
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            if x == y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                r = self.term_eq(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            else:
                return False
        return res

    def obj_term(self, oid, o=None):
        """identity of an object: where it was allocated, and for which
        elements of the collections being walked there"""
        o = o or self.heap[oid]
        return ('o', o.tag if o.tag is not None else oid) + tuple(
            ix(i) for i in o.idx)

    def same_obj(self, a, b):
        if a.oid == b.oid:
            return True
        x, y = self.heap[a.oid], self.heap[b.oid]
        if not x.idx or len(x.idx) != len(y.idx):
            return False
        return self._comp_eq(self.obj_term(a.oid, x), self.obj_term(b.oid, y))

    def is_same(self, a, b):
        """`is`, three valued -> bool (decides)"""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(b, Const) and not isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Const):
            if isinstance(b, Const):
                return type(a.v) is type(b.v) and a.v == b.v
            if isinstance(b, Sym):
                if a.v is None:
                    if b.ty in ('any', None):
                        return self.decide(('isnone', b.term))
                    return False
                if b.ty not in ('any', None, 'bool') \
                        and isinstance(a.v, bool):
                    return False
                if b.ty == 'bool' and isinstance(a.v, bool):
                    return self.truth(b) is a.v
                return self.decide(('is',) + self._sorted2(
                    self.term(a), b.term))
            return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.term == b.term:
                return True
            if a.term[0] == 'tok' and b.term[0] == 'tok':
                if 'any' in (a.ty, b.ty):
                    return self.decide(('is',) + self._sorted2(
                        a.term, b.term))
                return False
            return self.decide(('is',) + self._sorted2(a.term, b.term))
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if s.ty in ('any', None):
                return self.decide(('is',) + self._sorted2(
                    self.term(a), self.term(b)))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            r = self.same_obj(a, b)
            if r is None:
                x, y = self.eq_core(self.term(a), self.term(b))
                r = self.decide(('eq',) + self._sorted2(x, y))
            return r
        return a == b

    def _sorted2(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def eq(self, a, b):
        """`==` -> bool (decides unknown)"""
        r = self.eq3(a, b)
        if r is not None:
            return r
        a, b = self.resolve(a), self.resolve(b)
        t = self.as_truth(a, b)
        if t is not None:
            return self.truth(t[0]) is t[1]
        x, y = self.eq_core(self.term(a), self.term(b))
        return self.decide(('eq',) + self._sorted2(x, y))

    def as_truth(self, a, b):
        """equality with a literal that is the same as having a truth value:
        (value, truth)"""
        if isinstance(a, Const):
            a, b = b, a
        if not (isinstance(a, Sym) and isinstance(b, Const)):
            return None
        v = b.v
        if a.ty == 'bool' and isinstance(v, (bool, int, float)) and v in (
                0, 1):
            return a, bool(v)
        if a.ty in ('int', 'float') and isinstance(v, (bool, int, float)) \
                and v == 0 and a.term[0] != 'lin':
            return a, False
        if a.ty == 'str' and v == '':
            return a, False
        return None

    def eq_core(self, a, b):
        """the only components the equality of two terms depends on"""
        while isinstance(a, tuple) and isinstance(b, tuple) and a and b \
                and a[0] == b[0] and a[0] in ('tok', 'tuple', 'o') \
                and len(a) == len(b):
            diff = [(x, y) for x, y in zip(a, b)
                    if x != y and self.term_eq(x, y) is not True]
            if len(diff) != 1:
                break
            x, y = diff[0]
            if not (isinstance(x, tuple) and isinstance(y, tuple)):
                break
            a, b = x, y
        return a, b

    def ix_known(self, a, b):
        r = ix_eq(a, b)
        if r is False:
            # collections named after elements that may be the same one
            x, y = ix_chain(a)[-1], ix_chain(b)[-1]
            if x != y and isinstance(x, tuple) and isinstance(y, tuple) \
                    and len(x) == len(y) and x[0] == y[0]:
                q = self._comp_eq(x, y)
                if q is True:
                    return ix_eq(_rebase(a, x, y), b)
                if q is None:
                    return None
        return r

    def ix_same(self, a, b):
        r = self.ix_known(a, b)
        if r is None:
            r = self.facts.get(('eq',) + self._sorted2(ix(a), ix(b)))
        return r

    def ix_in(self, m, n):
        """is the index m a member of the collection of n: True|None"""
        while isinstance(n, tuple) and n[0] == "'":
            n = n[1]
        ch = ix_chain(m)
        if n in ch:
            return True
        if isinstance(n, tuple) and n[0] == 'rest' and self.ix_in(m, n[1]) \
                and self.ix_same(m, ('first', n[1])) is False:
            return True
        return None

    def eq3(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.v == b.v)
            except Exception:
                return False
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return True
        sa, sb = self.strval(a), self.strval(b)
        if sa is not None and sb is not None and (sa is not a or sb is not b):
            # str subclasses: class-sensitive __eq__ if the repo defines it
            for x, y in ((a, b), (b, a)):
                m = self.models.find_method(self, x, '__eq__')
                if m is not None:
                    r = self.call(m, [y], {})
                    if not (isinstance(r, Ext) and 'NotImpl' in r.path):
                        return self.truth(r)
            return self.eq3(sa, sb)
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref):
                    m = self.models.find_method(self, x, '__eq__')
                    if m is not None:
                        r = self.call(m, [y], {})
                        if isinstance(r, Const) and r.v is NotImplemented:
                            continue
                        return self.truth(r)
            return self.models.struct_eq(self, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.models.seq_eq(self, a.items, b.items)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.term == b.term:
                return True
            if a.term[0] == 'lin' or b.term[0] == 'lin':
                return self.models.lin_cmp(self, a.term, b.term, 'eq')
            if 'any' in (a.ty, b.ty):
                if self.term_eq(a.term, b.term) is True:
                    return True
                return self.facts.get(('eq',) + self._sorted2(a.term,
                                                              b.term))
            return self.term_eq(a.term, b.term)
        if isinstance(a, Sym) and isinstance(b, Const) \
                or isinstance(b, Sym) and isinstance(a, Const):
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            return self.sym_const_eq(s, c)
        if isinstance(a, Tup) or isinstance(b, Tup):
            x = b if isinstance(a, Tup) else a
            if isinstance(x, Sym) and x.ty in ('any', None, 'obj'):
                return self.term_eq(self.term(a), self.term(b))
            return False
        return a == b

    _PYTY = {'str': str, 'name': str, 'int': int, 'float': float,
             'bool': bool}

    def sym_const_eq(self, s, c):
        if s.term[0] == 'lin' and isinstance(c.v, (int, float)):
            return self.models.lin_cmp(self, s.term,
                                       ('lin', (), c.v, None), 'eq')
        t = self.as_truth(s, c)
        if t is not None and not (s.term[0] == 'cat' and any(
                p[0] == 'c' and p[-1] for p in s.term[1:])):
            v = self.facts.get(('truth', s.term))
            if v is None:
                v = self.implied(('truth', s.term))
            return None if v is None else v is t[1]
        if s.ty in self._PYTY:
            t = self._PYTY[s.ty]
            if not isinstance(c.v, t) and not (
                    s.ty in ('int', 'float', 'bool')
                    and isinstance(c.v, (int, float))):
                return False
            if s.term[0] == 'cat' and isinstance(c.v, str) and lit_differ(
                    s.term[1:], (('c', 'str', c.v),)):
                return False
            if s.ty == 'name' and (c.v == '' or s.term[0] == 'tok'):
                # scenario names are generic: unlike '' and every literal
                return False
            return self.facts.get(('eq',) + self._sorted2(
                s.term, self.term(c)))
        if s.ty in ('any', None):
            return self.facts.get(('eq',) + self._sorted2(
                s.term, self.term(c)))
        return False      # opaque object tokens differ from literals

    def strval(self, v):
        """the str behind a str-subclass instance, v itself if it is a str"""
        if isinstance(v, Const):
            return v if isinstance(v.v, str) else None
        if isinstance(v, Sym):
            return v if v.ty in ('str', 'name') else None
        if isinstance(v, Ref) and self.o(v).kind == 'strval':
            return self.o(v).data
        return None

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return self.segs_truth(v.items)
        if isinstance(v, Sym):
            if v.ty in ('name', 'obj', 'callable', 'seqne'):
                return True
            if v.term[0] == 'lin':
                r = self.models.lin_cmp(self, v.term, ('lin', (), 0, None),
                                        'eq')
                if r is None:
                    return self.decide(('truth', v.term))
                return not r
            if v.term[0] == 'cat' and any(
                    p[0] == 'c' and p[-1] for p in v.term[1:]):
                return True
            return self.decide(('truth', v.term))
        if isinstance(v, Ref):
            o = self.o(v)
            if o.kind in ('list', 'dict', 'set'):
                m = self.models.find_method(self, v, '__bool__') \
                    or self.models.find_method(self, v, '__len__')
                if m is None:
                    self.rd(v.oid, '*')
                    return self.segs_truth(o.data)
            if o.kind == 'strval':
                return self.truth(o.data)
            if o.kind == 'ntuple':
                return bool(o.data)
            m = self.models.find_method(self, v, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.models.find_method(self, v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, IDict):
            return bool(self.heap[v.oid].attrs)
        return True

    def segs_truth(self, segs):
        unk = []
        for s in segs:
            if isinstance(s, Star):
                if isinstance(s.n, tuple) and s.n[0] in ('rest', 'pre'):
                    unk.append(s)
                elif all(any(not isinstance(x, Star) or self._ne(x)
                             for x in b) for g, b in s.variants):
                    return True
                elif any(b for g, b in s.variants):
                    unk.append(s)
            elif isinstance(s, DEntry):
                if s.n is None:
                    if not s.guard:
                        return True
                    unk.append(s)
                elif not s.guard and not any(
                        isinstance(k, tuple) and k[0] in ('rest', 'pre')
                        for k in s.n):
                    return True
                else:
                    unk.append(s)
            else:
                return True
        if not unk:
            return False
        return self.decide(('nonempty',) + tuple(
            self.canon(s, {}) for s in unk))

    def _ne(self, star):
        return all(any(not isinstance(x, Star) or self._ne(x) for x in b)
                   for g, b in star.variants) and not (
            isinstance(star.n, tuple) and star.n[0] in ('rest', 'pre'))

    # ------------------------------------------------------------------
    # modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path) or name.endswith('_pb2'):
            return Ext(name)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.sources[name] = path
        saved = (self.stack, self.oracles, self.open, self.track, self.depth)
        self.stack, self.open, self.track = [], [], []
        self.depth = 0
        self.oracles = [_NoChoice()]
        try:
            fr = self.new('frame', extra=None)
            mod = self.new('module', extra=(name, fr.oid))
            self.modules[name] = mod
            self.setvar_raw(fr.oid, '__name__', Const(name))
            f = Frame(fr.oid, name)
            f.fname = '<module>'
            self.stack.append(f)
            self.block(tree.body, f)
        finally:
            (self.stack, self.oracles, self.open, self.track,
             self.depth) = saved
        if '.' in name:
            pname, _, last = name.rpartition('.')
            parent = self.load(pname)
            if isinstance(parent, Ref):
                self.setvar_raw(self.o(parent).extra[1], last, mod)
        return mod

    def setvar_raw(self, oid, name, val):
        o = self.heap[oid]
        if o.gen != self.gen:
            o = o.clone()
            o.gen = self.gen
            self.heap[oid] = o
        o.attrs[name] = val

    def get(self, dotted):
        """'hiku.engine:Engine.execute' -> value"""
        mod, _, path = dotted.partition(':')
        v = self.load(mod)
        for p in path.split('.') if path else ():
            v = self.getattr(v, p)
        return v

    # ------------------------------------------------------------------
    # exceptions of the analysed program
    def exc(self, name, *args):
        cls = Bi(name)
        r = self.new('inst', cls)
        self.o(r).attrs['args'] = Tup(args)
        return AbsRaise(r, self.callpath())

    def throw(self, name, msg=''):
        raise self.exc(name, Const(msg))

    def exc_is(self, val, cls):
        if isinstance(cls, Tup):
            return any(self.exc_is(val, c) for c in cls.items)
        return self.models.isinstance_(self, val, cls)

    def exc_name(self, val):
        c = self.models.type_of(self, val)
        return self.models.cls_name(self, c)

    # ------------------------------------------------------------------
    # variables
    def lookup(self, fr, name):
        oid = fr.oid
        if name in fr.globals_decl:
            oid = self._module_frame(fr)
        first = True
        while oid is not None:
            o = self.heap[oid]
            if first or not o.extra or not o.extra[1]:   # skip class scopes
                if name in o.attrs:
                    self.rd(oid, name)
                    v = o.attrs[name]
                    if v is None:
                        raise self.exc('NameError', Const(name))
                    return v
                if self.track:
                    self.rd(oid, name)
            if first and fr.locals is not None and name in fr.locals \
                    and not fr.is_class and name not in fr.globals_decl:
                raise self.exc('UnboundLocalError', Const(name))
            first = False
            oid = o.extra[0] if o.extra else None
        v = self.models.builtin(self, name)
        if v is None:
            raise self.exc('NameError', Const("name %r" % name))
        return v

    def _module_frame(self, fr):
        oid = fr.oid
        while self.heap[oid].extra:
            oid = self.heap[oid].extra[0]
        return oid

    def assign_name(self, fr, name, val):
        oid = fr.oid
        if name in fr.globals_decl:
            oid = self._module_frame(fr)
        elif name in fr.nonlocals:
            oid = self.heap[oid].extra[0]
            while name not in self.heap[oid].attrs and self.heap[oid].extra:
                oid = self.heap[oid].extra[0]
        self.wr(oid, name)
        if self.write_hook is not None and not self.heap[oid].extra:
            self.write_hook(self, oid, self.heap[oid], name)
        self.setvar_raw(oid, name, val)

    # ------------------------------------------------------------------
    # statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        fr.line = s.lineno
        self.steps += 1
        if self.steps > self.step_limit:
            raise Imprecise('step limit')
        getattr(self, 'st_' + type(s).__name__, self._st_unknown)(s, fr)

    def _st_unknown(self, s, fr):
        raise Imprecise('statement %s' % type(s).__name__)

    def st_Expr(self, s, fr):
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Global(self, s, fr):
        pass
    st_Nonlocal = st_Global

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if fr.is_class and isinstance(s.target, ast.Name):
            a = self.heap[fr.oid].attrs
            a['$ann'] = a.get('$ann', ()) + (s.target.id,)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.assign_name(fr, t.id, self.augop(
                type(s.op).__name__, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.getattr(obj, name)
            self.setattr(obj, name, self.augop(
                type(s.op).__name__, cur, self.ev(s.value, fr)))
        else:
            obj = self.ev(t.value, fr)
            key = self.ev(t.slice, fr)
            cur = self.models.getitem(self, obj, key)
            self.models.setitem(self, obj, key, self.augop(
                type(s.op).__name__, cur, self.ev(s.value, fr)))

    def augop(self, op, a, b):
        if isinstance(a, Ref):
            o = self.o(a)
            if o.kind == 'list' and op == 'Add':
                self.models.list_extend(self, a, b)
                return a
            if o.kind == 'set' and op in ('BitOr', 'Sub', 'BitAnd'):
                m = {'BitOr': 'update', 'Sub': 'difference_update',
                     'BitAnd': 'intersection_update'}[op]
                self.models.call_method(self, a, m, [b], {})
                return a
            if o.kind == 'dict' and op == 'BitOr':
                self.models.call_method(self, a, 'update', [b], {})
                return a
        return self.models.binop(self, op, a, b)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.heap[fr.oid]
                self.wr(fr.oid, t.id)
                if o.gen != self.gen:
                    o = o.clone()
                    o.gen = self.gen
                    self.heap[fr.oid] = o
                o.attrs.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and isinstance(
                    t.slice, ast.Slice):
                self.models.setslice(self, self.ev(t.value, fr),
                                     *self.slice_(t.slice, fr), Tup([]))
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr),
                                    self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, fr)
                self.models.delattr_(self, obj, self.mangle(t.attr, fr))
            else:
                raise Imprecise('del')

    def slice_(self, e, fr):
        return [self.ev(x, fr) if x else NONE
                for x in (e.lower, e.upper, e.step)]

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                self.models.setslice(self, obj, *self.slice_(t.slice, fr), v)
                return
            self.models.setitem(self, obj, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Imprecise('assign target')

    def unpack(self, elts, v, fr):
        star = next((i for i, e in enumerate(elts)
                     if isinstance(e, ast.Starred)), None)
        vals = self.models.exact_items(self, v, want=len(elts)
                                       if star is None else None,
                                       atleast=len(elts) - 1)
        if star is None:
            if len(vals) != len(elts):
                raise self.exc('ValueError', Const(
                    'unpack %d values into %d' % (len(vals), len(elts))))
            for e, x in zip(elts, vals):
                self.assign(e, x, fr)
        else:
            after = len(elts) - star - 1
            if len(vals) < len(elts) - 1:
                raise self.exc('ValueError', Const('unpack'))
            for e, x in zip(elts[:star], vals[:star]):
                self.assign(e, x, fr)
            mid = vals[star:len(vals) - after]
            self.assign(elts[star].value, self.new_list(mid), fr)
            for e, x in zip(elts[star + 1:], vals[len(vals) - after:]):
                self.assign(e, x, fr)

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_While(self, s, fr):
        k = 0
        loop = {'oid': self.next_oid[0], 'failed': set(), 'on': True, 'k': 0}
        n_whiles = len(self.whiles)
        try:
            if self.index_loop(s, fr):
                return
            while True:
                k += 1
                if k > self.while_limit:
                    raise Imprecise('while loop bound')
                # the first iterations tell which collection drives the loop
                loop['on'] = k - loop['k'] < 16
                if loop['on']:
                    snap = self.snapshot()
                    lens = (len(self.stack), len(self.open),
                            len(self.track), len(self.oracles), self.depth,
                            fr.exc)
                    self.whiles.append(loop)
                try:
                    if not self.truth(self.ev(s.test, fr)):
                        del self.whiles[n_whiles:]
                        break
                    try:
                        self.block(s.body, fr)
                    except Cont:
                        pass
                except WhileIter as w:
                    if w.loop is not loop:
                        raise
                    del self.whiles[n_whiles:]
                    self.restore(snap)
                    del self.stack[lens[0]:]
                    del self.open[lens[1]:]
                    del self.track[lens[2]:]
                    del self.oracles[lens[3]:]
                    self.depth, fr.exc = lens[4:]
                    k -= 1
                    loop['k'] = k
                    snap2 = self.snapshot()
                    try:
                        self.drive(s, fr, w.oid)
                    except Imprecise:
                        self.restore(snap2)
                        loop['failed'].add(w.oid)
                finally:
                    del self.whiles[n_whiles:]
            self.block(s.orelse, fr)
        except Brk:
            pass

    def driven(self, oid):
        """an element is taken from this collection of unknown length"""
        for loop in reversed(self.whiles):
            if loop['on'] and oid < loop['oid'] and \
                    oid not in loop['failed']:
                raise WhileIter(loop, oid)

    def raw(self, oid, data):
        o = self.heap[oid]
        if o.gen != self.gen:
            o = o.clone()
            o.gen = self.gen
            self.heap[oid] = o
        return o

    def drive(self, s, fr, oid):
        """iterations of a `while` loop, each of which takes one element"""
        o = self.heap[oid]
        gen = o.kind == 'gen'

        def body(x):
            r = self.raw(oid, None)
            if gen:
                r.attrs['$queued'] = x
                rest = None
            else:
                rest = list(r.data)
                r.data = [x] + rest
            if not self.truth(self.ev(s.test, fr)):
                raise Imprecise('while loop left before its collection')
            try:
                self.block(s.body, fr)
            except Cont:
                pass
            r = self.heap[oid]
            if ('$queued' in r.attrs) if gen else list(r.data) != rest:
                raise Imprecise('while loop takes no element')
        if gen:
            self.iterate(Ref(oid), body)
            return
        star = o.data[0]
        self.raw(oid, None).data = list(o.data)[1:]
        self.seg(star, body)

    def index_loop(self, s, fr):
        """`while i < len(xs): x = xs[i]; ...; i += 1` as a loop over the
        positions"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return False
        i = t.left.id
        steps = [j for j, b in enumerate(s.body) if is_step(b, i)]
        stores = [n for b in s.body for n in ast.walk(b)
                  if isinstance(n, ast.Name) and n.id == i
                  and not isinstance(n.ctx, ast.Load)]
        if len(steps) != 1 or len(stores) != 1:
            return False
        j = steps[0]
        later = s.body[j + 1:]
        if any(isinstance(n, ast.Name) and n.id == i
               for b in later for n in ast.walk(b)):
            return False
        if any(own_continue(b) for b in s.body[:j]):
            return False
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Nonlocal))
               for b in s.body for n in ast.walk(b)):
            return False
        if self.ev(t.left, fr) != Const(0):
            return False
        r = t.comparators[0]
        n = self.ev(r, fr)
        if not isinstance(n, Sym):
            return False
        if not isinstance(r, ast.Name) and not (
                isinstance(r, ast.Call) and isinstance(r.func, ast.Name)
                and r.func.id == 'len' and len(r.args) == 1
                and isinstance(r.args[0], (ast.Name, ast.Attribute))):
            return False
        try:
            segs = self.models.range_segs(self, n)
        except Imprecise:
            return False
        body = s.body[:j] + later

        def step(x):
            self.assign_name(fr, i, x)
            try:
                self.block(body, fr)
            except Cont:
                pass
        for x in segs:
            self.seg(x, step)
        if self.ev(r, fr) != n:
            raise Imprecise('while loop over a changing sequence')
        self.assign_name(fr, i, n)
        self.block(s.orelse, fr)
        return True

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(x):
            fr.line = s.lineno
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Cont:
                pass
        try:
            self.iterate(it, body)
        except Brk:
            return
        self.block(s.orelse, fr)

    def st_AsyncFor(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Cont:
                pass
        try:
            self.iterate(it, body)
        except Brk:
            return
        self.block(s.orelse, fr)

    def st_Break(self, s, fr):
        raise Brk()

    def st_Continue(self, s, fr):
        raise Cont()

    def st_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else NONE)

    def st_Raise(self, s, fr):
        if s.exc is None:
            e = fr.exc
            if e is None:
                for f in reversed(self.stack):
                    if f.exc is not None:
                        e = f.exc
                        break
            if e is None:
                raise self.exc('RuntimeError', Const('no active exception'))
            raise AbsRaise(e, self.callpath())
        v = self.ev(s.exc, fr)
        if self.models.is_class(self, v):
            v = self.call(v, [], {})
        cause = None
        if s.cause is not None:
            cause = self.ev(s.cause, fr)
            if isinstance(v, Ref):
                self.w(v.oid).attrs['__cause__'] = cause
        raise AbsRaise(v, self.callpath())

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            msg = self.ev(s.msg, fr) if s.msg is not None else None
            raise self.exc('AssertionError', *([msg] if msg else []))

    def st_Try(self, s, fr):
        saved = fr.exc
        try:
            try:
                self.block(s.body, fr)
            except AbsRaise as e:
                depth = self.depth
                for h in s.handlers:
                    if h.type is not None:
                        cls = self.ev(h.type, fr)
                        if not self.exc_is(e.val, cls):
                            continue
                    else:
                        pass
                    if h.name:
                        self.assign_name(fr, h.name, e.val)
                    fr.exc = e.val
                    try:
                        self.block(h.body, fr)
                    finally:
                        fr.exc = saved
                    break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (AbsRaise, Ret, Brk, Cont, Through, Stop):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        except (Hoist, Infeasible, Imprecise):
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        self._with(list(s.items), s.body, fr)
    st_AsyncWith = st_With

    def _with(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)

        def run(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self._with(items[1:], body, fr)
        self.models.with_(self, cm, run)

    def st_Import(self, s, fr):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.assign_name(fr, a.asname, m)
            else:
                self.assign_name(fr, a.name.split('.')[0],
                                 self.import_(a.name.split('.')[0]))

    def import_(self, name):
        if name.split('.')[0] == 'hiku':
            return self.load(name)
        return self.models.ext(self, name)

    def st_ImportFrom(self, s, fr):
        mod = s.module or ''
        if s.level:
            parts = fr.module.split('.')
            path = self.sources[fr.module]
            if not path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                raise Imprecise('import *')
            if mod.split('.')[0] == 'hiku':
                m = self.load(mod)
                v = None
                if isinstance(m, Ref):
                    v = self.heap[self.o(m).extra[1]].attrs.get(a.name)
                if v is None:
                    v = self.load(mod + '.' + a.name)
                    if isinstance(v, Ext) and isinstance(m, Ref) and \
                            not v.path.endswith('_pb2'):
                        raise self.exc('ImportError', Const(
                            '%s.%s' % (mod, a.name)))
            else:
                v = self.models.ext(self, mod + '.' + a.name)
            self.assign_name(fr, a.asname or a.name, v)

    def st_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.assign_name(fr, s.name, f)
    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr)
               for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        f = self.new('func', Bi('function'), extra={
            'node': node, 'frame': fr.oid, 'defaults': defaults, 'kwd': kwd,
            'module': fr.module, 'name': name, 'cls': None,
            'defcls': fr.cls_cell if fr.is_class else
            (fr.func['defcls'] if fr.func else None),
            'mangle': (fr.fname if fr.is_class else
                       (fr.func or {}).get('mangle')),
            'qual': (fr.fname + '.' + name) if fr.fname != '<module>'
            else name})
        return f

    def st_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b, fr))
        meta = None
        kws = {}
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, fr)
            else:
                kws[k.arg] = self.ev(k.value, fr)
        cf = self.new('frame', extra=(fr.oid, True))
        cell = [None]
        f2 = Frame(cf.oid, fr.module, None)
        f2.is_class = True
        f2.fname = s.name
        f2.cls_cell = cell
        f2.line = s.lineno
        f2.locals = None
        self.stack.append(f2)
        try:
            self.setvar_raw(cf.oid, '__module__', Const(fr.module))
            self.setvar_raw(cf.oid, '__qualname__', Const(s.name))
            doc = ast.get_docstring(s)
            self.block(s.body, f2)
        finally:
            self.stack.pop()
        ns = dict(self.heap[cf.oid].attrs)
        ann = ns.pop('$ann', ())
        if any(isinstance(b, Ext) and b.path == 'typing.NamedTuple'
               for b in bases):
            bases = [Bi('tuple')]
            ns['$ntfields'] = Const(ann)
            ns['$ntdefaults'] = Tup([Tup([Const(f), ns.pop(f)])
                                     for f in ann if f in ns])
            ns['_fields'] = Tup([Const(f) for f in ann])
        cls = self.models.make_class(self, s.name, bases, ns, meta,
                                     fr.module)
        cell[0] = cls
        if isinstance(cls, Ref):
            # zero-argument super() resolves through the class cell
            self.o(cls).extra['cell'] = cell
            self.o(cls).extra['ann'] = ann
            self.models.init_subclass(self, cls, kws)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, fr), [cls], {})
        self.assign_name(fr, s.name, cls)

    def st_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (
                    c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_same(v, Const(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.assign_name(fr, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr)
            if not self.models.isinstance_(self, v, cls):
                return False
            if p.patterns:
                if isinstance(cls, Bi) and len(p.patterns) == 1:
                    return self.match(p.patterns[0], v, fr)
                raise Imprecise('positional class pattern')
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, k), fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not (isinstance(v, Tup) or isinstance(v, Ref)
                    and self.o(v).kind == 'list'):
                return False
            items = self.models.exact_items(self, v)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Imprecise('star pattern')
            return len(items) == len(p.patterns) and all(
                self.match(q, x, fr) for q, x in zip(p.patterns, items))
        raise Imprecise('pattern')

    # ------------------------------------------------------------------
    # expressions
    def ev(self, e, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Imprecise('expression %s' % type(e).__name__)
        ln = getattr(e, 'lineno', None)
        if ln:
            fr.line = ln
        self.steps += 1
        return self.resolve(m(e, fr))

    def ex_Constant(self, e, fr):
        return Const(e.value)

    def ex_Name(self, e, fr):
        return self.lookup(fr, self.mangle(e.id, fr))

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        # a walrus in a comprehension binds in the enclosing function
        oid = fr.oid
        o = self.heap[oid]
        while o.extra and len(o.extra) > 2 and o.extra[2] == 'comp':
            oid = o.extra[0]
            o = self.heap[oid]
        self.wr(oid, e.target.id)
        self.setvar_raw(oid, e.target.id, v)
        return v

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            cls = fr.fname if fr.is_class else \
                (fr.func or {}).get('mangle')
            if cls:
                cls = cls.lstrip('_')
                if cls:
                    return '_%s%s' % (cls, name)
        return name

    def ex_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        fr.line = e.end_lineno or e.lineno
        return self.getattr(v, self.mangle(e.attr, fr))

    def ex_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else NONE
            st = self.ev(e.slice.step, fr) if e.slice.step else NONE
            return self.models.getslice(self, v, lo, hi, st)
        return self.models.getitem(self, v, self.ev(e.slice, fr))

    def ex_Tuple(self, e, fr):
        return Tup(self.elems(e.elts, fr))

    def ex_List(self, e, fr):
        return self.new_list(self.elems(e.elts, fr))

    def ex_Set(self, e, fr):
        s = self.new_set()
        for x in self.elems(e.elts, fr):
            if isinstance(x, Star):
                self.seg(x, lambda y: self.models.set_add(self, s, y))
            else:
                self.models.set_add(self, s, x)
        return s

    def elems(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                out.extend(self.models.segs_of(self, v))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.call_method(self, d, 'update',
                                        [self.ev(v, fr)], {})
            else:
                kv = self.ev(k, fr)
                self.models.setitem(self, d, kv, self.ev(v, fr))
        return d

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Const(not self.truth(v))
        return self.models.unop(self, type(e.op).__name__, v)

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.models.binop(self, type(e.op).__name__, a, b)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return res
            left = right
        return TRUE

    def compare(self, op, a, b):
        if op == 'Is':
            return Const(self.is_same(a, b))
        if op == 'IsNot':
            return Const(not self.is_same(a, b))
        if op == 'Eq':
            if self.rich_eq and isinstance(a, Ref) \
                    and self.o(a).kind == 'inst':
                m = self.models.find_method(self, a, '__eq__')
                if m is not None:
                    return self.call(m, [b], {})
            return Const(self.eq(a, b))
        if op == 'NotEq':
            m = isinstance(a, Ref) and self.models.find_method(
                self, a, '__ne__')
            if m:
                return self.call(m, [b], {})
            return Const(not self.eq(a, b))
        if op == 'In':
            return Const(self.models.contains(self, b, a))
        if op == 'NotIn':
            return Const(not self.models.contains(self, b, a))
        return self.models.order(self, op, a, b)

    def ex_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr))
                       else e.orelse, fr)

    def ex_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def ex_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                v = self.ev(x.value, fr)
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, fr)
                    if not (isinstance(spec, Const) and spec.v == ''):
                        parts.append(Sym(('fmt', self.term(v),
                                          self.term(spec)), 'str'))
                        continue
                if x.conversion == ord('r'):
                    v = self.models.repr_(self, v)
                parts.append(self.models.str_(self, v))
        return self.models.cat(self, parts)

    def ex_FormattedValue(self, e, fr):
        return self.models.str_(self, self.ev(e.value, fr))

    def ex_Starred(self, e, fr):
        raise Imprecise('starred')

    def ex_Await(self, e, fr):
        v = self.ev(e.value, fr)
        fr.line = e.lineno
        return self.models.await_(self, v)

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        f = fr
        if f.on_yield is None:
            raise Imprecise('yield outside of a running generator')
        r = f.on_yield(v)
        return r if r is not None else NONE

    def ex_YieldFrom(self, e, fr):
        v = self.resolve(self.ev(e.value, fr))
        o = self.o(v) if isinstance(v, Ref) else None
        if o is not None and o.kind == 'gen' and o.extra is not None:
            sent = NONE
            while True:
                k, x = o.extra.step(sent)
                if k == 'return':
                    return x
                sent = fr.on_yield(x)
                sent = NONE if sent is None else sent
        box = []
        if o is not None and o.kind == 'gen' and not o.attrs.get('$done') \
                and '$queued' not in o.attrs:
            start = o.data
            self.w(v.oid).attrs['$done'] = TRUE
            self.models.run_gen(
                self, lambda cb: box.append(start(cb)),
                lambda x: fr.on_yield(x) and None)
            return box[0] if box and box[0] is not None else NONE
        self.iterate(v, lambda x: fr.on_yield(x) and None)
        return NONE

    # comprehensions
    def comp(self, e, fr, emit):
        cf = self.new('frame', extra=(fr.oid, False, 'comp'))
        f2 = Frame(cf.oid, fr.module, None)
        f2.fname = fr.fname
        f2.func = fr.func
        f2.on_yield = fr.on_yield
        f2.line = e.lineno
        f2.cls_cell = fr.cls_cell
        f2.self_ = fr.self_
        gens = e.generators
        first = self.ev(gens[0].iter, fr)

        def go(i):
            if i == len(gens):
                emit(f2)
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter, f2)

            def body(x):
                self.assign(g.target, x, f2)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f2)):
                        return
                go(i + 1)
            self.iterate(it, body)

        def run():
            self.stack.append(f2)
            try:
                go(0)
            finally:
                if self.stack and self.stack[-1] is f2:
                    self.stack.pop()
        return run

    def ex_ListComp(self, e, fr):
        acc = self.new_list()
        self.comp(e, fr, lambda f2: self.models.list_append(
            self, acc, self.ev(e.elt, f2)))()
        return acc

    def ex_SetComp(self, e, fr):
        acc = self.new_set()
        self.comp(e, fr, lambda f2: self.models.set_add(
            self, acc, self.ev(e.elt, f2)))()
        return acc

    def ex_DictComp(self, e, fr):
        acc = self.new_dict()

        def emit(f2):
            k = self.ev(e.key, f2)
            self.models.setitem(self, acc, k, self.ev(e.value, f2))
        self.comp(e, fr, emit)()
        return acc

    def ex_GeneratorExp(self, e, fr):
        box = []

        def emit(f2):
            box[-1](self.ev(e.elt, f2))
        run = self.comp(e, fr, emit)

        def start(on_yield):
            box.append(on_yield)
            try:
                run()
            finally:
                box.pop()
        return self.new('gen', Bi('generator'), data=start)

    # calls
    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' \
                and not e.args:
            return self.models.super0(self, fr)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.models.segs_of(self, self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        if isinstance(f, Bi) and f.name in ('dict', 'OrderedDict') and any(
                k.arg is None for k in e.keywords):
            # dict(x, **y): y may have any keys
            fr.line = e.lineno
            d = self.call(f, args, {})
            for k in e.keywords:
                v = self.ev(k.value, fr)
                if k.arg is None:
                    self.models.dict_update(self, d, v)
                else:
                    self.models.dict_set(self, d, Const(k.arg), v)
            return d
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                for kk, vv in self.models.kw_items(self, v):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        fr.line = e.lineno
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        self.depth += 1
        if self.depth > MAX_DEPTH:
            self.depth -= 1
            raise self.exc('RecursionError', Const('recursion'))
        try:
            return self.resolve(self.models.call(self, f, args, kwargs))
        finally:
            self.depth -= 1

    def call_func(self, ref, args, kwargs):
        ex = self.o(ref).extra
        node = ex['node']
        if ex.get('cm'):
            return self.new('cm', Bi('contextmanager'), data=(
                Ref(ex['cm']), tuple(args), dict(kwargs)))
        loc, glob, nonl, is_gen = scope_info(node)
        if isinstance(node, ast.AsyncFunctionDef):
            return self.new('coro', Bi('coroutine'), data=(
                ref, tuple(args), dict(kwargs)))
        if is_gen:
            # arguments are bound (and checked) at call time
            fr = self.bind(ref, ex, node, args, kwargs)

            def start(on_yield):
                return self.run_body(node, fr, on_yield)
            if driven(node):
                from .cogen import CoGen
                return self.new('gen', Bi('generator'), data=None,
                                extra=CoGen(self, start))
            return self.new('gen', Bi('generator'), data=start)
        fr = self.bind(ref, ex, node, args, kwargs)
        return self.run_body(node, fr, None)

    def run_coro(self, ref, args, kwargs):
        ex = self.o(ref).extra
        fr = self.bind(ref, ex, ex['node'], list(args), dict(kwargs))
        return self.run_body(ex['node'], fr, None)

    def run_body(self, node, fr, on_yield):
        fr.on_yield = on_yield
        self.stack.append(fr)
        n = len(self.stack)
        key = (fr.module, fr.fname)
        self.funcs_seen[key] = self.funcs_seen.get(key, 0) + 1
        if self.deadline and time.time() > self.deadline:
            raise Imprecise('time limit')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.val
            return NONE
        finally:
            del self.stack[n - 1:]

    def bind(self, ref, ex, node, args, kwargs):
        a = node.args
        loc, glob, nonl, is_gen = scope_info(node)
        fo = self.new('frame', extra=(ex['frame'], False))
        if self.heap[ex['frame']].extra and self.heap[ex['frame']].extra[1]:
            # functions do not see the class scope they are defined in
            self.o(fo).extra = (self.heap[ex['frame']].extra[0], False)
        fr = Frame(fo.oid, ex['module'], loc)
        fr.globals_decl = glob
        fr.nonlocals = nonl
        fr.func = ex
        fr.fname = ex['qual']
        fr.cls_cell = ex['defcls']
        fr.line = node.lineno
        vars_ = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        posonly = set(p.arg for p in a.posonlyargs)
        args = list(args)
        kwargs = dict(kwargs)
        name = ex['name']
        if any(isinstance(x, Star) for x in args[:len(params)]):
            i = next(i for i, x in enumerate(args) if isinstance(x, Star))
            if i < len(params):
                raise Imprecise('star arguments of unknown length')
        for p, v in zip(params, args):
            vars_[p] = v
        extra = args[len(params):]
        if a.vararg:
            vars_[a.vararg.arg] = Tup(extra)
        elif extra:
            raise self.exc('TypeError', Const(
                '%s() takes %d positional arguments but %d were given'
                % (name, len(params), len(args))))
        kwo = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in params and k not in posonly or k in kwo:
                if k in vars_:
                    raise self.exc('TypeError', Const(
                        '%s() got multiple values for %r' % (name, k)))
                vars_[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new_dict(
                [(Const(k), v) for k, v in rest.items()])
        elif rest:
            raise self.exc('TypeError', Const(
                '%s() got an unexpected keyword argument %r'
                % (name, sorted(rest)[0])))
        nd = len(ex['defaults'])
        for p, d in zip(params[len(params) - nd:], ex['defaults']):
            if p not in vars_:
                vars_[p] = d
        for k, d in ex['kwd'].items():
            if k not in vars_:
                vars_[k] = d
        missing = [p for p in params + kwo if p not in vars_]
        if missing:
            raise self.exc('TypeError', Const(
                '%s() missing required arguments: %s'
                % (name, ', '.join(missing))))
        if params and params[0] in vars_:
            fr.self_ = vars_[params[0]]
        o = self.heap[fo.oid]
        o.attrs.update(vars_)
        return fr

    # attributes
    def getattr(self, v, name):
        return self.resolve(self.models.getattr_(self, self.resolve(v),
                                                 name))

    def setattr(self, v, name, val):
        self.models.setattr_(self, self.resolve(v), name, val)


class _Fresh:
    """membership: allocated after the loop was entered"""

    def __init__(self, base):
        self.base = base

    def __contains__(self, oid):
        return oid not in self.base


class _NoChoice:
    def next(self, k):
        raise Imprecise('unknown predicate while loading modules')
