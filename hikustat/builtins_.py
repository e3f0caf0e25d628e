"""Models of builtin functions and of the methods of builtin types."""
import json
from .values import *   # noqa
from . import models as M, shims


def until(I, it, fn):
    """iterate; fn returns True to stop"""
    def body(x):
        if fn(x):
            raise Stop()
    try:
        I.iterate(it, body)
    except Stop:
        return True
    return False


def mkfn(I, fn):
    """callable object implemented by the analyser: fn(I, args)"""
    return I.new('getter', M.Bi('function'), data=fn)


# ---------------------------------------------------------------------------
# positions, zip

def positions(lay, start=0):
    """position values for a layout of 1 | star index entries"""
    out = []
    stars = False
    k = 0
    for i, x in enumerate(lay):
        if x == 1:
            if not stars:
                out.append((None, Const(start + k)))
                k += 1
            else:
                out.append((None, Sym(('pos', tuple(lay[:i]), 1), 'int')))
        else:
            stars = True
            out.append((x, Sym(('pos', tuple(lay[:i]), x, ix(x)), 'int')))
    return out


def layout(segs):
    lay = []
    for s in segs:
        if isinstance(s, Star):
            if not s.uniform:
                return None
            lay.append(s.n)
        else:
            lay.append(1)
    return lay


def elem_of(s):
    """the single element of a uniform star, as one value"""
    if len(s.variants) == 1:
        return s.variants[0][1][0]
    return Choice([(g, b[0]) for g, b in s.variants])


def number(I, s, start, ctx):
    """position and element, the position depends on how many elements the
    iterations of several loops give"""
    if isinstance(s, Star):
        return Star(s.n, [(g, [number(I, x, start, ctx + (s.n, v, i,
                                                          ix(s.n)))
                               for i, x in enumerate(b)])
                          for v, (g, b) in enumerate(s.variants)])
    return Tup([Sym(('pos?', start if start != Const(0) else None) + ctx,
                    'int'), s])


def do_enumerate(I, it, start):
    segs = M.segs_of(I, it)
    lay = layout(segs)
    if lay is None:
        return [number(I, s, start, (i,)) for i, s in enumerate(segs)]
    out = []
    k = start.v if isinstance(start, Const) else None
    for s, (n, p) in zip(segs, positions(lay)):
        if k is None or (k and not isinstance(p, Const)):
            p = M.binop(I, 'Add', p, start)
        elif k:
            p = Const(p.v + k)
        if n is None:
            out.append(Tup([p, s]))
        else:
            out.append(Star(n, [((), [Tup([p, elem_of(s)])])]))
    return out


def do_range(I, args):
    if all(isinstance(a, Const) for a in args):
        return [Const(i) for i in range(*[a.v for a in args])]
    if len(args) == 2 and args[0] == Const(0):
        args = args[1:]
    if len(args) == 1 and isinstance(args[0], Sym):
        t = args[0].term
        if t[0] == 'lin' and M.flat_lay(t[3]):
            out = []
            for n, p in positions(list(t[3])):
                out.append(p if n is None else Star(n, [((), [p])]))
            return out
        n = ('range', t)
        return [Star(('maybe', n), [((), [Sym(
            ('rpos', t, ix(('maybe', n))), 'int')])])]
    raise Imprecise('range')


INF = object()


def zip_source(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref) and I.o(v).kind == 'iter' and \
            I.o(v).extra is not None:
        return INF, I.o(v)
    return M.segs_of(I, v), None


def zip_blocks(I, heads, cur, inf_val):
    """pair up stars that run over the same collection and hold blocks of
    the same shape; None if they do not"""
    st = [h for h, c in zip(heads, cur) if c is not INF]
    if len({unprime(h.n) for h in st}) != 1:
        return None
    n = max((h.n for h in st), key=lambda x: len(repr(x)))
    heads = [h if c is INF or h.n == n else I.rename_star(h, h.n, n)
             for h, c in zip(heads, cur)]
    st = [h for h, c in zip(heads, cur) if c is not INF]
    if len({tuple((g, M.shape(b)) for g, b in h.variants)
            for h in st}) != 1:
        return None

    def block(bs):
        out = []
        for k in range(len([b for b in bs if b is not None][0])):
            row = [b[k] if b is not None else None for b in bs]
            if any(isinstance(x, Star) for x in row):
                s = zip_blocks(I, row, [INF if b is None else 0
                                        for b in bs], inf_val)
                if s is None:
                    raise Imprecise('zip of unaligned sequences')
                out.append(s)
            else:
                out.append(Tup([x if b is not None else inf_val(i, n)
                                for i, (x, b) in enumerate(zip(row, bs))]))
        return out
    return Star(n, [
        (g, block([h.variants[vi][1] if c is not INF else None
                   for h, c in zip(heads, cur)]))
        for vi, (g, b) in enumerate(st[0].variants)])


DONE = Const('$done')


def do_zip(I, its, strict=False):
    same = [v.oid for v in map(I.resolve, its) if isinstance(v, Ref)
            and I.o(v).kind in ('iter', 'gen')]
    if len(set(same)) < len(same):
        # one iterator in several places: it is advanced by each of them
        rows = []
        its = [do_iter(I, v) for v in its]
        while True:
            row = []
            for v in its:
                if any(isinstance(s, Star) for s in (
                        I.o(v).data if I.o(v).kind == 'iter' else [])):
                    raise Imprecise('zip of one iterator')
                x = do_next(I, [v, DONE])
                if x is DONE:
                    return rows
                row.append(x)
            rows.append(Tup(row))
    srcs = [zip_source(I, v) for v in its]
    fin = [list(s) for s, o in srcs if s is not INF]
    if not fin:
        raise Imprecise('zip of infinite iterators')
    inf_pos = {}
    out = []

    def inf_val(i, n):
        o = srcs[i][1]
        if o.extra == 'repeat':
            return o.data[0]
        raise Imprecise('zip with a counter')

    cur = [list(s) if s is not INF else INF for s, o in srcs]
    while True:
        heads = [c[0] if c is not INF and c else None for c in cur]
        done = [c is not INF and not c for c in cur]
        if any(done):
            if strict and not all(
                    d for d, c in zip(done, cur) if c is not INF):
                raise I.exc('ValueError', Const('zip() arguments differ'))
            return out
        hs = [h for h, c in zip(heads, cur) if c is not INF]
        if peel_heads(I, cur):
            continue
        if not any(isinstance(h, Star) for h in hs):
            out.append(Tup([h if c is not INF else inf_val(i, None)
                            for i, (h, c) in enumerate(zip(heads, cur))]))
        elif all(isinstance(h, Star) for h in hs) and \
                len({h.n for h in hs}) == 1 and all(h.uniform for h in hs):
            n = hs[0].n
            out.append(Star(n, [((), [Tup([
                elem_of(h) if c is not INF else inf_val(i, n)
                for i, (h, c) in enumerate(zip(heads, cur))])])]))
        elif all(isinstance(h, Star) for h in hs) and \
                zip_blocks(I, heads, cur, inf_val) is not None:
            # same shape per iteration
            out.append(zip_blocks(I, heads, cur, inf_val))
        else:
            # the sequences are not aligned: from here on, elements pair
            # up by accident
            if I.__dict__.get('zip_mismatch'):
                I.zip_mismatch(I, its)
            key = ('mis',) + tuple(I.canon(tuple(c), {}) for c in cur
                                   if c is not INF)
            n = ('mis', hash(key) & 0xffffff)
            row = []
            for i, c in enumerate(cur):
                if c is INF:
                    row.append(inf_val(i, n))
                    continue
                h = c[0]
                if isinstance(h, Star):
                    if not h.uniform:
                        raise Imprecise('zip of unaligned sequences')
                    h = I.subst(elem_of(h), ix(h.n), ix(('z', i, n)))
                row.append(h)
            out.append(Star(n, [((), [Tup(row)])]))
            return out
        for c in cur:
            if c is not INF:
                del c[0]


def peel_heads(I, cur):
    """another sequence holds the first element of this collection apart
    from the rest"""
    fin = [c for c in cur if c is not INF]
    ns = {c[1].n[1] for c in fin if len(c) > 1 and isinstance(c[1], Star)
          and not isinstance(c[0], Star) and isinstance(c[1].n, tuple)
          and c[1].n[0] == 'rest'}
    done = False
    for c in fin:
        h = c[0]
        if isinstance(h, Star) and h.n in ns and h.uniform and not (
                h.variants[1:]):
            c[:1] = [I.subst(elem_of(h), ix(h.n), ix(('first', h.n))),
                     I.rename_star(h, h.n, ('rest', h.n))]
            done = True
    return done


def mk_iter(I, segs):
    return I.new('iter', Bi('iterator'), data=list(segs))


def do_next(I, args):
    it = I.resolve(args[0])
    if isinstance(it, Ref):
        o = I.o(it)
        m = M.find_method(I, it, '__next__')
        if m is not None:
            return I.call(m, [], {})
        if o.kind == 'iter':
            if o.extra == 'repeat':
                return o.data[0]
            if o.extra == 'count':
                v = o.data[0]
                I.wr(it.oid, '*')
                I.w(it.oid).data = [M.binop(I, 'Add', v, Const(1))]
                I.rd(it.oid, '*')
                return v
            I.rd(it.oid, '*')
            d = list(o.data)
            if not d:
                if len(args) > 1:
                    return args[1]
                raise I.exc('StopIteration')
            h = d[0]
            if isinstance(h, Star):
                I.driven(it.oid)
                if not I.segs_truth([h]):
                    I.w(it.oid).data = d[1:]
                    return do_next(I, args)
                if not h.uniform:
                    raise Imprecise('next() of a filtered sequence')
                v = I.subst(elem_of(h), ix(h.n), ix(('first', h.n)))
                rest = I.rename_star(h, h.n, ('rest', h.n))
                I.wr(it.oid, '*')
                I.w(it.oid).data = [rest] + d[1:]
                return I.resolve(v)
            I.wr(it.oid, '*')
            I.w(it.oid).data = d[1:]
            return I.resolve(h)
        if o.kind == 'gen' and o.extra is not None:
            k, v = o.extra.step(NONE)
            if k == 'yield':
                return v
            if len(args) > 1:
                return args[1]
            raise I.exc('StopIteration', *([v] if v != NONE else []))
        if o.kind == 'gen':
            # first element only; what follows is not run
            box = []

            def take(x):
                box.append(x)
                return True
            if '$queued' in o.attrs:
                return I.raw(it.oid, None).attrs.pop('$queued')
            if o.attrs.get('$done'):
                pass
            elif o.attrs.get('$rest'):
                pass
            else:
                I.driven(it.oid)
            if o.attrs.get('$rest'):
                return do_next(I, [o.attrs['$rest']] + list(args[1:]))
            if o.attrs.get('$next'):
                # several next() calls: the rest is forced
                raise Imprecise('repeated next() on a generator')
            if o.attrs.get('$done'):
                if len(args) > 1:
                    return args[1]
                raise I.exc('StopIteration')
            I.w(it.oid).attrs['$next'] = TRUE
            until(I, it, take)
            if box:
                return box[0]
            if len(args) > 1:
                return args[1]
            raise I.exc('StopIteration')
        raise I.exc('TypeError', Const('%s object is not an iterator'
                                       % M.cls_name(I, M.type_of(I, it))))
    if isinstance(it, Sym):
        if len(args) > 1:
            if not I.decide(('hasnext', it.term)):
                return args[1]
        return Sym(('next', it.term), 'any')
    raise I.exc('TypeError', Const('not an iterator'))


def do_iter(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind in ('gen', 'iter'):
            return v
        m = M.find_method(I, v, '__iter__')
        if m is not None:
            return I.call(m, [], {})
    return mk_iter(I, M.segs_of(I, v))


def do_sorted(I, segs, key, reverse):
    if any(isinstance(s, Star) for s in segs):
        return sorted(segs, key=lambda s: repr(I.canon(s, {})))
    segs = [I.resolve(s) for s in segs]
    keys = [I.call(key, [s], {}) if key is not None and key != NONE else s
            for s in segs]
    order = []
    for i in range(len(segs)):
        j = len(order)
        while j > 0:
            a, b = keys[i], keys[order[j - 1]]
            if reverse:
                a, b = b, a
            if not less(I, a, b):
                break
            j -= 1
        order.insert(j, i)
    return [segs[i] for i in order]


def less(I, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        for x, y in zip(a.items, b.items):
            if I.eq(x, y):
                continue
            return less(I, x, y)
        return len(a.items) < len(b.items)
    if I.eq3(a, b) is True:
        return False
    if isinstance(a, Sym) and isinstance(b, Sym) and a.ty != 'int':
        # a strict total order on opaque names, antisymmetric
        if repr(a.term) > repr(b.term):
            return not I.truth(M.order(I, 'Lt', b, a))
    return I.truth(M.order(I, 'Lt', a, b))


# ---------------------------------------------------------------------------

def call_bi(I, name, args, kwargs):
    f = FUNCS.get(name)
    if f is not None:
        return f(I, args, kwargs)
    if name in M.EXC or name == 'CancelledError':
        r = I.new('inst', Bi(name))
        I.o(r).attrs['args'] = Tup(args)
        if name == 'StopIteration':
            I.o(r).attrs['value'] = args[0] if args else NONE
        return r
    if '.' in name:
        return call_unbound(I, name, args, kwargs)
    raise Imprecise('builtin %s' % name)


def f_len(I, a, k):
    return M.length(I, a[0])


def f_isinstance(I, a, k):
    return Const(M.isinstance_(I, a[0], a[1]))


def f_issubclass(I, a, k):
    c = a[0]
    if not M.is_class(I, c):
        if isinstance(c, Sym):
            ks = a[1].items if isinstance(a[1], Tup) else [a[1]]
            return Const(any(I.decide(('subcls', c.term, M.cls_key(I, x)))
                             for x in ks))
        raise I.exc('TypeError', Const('issubclass() arg 1'))
    return Const(bool(M.issubclass_(I, c, a[1])))


def f_getattr(I, a, k):
    n = I.strval(a[1])
    if not isinstance(n, Const):
        if len(a) > 2:
            if not I.decide(('hasattr', M.safe_term(I, a[0]), I.term(n))):
                return a[2]
        elif isinstance(a[0], Ref) and I.o(a[0]).kind in ('inst', 'module'):
            if not I.decide(('hasattr', M.safe_term(I, a[0]), I.term(n))):
                raise I.exc('AttributeError', n)
        return Sym(('getattr', M.safe_term(I, a[0]), I.term(n)), 'any')
    if len(a) > 2:
        v = I.resolve(a[0])
        if isinstance(v, Sym) and v.ty in ('any', 'obj', None, 'callable'):
            if not M.hasattr_(I, v, n.v):
                return a[2]
        return M.getattr_(I, v, n.v, a[2])
    return M.getattr_(I, I.resolve(a[0]), n.v)


def f_setattr(I, a, k):
    n = I.strval(a[1])
    if not isinstance(n, Const):
        raise Imprecise('setattr with an unknown name')
    I.setattr(a[0], n.v, a[2])
    return NONE


def f_hasattr(I, a, k):
    n = I.strval(a[1])
    if not isinstance(n, Const):
        return Const(I.decide(('hasattr', M.safe_term(I, a[0]),
                               I.term(n))))
    return Const(M.hasattr_(I, I.resolve(a[0]), n.v))


def f_hash(I, a, k):
    v = I.resolve(a[0])
    M.check_hashable(I, v)
    m = M.find_method(I, v, '__hash__')
    if m is not None:
        return I.call(m, [], {})
    return Sym(('hash', M.hash_key(I, v)), 'int')


def hash_term(t):
    """values of equal hash: numbers by value, and -1 like -2"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('c',) and len(t) == 3 and isinstance(
            t[2], (int, float)):
        v = t[2]
        if v == int(v) if v == v and abs(v) != float('inf') else False:
            v = int(v)
        return ('c', 'num', -2 if v == -1 else v)
    return tuple(hash_term(x) for x in t)


def f_id(I, a, k):
    return Sym(('id', M.safe_term(I, a[0])), 'int')


def f_map(I, a, k):
    fn = a[0]
    if len(a) > 2:
        src = I.new_list(do_zip(I, a[1:]))

        def start(on_yield):
            I.iterate(src, lambda t: on_yield(
                I.call(fn, list(I.resolve(t).items), {})) and None)
    else:
        it = a[1]

        def start(on_yield):
            I.iterate(it, lambda x: on_yield(I.call(fn, [x], {})) and None)
    return I.new('gen', Bi('map'), data=start)


def f_filter(I, a, k, neg=False):
    fn, it = a

    def start(on_yield):
        def body(x):
            t = I.truth(x if fn == NONE else I.call(fn, [x], {}))
            if t != neg:
                on_yield(x)
        I.iterate(it, body)
    return I.new('gen', Bi('filter'), data=start)


def f_starmap(I, a, k):
    fn, it = a

    def start(on_yield):
        I.iterate(it, lambda x: on_yield(I.call(
            fn, M.segs_of(I, x), {})) and None)
    return I.new('gen', Bi('starmap'), data=start)


def f_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', Const(0))
    v = I.resolve(a[0])
    return mk_iter(I, do_enumerate(I, v, start))


def f_range(I, a, k):
    return I.new('list', Bi('range'), data=do_range(
        I, [I.resolve(x) for x in a]))


def f_sorted(I, a, k):
    segs = M.segs_of(I, a[0])
    return I.new_list(do_sorted(I, segs, k.get('key'),
                                'reverse' in k and I.truth(k['reverse'])))


def f_reversed(I, a, k):
    v = I.resolve(a[0])
    m = M.find_method(I, v, '__reversed__')
    if m:
        return I.call(m, [], {})
    segs = M.segs_of(I, v)
    return mk_iter(I, I.reversed_segs(segs))


def f_any(I, a, k):
    return Const(until(I, a[0], lambda x: I.truth(x)))


def f_all(I, a, k):
    return Const(not until(I, a[0], lambda x: not I.truth(x)))


def f_sum(I, a, k):
    segs = M.segs_of(I, a[0])
    acc = a[1] if len(a) > 1 else Const(0)
    if any(isinstance(s, Star) for s in segs):
        if all(not isinstance(s, Star) or s.simple and s.variants[0][1][0]
               == Const(1) for s in segs):
            r = M.segs_len(I, [s for s in segs])
            return r
        return Sym(('sum', I.canon(tuple(segs), {})), 'int')
    for s in segs:
        acc = M.binop(I, 'Add', acc, s)
    return acc


def minmax(nm):
    def f(I, a, k):
        segs = M.segs_of(I, a[0]) if len(a) == 1 else list(a)
        if not segs:
            if 'default' in k:
                return k['default']
            raise I.exc('ValueError', Const('%s() arg is empty' % nm))
        if any(isinstance(s, Star) for s in segs):
            return Sym((nm, I.canon(tuple(segs), {})), 'any')
        key = k.get('key')
        best = segs[0]
        for s in segs[1:]:
            x, y = (s, best) if nm == 'min' else (best, s)
            if key:
                x, y = I.call(key, [x], {}), I.call(key, [y], {})
            if I.truth(M.order(I, 'Lt', x, y)):
                best = s
        return best
    return f


def f_callable(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, (Bound, BoundM)) or M.is_class(I, v):
        return TRUE
    if isinstance(v, (Const, Tup, IDict)):
        return FALSE
    if isinstance(v, Bi):
        return TRUE
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind in ('func', 'partial', 'lru', 'getter'):
            return TRUE
        if o.kind == 'stub':
            return Const(o.data is not None)
        return Const(M.find_method(I, v, '__call__') is not None)
    if isinstance(v, Sym):
        if v.ty == 'callable':
            return TRUE
        if v.ty in M.SYM_TY:
            return FALSE
        return Const(I.decide(('callable', v.term)))
    return TRUE


def f_event(nm):
    def f(I, a, k):
        I.trace.append(Event(nm, (list(a), dict(k)), I.site()))
        return NONE
    return f


def f_eval(I, a, k):
    I.trace.append(Event('eval', (list(a), dict(k)), I.site()))
    from . import pyast
    r = pyast.eval_(I, a, k)
    if r is not None:
        return r
    return Sym(('eval', I.fresh('e')), 'any')


def f_compile(I, a, k):
    I.trace.append(Event('compile', (list(a), dict(k)), I.site()))
    from . import pyast
    r = pyast.compile_(I, a, k)
    if r is not None:
        return r
    return Sym(('compile', M.safe_term(I, a[0])), 'obj')


def f_type(I, a, k):
    return M.type_call(I, Bi('type'), a, k)


def f_list(I, a, k):
    r = I.new_list()
    if a:
        M.list_extend(I, r, I.resolve(a[0]))
    return r


def f_deque(I, a, k):
    r = I.new_list(cls=Bi('deque'))
    if a:
        M.list_extend(I, r, I.resolve(a[0]))
    return r


def f_tuple(I, a, k):
    if not a:
        return Tup([])
    v = I.resolve(a[0])
    if isinstance(v, Const) and isinstance(v.v, tuple):
        return v
    return Tup(M.segs_of(I, v))


def f_dict(I, a, k, cls='dict'):
    r = I.new_dict(cls=Bi(cls))
    M.bi_dict_init(I, r, cls, a, k)
    return r


def f_set(I, a, k, cls='set'):
    r = I.new_set(cls=Bi(cls))
    if a:
        I.iterate(a[0], lambda x: M.set_add(I, r, x))
    return r


def f_str(I, a, k):
    if not a:
        return Const('')
    return M.str_(I, a[0])


def f_repr(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Ref):
        m = M.find_method(I, v, '__repr__')
        if m is not None:
            return I.call(m, [], {})
    return M.repr_(I, v)


def num(py, ty):
    def f(I, a, k):
        if not a:
            return Const(py())
        v = I.resolve(a[0])
        if len(a) > 1 or k:
            if not isinstance(v, Const):
                raise Imprecise('%s() of an unknown value with a base' % ty)
            more = [M.pyconst(I, I.resolve(x)) for x in a[1:]]
            kw = {n: M.pyconst(I, I.resolve(x)) for n, x in k.items()}
            try:
                return Const(py(v.v, *more, **kw))
            except Exception as e:
                raise I.exc(type(e).__name__, Const(str(e)))
        if isinstance(v, Const):
            try:
                return Const(py(v.v))
            except Exception as e:
                raise I.exc(type(e).__name__, Const(str(e)))
        if isinstance(v, Sym):
            if v.ty in ('int', 'float', 'bool'):
                return v if v.ty == ty else Sym((ty, v.term), ty)
            t = (ty, v.term)
            if v.ty in ('any', None) and I.decide(('numtype', ty, v.term)):
                raise I.exc('TypeError', Const('%s() argument' % ty))
            if not I.decide(('parse', ty, v.term)):
                raise I.exc('ValueError', Const('invalid literal'))
            return Sym(t, ty)
        if isinstance(v, Ref) and I.strval(v) is not None:
            return f(I, [I.strval(v)], k)
        raise I.exc('TypeError', Const('%s() argument' % ty))
    return f


def f_bool(I, a, k):
    return Const(I.truth(a[0])) if a else FALSE


def f_object(I, a, k):
    return I.new('inst', Bi('object'))


def f_property(I, a, k):
    fget = a[0] if a else k.get('fget', NONE)
    fset = a[1] if len(a) > 1 else k.get('fset')
    return I.new('prop', Bi('property'), data=(fget, fset))


def f_classmethod(I, a, k):
    return I.new('cmeth', Bi('classmethod'), data=a[0])


def f_staticmethod(I, a, k):
    return I.new('smeth', Bi('staticmethod'), data=a[0])


def f_super(I, a, k):
    return Super(a[0], a[1])


def f_partial(I, a, k):
    return I.new('partial', Bi('partial'),
                 data=(a[0], tuple(a[1:]), dict(k)))


def f_reduce(I, a, k):
    fn, it = a[0], a[1]
    acc = list(a[2:3])

    def body(x):
        acc[:] = [I.call(fn, [acc[0], x], {})] if acc else [x]
    segs = M.segs_of(I, it)
    if any(isinstance(s, Star) for s in segs):
        # keep the accumulator on the heap so that loops summarise it
        fr = I.new('frame', extra=None)
        if not acc:
            if isinstance(segs[0], Star):
                raise Imprecise('reduce')
            acc.append(segs.pop(0))
        I.setvar_raw(fr.oid, 'acc', acc[0])

        def b2(x):
            I.rd(fr.oid, 'acc')
            v = I.call(fn, [I.heap[fr.oid].attrs['acc'], x], {})
            I.wr(fr.oid, 'acc')
            I.setvar_raw(fr.oid, 'acc', v)
        for s in segs:
            I.seg(s, b2)
        return I.heap[fr.oid].attrs['acc']
    for s in segs:
        body(s)
    if not acc:
        raise I.exc('TypeError', Const('reduce() of empty iterable'))
    return acc[0]


def copy_meta(I, dst, src):
    if isinstance(dst, Ref) and I.o(dst).kind in ('func', 'partial',
                                                  'inst', 'lru'):
        o = I.w(dst.oid)
        for n in ('__name__', '__qualname__', '__doc__', '__module__'):
            v = M.getattr_(I, src, n, None)
            if v is not None:
                o.attrs[n] = v
        base = src.func if isinstance(src, Bound) else src
        if isinstance(base, Ref) and I.o(base).kind in ('func', 'stub',
                                                        'partial', 'inst'):
            for n, v in list(I.o(base).attrs.items()):
                if not n.startswith('$') and n not in o.attrs:
                    o.attrs[n] = v
        o.attrs['__wrapped__'] = src
    return dst


def f_wraps(I, a, k):
    src = a[0]
    return mkfn(I, lambda I_, args: copy_meta(I, args[0], src))


def f_update_wrapper(I, a, k):
    return copy_meta(I, a[0], a[1])


def f_lru_cache(I, a, k):
    if a and not isinstance(a[0], Const):
        return I.new('lru', Bi('lru'), data=a[0])
    return mkfn(I, lambda I_, args: I.new('lru', Bi('lru'), data=args[0]))


def f_cached_property(I, a, k):
    f = a[0]
    return I.new('cprop', Bi('cached_property'), data=f,
                 extra=I.o(f).extra['name'])


def plain_data(I, its):
    """the elements of finished collections of known lengths, or None"""
    out = []
    for it in its:
        it = I.resolve(it)
        if isinstance(it, Star) or not (isinstance(it, Tup) or isinstance(
                it, Ref) and I.o(it).kind in ('list', 'view', 'dict')
                and not isinstance(I.o(it).cls, Ref)):
            return None
        segs = M.segs_of(I, it)
        if any(isinstance(x, Star) for x in segs):
            return None
        out.extend(segs)
    return out


def f_chain(I, a, k):
    its = list(a)
    d = plain_data(I, its)
    if d is not None:
        return mk_iter(I, d)

    def start(on_yield):
        for it in its:
            if isinstance(it, Star):
                I.seg(it, lambda s: I.iterate(
                    s, lambda x: on_yield(x) and None))
            else:
                I.iterate(it, lambda x: on_yield(x) and None)
    return I.new('gen', Bi('chain'), data=start)


def f_chain_from(I, a, k):
    it = a[0]
    d = plain_data(I, [it])
    if d is not None:
        d = plain_data(I, d)
        if d is not None:
            return mk_iter(I, d)

    def start(on_yield):
        I.iterate(it, lambda s: I.iterate(
            s, lambda x: on_yield(x) and None))
    return I.new('gen', Bi('chain'), data=start)


def f_repeat(I, a, k):
    if len(a) > 1:
        return mk_iter(I, M.repeat_layout(I, a[0], I.resolve(a[1])))
    return I.new('iter', Bi('iterator'), data=[a[0]], extra='repeat')


def f_count(I, a, k):
    return I.new('iter', Bi('iterator'), data=[a[0] if a else Const(0)],
                 extra='count')


def f_islice(I, a, k):
    v = I.resolve(a[0])
    lo, hi = (Const(0), a[1]) if len(a) == 2 else (a[1], a[2])
    if lo == NONE:
        lo = Const(0)
    segs = I.new_list(M.segs_of(I, v))
    return do_iter(I, M.getslice(I, segs, lo, hi, NONE))


def f_namedtuple(I, a, k):
    name = a[0].v
    fs = a[1]
    if isinstance(fs, Const):
        fields = fs.v.replace(',', ' ').split()
    else:
        fields = [x.v for x in M.exact_items(I, fs)]
    d = M.exact_items(I, k['defaults']) if 'defaults' in k and \
        k['defaults'] != NONE else []
    return M.make_class(I, name, [Bi('tuple')], {
        '$ntfields': Const(tuple(fields)),
        '$ntdefaults': Tup([Tup([Const(f), x]) for f, x in zip(
            fields[len(fields) - len(d):], d)]),
        '_fields': Tup([Const(f) for f in fields]),
    }, None, I.site()[0] if I.site() else '?')


def f_contextmanager(I, a, k):
    f = a[0]
    o = I.o(f)
    ex = dict(o.extra)
    ex['cm'] = f.oid
    return I.new('func', Bi('function'), extra=ex, attrs=dict(o.attrs))


def f_suppress(I, a, k):
    return I.new('suppress', Bi('suppress'), data=Tup(a))


def f_abstractmethod(I, a, k):
    if isinstance(a[0], Ref):
        I.w(a[0].oid).attrs['__isabstractmethod__'] = TRUE
    return a[0]


def f_isgenerator(I, a, k):
    return Const(M.isinstance_(I, a[0], Bi('generator')))


def f_isawaitable(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Ref) and I.o(v).kind == 'stub':
        return Const(bool(I.o(v).extra and 'await' in I.o(v).extra))
    if isinstance(v, Sym) and v.ty in ('any', None):
        return Const(I.decide(('isinst', v.term, 'abc.Awaitable')))
    return Const(M.isinstance_(I, v, Bi('abc.Awaitable')))


def f_iscoroutinefunction(I, a, k):
    import ast
    v = I.resolve(a[0])
    while True:
        if isinstance(v, Bound):
            v = v.func
        elif isinstance(v, Ref) and I.o(v).kind == 'partial':
            v = I.o(v).data[0]
        else:
            break
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'func':
            return Const(isinstance(o.extra['node'], ast.AsyncFunctionDef))
        if o.kind == 'stub':
            return Const(bool(o.extra and o.extra.get('coro')))
        return FALSE
    if isinstance(v, Sym):
        return Const(I.decide(('coroutinefunction', v.term)))
    return FALSE


def f_gather(I, a, k):
    h = I.ext_handlers.get('asyncio.gather')
    if h is not None:
        return h(I, a, k)
    if k:
        raise Imprecise('options of gather()')
    return I.new('gather', Bi('gather'), data=list(a))


def f_copy(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Ref):
        m = M.find_method(I, v, '__copy__')
        if m is not None:
            return I.call(m, [], {})
        o = I.o(v)
        if o.kind in ('func', 'class', 'module', 'stub'):
            return v
        I.rd(v.oid, '*')
        return I.new(o.kind, o.cls, attrs=dict(o.attrs),
                     data=list(o.data) if isinstance(o.data, list)
                     else o.data, extra=o.extra)
    return v


def f_deepcopy(I, a, k, memo=None):
    v = I.resolve(a[0])
    memo = {} if memo is None else memo
    if isinstance(v, Tup):
        return Tup([f_deepcopy(I, [x], {}, memo) for x in v.items])
    if isinstance(v, Ref):
        if v.oid in memo:
            return memo[v.oid]
        o = I.o(v)
        if o.kind in ('func', 'class', 'module', 'stub', 'partial'):
            return v
        if any(isinstance(x, Star) for x in o.data or ()
               ) if isinstance(o.data, list) else False:
            raise Imprecise('deepcopy of a summarised container')
        r = memo[v.oid] = I.new(o.kind, o.cls, extra=o.extra)

        def cp(x):
            if isinstance(x, DEntry):
                return DEntry(cp(x.key), cp(x.val), x.n, x.guard)
            return f_deepcopy(I, [x], {}, memo)
        n = I.o(r)
        n.attrs = {kk: cp(x) for kk, x in o.attrs.items()}
        n.data = [cp(x) for x in o.data] if isinstance(o.data, list) \
            else o.data
        return r
    return v


def f_attrgetter(I, a, k):
    names = [x.v for x in a]

    def get(v, n):
        for p in n.split('.'):
            v = I.getattr(v, p)
        return v

    def fn(I_, args):
        vs = [get(args[0], n) for n in names]
        return vs[0] if len(vs) == 1 else Tup(vs)
    return mkfn(I, fn)


def f_itemgetter(I, a, k):
    keys = list(a)

    def fn(I_, args):
        vs = [M.getitem(I, args[0], n) for n in keys]
        return vs[0] if len(vs) == 1 else Tup(vs)
    return mkfn(I, fn)


def f_methodcaller(I, a, k):
    name, rest = a[0].v, list(a[1:])
    return mkfn(I, lambda I_, args: I.call(I.getattr(args[0], name),
                                           rest, k))


def f_getframe(I, a, k):
    mod = I.stack[-1].module if I.stack else '?'
    fr = I.new('stub')
    I.o(fr).attrs['f_globals'] = I.new_dict([(Const('__name__'),
                                              Const(mod))])
    return fr


def plain(I, v):
    """the Python value of a constant structure; raises Imprecise"""
    v = I.resolve(v)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup) and not any(isinstance(x, Star) for x in v.items):
        return tuple(plain(I, x) for x in v.items)
    if isinstance(v, Ref):
        o = I.o(v)
        if o.kind == 'list' and isinstance(o.cls, Bi) and not any(
                isinstance(x, Star) for x in o.data):
            return [plain(I, x) for x in o.data]
        if o.kind == 'dict' and not any(e.n or e.guard for e in o.data):
            return {plain(I, e.key): plain(I, e.val) for e in o.data}
    raise Imprecise('not a constant')


def f_json_dumps(I, a, k):
    try:
        return Const(json.dumps(plain(I, a[0]), **{
            n: plain(I, x) for n, x in k.items()}))
    except (Imprecise, TypeError, ValueError):
        pass
    return Sym(('json', M.safe_term(I, a[0])), 'name')


def f_print(I, a, k):
    return NONE


def f_vars(I, a, k):
    return IDict(a[0].oid)


def f_chr(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Const):
        try:
            return Const(chr(v.v))
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    return Sym(('chr', I.term(v)), 'name')


def f_ord(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Const):
        try:
            return Const(ord(v.v))
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    return Sym(('ord', I.term(v)), 'int')


def f_abs(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Const):
        return Const(abs(v.v))
    return Sym(('abs', I.term(v)), 'int')


def f_format(I, a, k):
    return M.str_(I, a[0])


def f_groupby(I, a, k):
    raise Imprecise('groupby')


def pyfunc(py):
    def f(I, a, k):
        try:
            return M.lift(I, py(*[M.pyconst(I, I.resolve(x)) for x in a]))
        except Imprecise:
            raise
        except Exception as e:
            raise I.exc(type(e).__name__, Const(str(e)))
    return f


def f_ExitStack(I, a, k):
    raise Imprecise('ExitStack')


def f_delattr(I, a, k):
    M.delattr_(I, I.resolve(a[0]), a[1].v)
    return NONE


FUNCS = {
    'len': f_len, 'isinstance': f_isinstance, 'issubclass': f_issubclass,
    'getattr': f_getattr, 'setattr': f_setattr, 'hasattr': f_hasattr,
    'delattr': f_delattr,
    'repr': f_repr, 'hash': f_hash, 'id': f_id,
    'iter': lambda I, a, k: do_iter(I, a[0]) if len(a) == 1 else
        shims.shim(shims.ITER2)(I, a, k),
    'next': lambda I, a, k: do_next(I, a),
    'zip': lambda I, a, k: mk_iter(I, do_zip(
        I, a, 'strict' in k and I.truth(k['strict']))) if a
    else mk_iter(I, []),
    'map': f_map, 'filter': f_filter, 'starmap': f_starmap,
    'filterfalse': lambda I, a, k: f_filter(I, a, k, True),
    'enumerate': f_enumerate, 'range': f_range, 'sorted': f_sorted,
    'reversed': f_reversed, 'any': f_any, 'all': f_all, 'sum': f_sum,
    'min': minmax('min'), 'max': minmax('max'), 'callable': f_callable,
    'print': f_print, 'eval': f_eval, 'exec': f_eval, 'compile': f_compile,
    'type': f_type, 'list': f_list, 'tuple': f_tuple, 'deque': f_deque,
    'dict': f_dict, 'set': f_set,
    'frozenset': lambda I, a, k: f_set(I, a, k, 'frozenset'),
    'OrderedDict': lambda I, a, k: f_dict(I, a, k, 'OrderedDict'),
    'defaultdict': lambda I, a, k: f_dict(I, a, k, 'defaultdict'),
    'Counter': lambda I, a, k: f_dict(I, a, k, 'Counter'),
    'str': f_str, 'int': num(int, 'int'), 'float': num(float, 'float'),
    'bool': f_bool, 'object': f_object, 'property': f_property,
    'classmethod': f_classmethod, 'staticmethod': f_staticmethod,
    'super': f_super, 'partial': f_partial, 'reduce': f_reduce,
    'wraps': f_wraps, 'update_wrapper': f_update_wrapper,
    'lru_cache': f_lru_cache, 'cached_property': f_cached_property,
    'chain': f_chain, 'chain_from_iterable': f_chain_from,
    'repeat': f_repeat, 'count': f_count, 'islice': f_islice,
    'namedtuple': f_namedtuple, 'contextmanager': f_contextmanager,
    'suppress': f_suppress, 'abstractmethod': f_abstractmethod,
    'isgenerator': f_isgenerator, 'isawaitable': f_isawaitable,
    'iscoroutinefunction': f_iscoroutinefunction, 'gather': f_gather,
    'copy.copy': f_copy, 'copy.deepcopy': f_deepcopy,
    'attrgetter': f_attrgetter, 'itemgetter': f_itemgetter,
    'methodcaller': f_methodcaller, 'warn': f_print,
    '_getframe': f_getframe, 'json.dumps': f_json_dumps, 'vars': f_vars,
    'chr': f_chr, 'ord': f_ord, 'abs': f_abs, 'format': f_format,
    'groupby': f_groupby, 'bin': pyfunc(bin), 'hex': pyfunc(hex),
    'oct': pyfunc(oct), 'round': pyfunc(round), 'divmod': pyfunc(divmod),
    'pow': pyfunc(pow), 'bytes': pyfunc(bytes),
    'globals': lambda I, a, k: _imp('globals()'),
    'locals': lambda I, a, k: _imp('locals()'),
    'ExitStack': f_ExitStack,
    'slice': lambda I, a, k: _imp('slice()'),
}


def _imp(m):
    raise Imprecise(m)


def call_unbound(I, name, args, kwargs):
    base, _, meth = name.rpartition('.')
    if base == 'exc':
        if meth == '__new__':
            r = I.new('inst', args[0])
            I.o(r).attrs['args'] = Tup(args[1:])
            return r
        if meth == '__init__':
            I.w(args[0].oid).attrs['args'] = Tup(args[1:])
            return NONE
        if meth == '__str__':
            a = I.o(args[0]).attrs.get('args', Tup([])).items
            return M.str_(I, a[0]) if len(a) == 1 else (
                Const('') if not a else Sym(('str', I.term(Tup(a))), 'str'))
        return Sym(('exc', meth, M.safe_term(I, args[0])), 'str')
    recv = I.resolve(args[0]) if args else NONE
    if meth == '__new__':
        if base == 'type':
            return M.type_call(I, args[0], args[1:], kwargs)
        if M.is_class(I, recv) and isinstance(recv, Ref):
            if base == 'object':
                return I.new('inst', recv) if M.base_kind(
                    I, recv)[0] in ('inst', 'exc', 'ext') \
                    else M.alloc(I, recv, args[1:], kwargs)
            return M.alloc(I, recv, args[1:], kwargs)
        return call_bi(I, recv.name, args[1:], kwargs)
    if meth == '__init__':
        if base in ('dict', 'defaultdict', 'OrderedDict', 'Counter'):
            M.bi_dict_init(I, recv, base, args[1:], kwargs)
        elif base in ('list', 'deque'):
            if len(args) > 1:
                M.list_extend(I, recv, args[1])
        elif base == 'set' and len(args) > 1:
            I.iterate(args[1], lambda x: M.set_add(I, recv, x))
        elif base == 'object' and (len(args) > 1 or kwargs):
            raise I.exc('TypeError', Const('object.__init__() takes '
                                           'exactly one argument'))
        return NONE
    if base == 'dict' and meth == 'fromkeys':
        d = I.new_dict()
        v = args[1] if len(args) > 1 else NONE
        I.iterate(args[0], lambda k: M.dict_set(I, d, k, v))
        return d
    if base == 'type' and meth == '__call__':
        return M.instantiate(I, args[0], args[1:], kwargs)
    if base == 'str' and meth == 'maketrans':
        return Sym(('maketrans',), 'obj')
    if base == 'abc.Mapping':
        return call_method(I, recv, 'Mapping.' + meth, args[1:], kwargs)
    return call_method(I, recv, meth, args[1:], kwargs)


# ---------------------------------------------------------------------------
# methods

def call_method(I, recv, name, args, kwargs):
    recv = I.resolve(recv)
    if name.startswith('__') and name.endswith('__'):
        r = dunder(I, recv, name, args, kwargs)
        if r is not None:
            return r
    if isinstance(recv, Const):
        return const_method(I, recv, name, args, kwargs)
    if isinstance(recv, Sym):
        if recv.ty in ('str', 'name'):
            return M.str_method(I, recv, name, args, kwargs)
        return Sym(('meth', name, recv.term) + tuple(
            M.safe_term(I, a) for a in args), 'any')
    if isinstance(recv, Tup):
        return tuple_method(I, list(recv.items), name, args)
    if isinstance(recv, IDict):
        return idict_method(I, recv, name, args, kwargs)
    if isinstance(recv, Ref):
        o = I.o(recv)
        k = o.kind
        if k == 'strval':
            return M.str_method(I, o.data, name, args, kwargs)
        if k == 'list':
            return list_method(I, recv, o, name, args, kwargs)
        if k == 'dict':
            return dict_method(I, recv, o, name, args, kwargs)
        if k == 'set':
            return set_method(I, recv, o, name, args, kwargs)
        if k == 'view':
            if name == 'isdisjoint':
                return Const(not until(I, recv, lambda x: M.contains(
                    I, args[0], x)))
            return set_method(I, I.new_set(M.segs_of(I, recv)), None,
                              name, args, kwargs)
        if k == 'ntuple':
            if name == '_replace':
                vals = [kwargs.get(f, v) for f, v in zip(o.extra, o.data)]
                return I.new('ntuple', o.cls, attrs=dict(
                    zip(o.extra, vals)), data=vals, extra=o.extra)
            if name == '_asdict':
                return I.new_dict([(Const(f), v) for f, v in zip(
                    o.extra, o.data)])
            return tuple_method(I, list(o.data), name, args)
        if k in ('gen', 'iter'):
            if k == 'gen' and o.extra is not None:
                g = o.extra
                if name == 'close':
                    g.kill()
                    return NONE
                if name == 'send':
                    kind, v = g.step(args[0])
                    if kind == 'yield':
                        return v
                    raise I.exc('StopIteration', *(
                        [v] if v != NONE else []))
                raise Imprecise('generator.%s' % name)
            if name == 'close':
                return NONE
            if name == 'send':
                return do_next(I, [recv])
        if k == 'prop':
            if name == 'setter':
                return I.new('prop', Bi('property'),
                             data=(o.data[0], args[0]))
            return recv
        if k == 'coro' and name == 'close':
            return NONE
        if name.startswith('Mapping.'):
            return mapping_method(I, recv, name[8:], args)
    raise Imprecise('method %s of %r' % (name, recv))


def dunder(I, recv, name, args, kwargs):
    if name == '__len__':
        if isinstance(recv, Ref) and I.o(recv).kind in ('list', 'dict',
                                                        'set'):
            return M.segs_len(I, I.o(recv).data)
        return M.length(I, recv)
    if name == '__getitem__':
        if isinstance(recv, Ref):
            return M.base_getitem(I, recv, args[0])
        return M.getitem(I, recv, args[0])
    if name == '__setitem__':
        if isinstance(recv, Ref) and I.o(recv).kind == 'dict':
            M.dict_set(I, recv, args[0], args[1])
            return NONE
        M.setitem(I, recv, args[0], args[1])
        return NONE
    if name == '__delitem__':
        if isinstance(recv, Ref) and I.o(recv).kind == 'dict':
            e = M.dict_find(I, recv, args[0])
            if e is None:
                raise I.exc('KeyError', args[0])
            M.dict_del(I, recv, e)
            return NONE
        M.delitem(I, recv, args[0])
        return NONE
    if name == '__contains__':
        if isinstance(recv, Ref):
            o = I.o(recv)
            if o.kind == 'dict':
                return Const(M.dict_find(I, recv, args[0]) is not None)
            if o.kind in ('list', 'set'):
                return Const(M.segs_contain(I, o.data, args[0]))
        return Const(M.contains(I, recv, args[0]))
    if name == '__iter__':
        if isinstance(recv, Ref):
            o = I.o(recv)
            if o.kind == 'dict':
                return mk_iter(I, M.dict_segs(I, recv, 'keys'))
            if o.kind in ('list', 'set'):
                I.rd(recv.oid, '*')
                return mk_iter(I, list(o.data))
        return do_iter(I, recv)
    if name == '__next__':
        return do_next(I, [recv])
    if name in ('__eq__', '__ne__'):
        if isinstance(recv, Ref):
            r = M.struct_eq(I, recv, args[0])
            if r is None:
                r = I.decide(('eq',) + I._sorted2(
                    I.term(recv), I.term(args[0])))
        else:
            r = I.eq(recv, args[0])
        return Const(r if name == '__eq__' else not r)
    if name == '__hash__':
        return M.base_hash(I, recv)
    if name in ('__repr__', '__str__'):
        if isinstance(recv, Ref) and I.o(recv).kind == 'strval':
            return I.o(recv).data
        return Sym(('repr', M.safe_term(I, recv)), 'str')
    if name == '__setattr__':
        if isinstance(recv, Ref):
            n = args[0]
            I.wr(recv.oid, n.v)
            I.w(recv.oid, n.v).attrs[n.v] = args[1]
            return NONE
    if name == '__getattribute__':
        n = I.strval(args[0])
        if isinstance(recv, Ref) and isinstance(n, Const):
            o = I.o(recv)
            if n.v in o.attrs:
                return o.attrs[n.v]
            if isinstance(o.cls, Ref):
                a, _ = M.class_attr(I, o.cls, n.v)
                if a is not None:
                    return M.bind_desc(I, a, recv, o.cls)
            raise I.exc('AttributeError', n)
    if name == '__get__':
        if args[0] == NONE:
            return recv
        return Bound(recv, args[0])
    if name in ('__init_subclass__', '__init__', '__enter__'):
        return NONE
    if name == '__format__':
        return M.str_(I, recv)
    if name == '__bool__':
        return Const(I.truth(recv))
    if name == '__call__':
        return I.call(recv, args, kwargs)
    if name == '__reversed__':
        return f_reversed(I, [recv], {})
    if name == '__instancecheck__':
        return Const(M.isinstance_(I, args[0], recv))
    ops = {v: k for k, v in M.BINNAMES.items()}
    if name in ops:
        return M.binop(I, ops[name], recv, args[0])
    cmp = {'__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}
    if name in cmp:
        return M.order(I, cmp[name], recv, args[0])
    return None


def const_method(I, recv, name, args, kwargs):
    if isinstance(recv.v, str):
        return M.str_method(I, recv, name, args, kwargs)
    try:
        a = [M.pyconst(I, x) for x in args]
        return M.lift(I, getattr(recv.v, name)(*a))
    except Imprecise:
        raise
    except Exception as e:
        raise I.exc(type(e).__name__, Const(str(e)))


def tuple_method(I, segs, name, args):
    if name == 'index':
        return seq_find(I, segs, args[0])
    if name == 'count':
        return Sym(('count', I.canon(tuple(segs), {}), I.term(args[0])),
                   'int')
    raise Imprecise('tuple.%s' % name)


def seq_find(I, segs, v):
    lay = []
    for s in segs:
        if isinstance(s, Star):
            r = M.star_contains(I, s, v)
            if r is True and s.uniform:
                t = I.term(v)
                for i in {ix(s.n), ix(('first', s.n)), ix(('last', s.n)),
                          ix(('at', s.n))}:
                    if I.term(I.subst(elem_of(s), ix(s.n), i)) == t:
                        return Sym(('pos', tuple(lay), s.n, i), 'int')
                return Sym(('posof', I.canon(s, {}), t), 'int')
            if r is None:
                if I.decide(('in', I.term(v), ('star', I.canon(s, {})))):
                    return Sym(('posof', I.canon(s, {}), I.term(v)), 'int')
            lay.append(s.n)
        else:
            if I.eq(s, v):
                if all(x == 1 for x in lay):
                    return Const(len(lay))
                return Sym(('pos', tuple(lay), 1), 'int')
            lay.append(1)
    raise I.exc('ValueError', Const('not in list'))


def list_method(I, ref, o, name, args, kwargs):
    if name == 'append':
        M.list_append(I, ref, args[0])
        return NONE
    if name == 'extend':
        M.list_extend(I, ref, I.resolve(args[0]))
        return NONE
    if name in ('appendleft', 'insert'):
        if name == 'insert':
            if args[0] != Const(0):
                d = o.data
                if isinstance(args[0], Const) and not any(
                        isinstance(s, Star) for s in d):
                    I.wr(ref.oid, '*')
                    I.w(ref.oid).data.insert(args[0].v, args[1])
                    return NONE
                raise Imprecise('insert')
            v = args[1]
        else:
            v = args[0]
        I.wr(ref.oid, '+', strong=False)
        I.wr(ref.oid, '*', strong=False)
        w = I.w(ref.oid)
        w.data = [v] + list(w.data)
        return NONE
    if name in ('pop', 'popleft'):
        I.rd(ref.oid, '*')
        left = name == 'popleft'
        if args:
            if args[0] == Const(0):
                left = True
            elif args[0] != Const(-1):
                if isinstance(args[0], Const) and not any(
                        isinstance(s, Star) for s in o.data):
                    I.wr(ref.oid, '*')
                    w = I.w(ref.oid)
                    try:
                        return w.data.pop(args[0].v)
                    except IndexError:
                        raise I.exc('IndexError', Const('pop index'))
                raise Imprecise('pop at an unknown position')
        if not o.data:
            raise I.exc('IndexError', Const('pop from empty'))
        s = o.data[0 if left else -1]
        if isinstance(s, Star):
            if left or len(o.data) == 1:
                I.driven(ref.oid)
            raise Imprecise('pop of a summarised element')
        I.wr(ref.oid, '*')
        w = I.w(ref.oid)
        del w.data[0 if left else -1]
        return s
    if name == 'remove':
        I.rd(ref.oid, '*')
        for i, s in enumerate(o.data):
            if isinstance(s, Star):
                if M.star_contains(I, s, args[0]) is False:
                    continue
                raise Imprecise('removal of a summarised element')
            if I.eq(s, args[0]):
                I.wr(ref.oid, '*')
                del I.w(ref.oid).data[i]
                return NONE
        raise I.exc('ValueError', Const('list.remove(x): x not in list'))
    if name == 'index':
        I.rd(ref.oid, '*')
        return seq_find(I, o.data, args[0])
    if name == 'count':
        return tuple_method(I, o.data, name, args)
    if name == 'copy':
        I.rd(ref.oid, '*')
        return I.new_list(o.data)
    if name == 'clear':
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = []
        return NONE
    if name == 'reverse':
        d = M.segs_of(I, ref)
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = I.reversed_segs(d)
        return NONE
    if name == 'sort':
        d = do_sorted(I, M.segs_of(I, ref), kwargs.get('key'),
                      'reverse' in kwargs and I.truth(kwargs['reverse']))
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = d
        return NONE
    raise Imprecise('list.%s' % name)


def mk_view(I, ref, what):
    return I.new('view', Bi('dictview'), data=(ref, what))


def dict_method(I, ref, o, name, args, kwargs):
    if name == 'get':
        M.check_hashable(I, args[0])
        e = M.dict_find(I, ref, args[0])
        if e is not None:
            return e.val
        return args[1] if len(args) > 1 else NONE
    if name == 'setdefault':
        M.check_hashable(I, args[0])
        e = M.dict_find(I, ref, args[0])
        if e is not None:
            return e.val
        v = args[1] if len(args) > 1 else NONE
        M.dict_set(I, ref, args[0], v)
        return v
    if name in ('items', 'keys', 'values'):
        return mk_view(I, ref, name)
    if name == 'pop':
        e = M.dict_find(I, ref, args[0])
        if e is None:
            if len(args) > 1:
                return args[1]
            raise I.exc('KeyError', args[0])
        M.dict_del(I, ref, e)
        return e.val
    if name == 'popitem':
        I.rd(ref.oid, '*')
        if not o.data:
            raise I.exc('KeyError', Const('popitem(): empty'))
        last = not ('last' in kwargs and not I.truth(kwargs['last']))
        e = o.data[-1 if last else 0]
        if e.n or e.guard:
            raise Imprecise('popitem of a summarised entry')
        M.dict_del(I, ref, e)
        return Tup([e.key, e.val])
    if name == 'update':
        if o.cls == Bi('Counter'):
            if args:
                M.counter_add(I, ref, args[0])
            return NONE
        if args:
            M.dict_update(I, ref, args[0])
        for k, v in kwargs.items():
            M.dict_set(I, ref, Const(k), v)
        return NONE
    if name == 'subtract':
        def body(x):
            cur = M.dict_find(I, ref, x)
            M.dict_set(I, ref, x, M.binop(
                I, 'Sub', cur.val if cur else Const(0), Const(1)))
        I.iterate(args[0], body)
        return NONE
    if name == 'copy':
        return M.dict_copy(I, ref)
    if name == 'clear':
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = []
        return NONE
    if name == 'move_to_end':
        e = M.dict_find(I, ref, args[0])
        if e is None:
            raise I.exc('KeyError', args[0])
        M.dict_del(I, ref, e)
        w = I.w(ref.oid)
        if 'last' in kwargs and not I.truth(kwargs['last']):
            w.data.insert(0, e)
        else:
            w.data.append(e)
        return NONE
    raise Imprecise('dict.%s' % name)


def set_method(I, ref, o, name, args, kwargs):
    if name == 'add':
        M.set_add(I, ref, args[0])
        return NONE
    if name in ('discard', 'remove'):
        M.set_remove(I, ref, I.resolve(args[0]), name == 'remove')
        return NONE
    if name == 'update':
        for a in args:
            I.iterate(a, lambda x: M.set_add(I, ref, x))
        return NONE
    if name == 'copy':
        I.rd(ref.oid, '*')
        return I.new_set(I.o(ref).data)
    if name == 'union':
        s = I.new_set(M.segs_of(I, ref))
        for a in args:
            I.iterate(a, lambda x: M.set_add(I, s, x))
        return s
    if name in ('difference', 'difference_update'):
        s = ref
        for a in args:
            s = M.set_minus(I, s, M.container(I, I.resolve(a)))
        if name == 'difference':
            return s
        d = list(I.o(s).data)
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = d
        return NONE
    if name in ('intersection', 'intersection_update'):
        out = I.new_set()
        cs = [M.container(I, I.resolve(a)) for a in args]

        def body(x):
            if all(M.contains(I, c, x) for c in cs):
                M.set_add(I, out, x)
        for s in M.segs_of(I, ref):
            I.seg(s, body)
        if name == 'intersection':
            return out
        d = list(I.o(out).data)
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = d
        return NONE
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        a, b = (ref, M.container(I, I.resolve(args[0])))
        if name == 'issuperset':
            a, b = b, a
        if name == 'isdisjoint':
            return Const(not until(I, a, lambda x: M.contains(I, b, x)))
        return Const(not until(I, a, lambda x: not M.contains(I, b, x)))
    if name == 'pop':
        if not I.o(ref).data:
            raise I.exc('KeyError', Const('pop from an empty set'))
        s = I.o(ref).data[0]
        if isinstance(s, Star):
            raise Imprecise('set.pop of a summarised element')
        I.wr(ref.oid, '*')
        del I.w(ref.oid).data[0]
        return s
    if name == 'clear':
        I.wr(ref.oid, '*')
        I.w(ref.oid).data = []
        return NONE
    raise Imprecise('set.%s' % name)


def idict_method(I, d, name, args, kwargs):
    o = I.heap[d.oid]
    if name in ('get', 'setdefault', 'pop'):
        k = I.strval(args[0])
        if not isinstance(k, Const):
            raise Imprecise('__dict__ access')
        I.rd(d.oid, k.v)
        if k.v in o.attrs:
            v = o.attrs[k.v]
            if name == 'pop':
                I.wr(d.oid, k.v)
                del I.w(d.oid, k.v).attrs[k.v]
            return v
        if name == 'setdefault':
            I.wr(d.oid, k.v)
            I.w(d.oid, '$cache').attrs[k.v] = args[1]
            return args[1]
        if name == 'pop' and len(args) < 2:
            raise I.exc('KeyError', k)
        return args[1] if len(args) > 1 else NONE
    if name in ('items', 'keys', 'values', 'copy'):
        attrs = {k: v for k, v in o.attrs.items() if not k.startswith('$')}
        nd = I.new_dict([(Const(k), v) for k, v in attrs.items()])
        return nd if name == 'copy' else mk_view(I, nd, name)
    if name == 'update':
        def put(k, v):
            I.wr(d.oid, k)
            I.w(d.oid, k).attrs[k] = v
        for a in args:
            a = I.resolve(a)
            if isinstance(a, IDict):
                for k, v in list(I.heap[a.oid].attrs.items()):
                    put(k, v)
            elif isinstance(a, Ref) and I.o(a).kind == 'dict':
                for k, v in M.kw_items(I, a):
                    put(k, v)
            else:
                def pair(t):
                    k = I.strval(M.getitem(I, t, Const(0)))
                    if not isinstance(k, Const):
                        raise Imprecise('__dict__ with unknown keys')
                    put(k.v, M.getitem(I, t, Const(1)))
                I.iterate(a, pair)
        for k, v in kwargs.items():
            put(k, v)
        return NONE
    raise Imprecise('__dict__.%s' % name)


def mapping_method(I, ref, name, args):
    if name == 'get':
        try:
            return M.getitem(I, ref, args[0])
        except AbsRaise as e:
            if M.isinstance_(I, e.val, Bi('KeyError')):
                return args[1] if len(args) > 1 else NONE
            raise
    if name == 'keys':
        return mk_iter(I, M.segs_of(I, ref))
    if name == 'values':
        out = I.new_list()
        I.iterate(ref, lambda k: M.list_append(
            I, out, M.getitem(I, ref, k)))
        return out
    if name == 'items':
        out = I.new_list()
        I.iterate(ref, lambda k: M.list_append(
            I, out, Tup([k, M.getitem(I, ref, k)])))
        return out
    if name == '__contains__':
        return Const(M.contains(I, ref, args[0]))
    raise Imprecise('Mapping.%s' % name)
