"""Objects which must not be changed while the library works with them."""
from .values import *   # noqa
from . import models as M

CONT = ('list', 'dict', 'set')
OBJ = CONT + ('inst',)


class Frozen:
    """everything reachable from the roots, except for classes, functions
    and objects of the environment"""

    def __init__(self, s, *roots, skip=()):
        self.s, self.I = s, s.I
        self.before = {}
        self.skip = set(skip)
        for r in roots:
            self.add(r)

    def add(self, v):
        I = self.I
        stack = [v]
        while stack:
            v = stack.pop()
            if isinstance(v, Tup):
                stack.extend(v.items)
            elif isinstance(v, Star):
                for g, b in v.variants:
                    stack.extend(b)
            elif isinstance(v, Ref):
                o = I.heap.get(v.oid)
                if o is None or v.oid in self.before or o.kind not in OBJ \
                        or v.oid in self.skip:
                    continue
                stack.extend(o.attrs.values())
                if o.kind == 'inst' and isinstance(o.data, Ref):
                    stack.append(o.data)
                if o.kind in CONT:
                    data = []
                    for x in o.data:
                        if isinstance(x, DEntry):
                            stack.extend((x.key, x.val))
                            data.append((x.key, x.val, x.n))
                        else:
                            stack.append(x)
                            data.append(x)
                else:
                    data = None
                self.before[v.oid] = (o.kind, M.cls_name(I, o.cls)
                                      if o.kind == 'inst' else o.kind,
                                      dict(o.attrs), data)

    def watch(self, fn):
        """run fn; [(oid, slot, site)] of writes to the objects"""
        I = self.I
        self.writes = []

        def hook(I_, oid, o, slot):
            if oid in self.before and slot != '$cache':
                self.writes.append((oid, slot, I_.site()))
        old = I.write_hook
        I.write_hook = hook
        try:
            return fn()
        finally:
            I.write_hook = old

    def verify(self, rule, what):
        """nothing reads differently now"""
        s, I = self.s, self.I
        s.checked += 1
        sites = {}
        for oid, slot, site in self.writes:
            sites.setdefault(oid, site)
        for oid, site in sites.items():
            kind, name, attrs, data = self.before[oid]
            o = I.heap[oid]
            for k, v in attrs.items():
                if k not in o.attrs:
                    s.ok(False, rule, '%s: attribute %s of %s is removed' % (
                        what, k, name), site)
                else:
                    s.ok(self.same(v, o.attrs[k]), rule,
                         '%s: attribute %s of %s is changed from %s to %s' % (
                             what, k, name, s.show(v), s.show(o.attrs[k])),
                         site)
            if data is not None:
                self.container(rule, what, kind, data, o, site)

    def container(self, rule, what, kind, data, o, site):
        s = self.s
        now = [(x.key, x.val, x.n) if isinstance(x, DEntry) else x
               for x in o.data]
        if now == data:
            return
        was = ', '.join(self.show(x) for x in data)
        is_ = ', '.join(self.show(x) for x in now)
        msg = '%s: a %s is changed from {%s} to {%s}' % (what, kind, was, is_)
        if len(now) != len(data):
            s.ok(False, rule, msg, site)
            return
        res = True
        for a, b in zip(data, now):
            r = self.entry(a, b)
            if r is not True:
                res = r if res is True else (False if r is False else res)
        if res is not True and kind != 'list':
            left = list(now)
            res = True
            for a in data:
                hit = [b for b in left if self.entry(a, b) is True]
                if hit:
                    left.remove(hit[0])
                elif any(self.entry(a, b) is None for b in left):
                    res = None
                else:
                    res = False
                    break
        s.ok(res, rule, msg, site)

    def show(self, x):
        if isinstance(x, tuple):
            return '%s: %s' % (self.s.show(x[0]), self.s.show(x[1]))
        return self.s.show(x)

    def entry(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            r = self.same(a[0], b[0])
            return r if r is not True else self.same(a[1], b[1])
        return self.same(a, b)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Star) or isinstance(b, Star):
            return True if a == b else None
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return True
        I = self.I
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = I.heap.get(a.oid), I.heap.get(b.oid)
            if x is not None and y is not None and 'stub' in (x.kind, y.kind):
                return False
        return self.s.same3(a, b)
