"""Expected selections, written in Python, and their comparison with a query
object of the analysed program."""
from .values import *   # noqa
from . import models as M


def F(name, alias=None, **o):
    return ('f', name, alias or name, o or None, None)


def L(name, *sub, alias=None, **o):
    return ('l', name, alias or name, o or None, list(sub))


def value(s, x):
    """a value of the program from a Python one; values of the program are
    allowed inside"""
    if isinstance(x, (Const, Sym, Ref, Tup, Star, Ext, Bi)):
        return x
    if isinstance(x, list):
        return s.list(*[value(s, i) for i in x])
    if isinstance(x, tuple):
        return Tup([value(s, i) for i in x])
    if isinstance(x, dict):
        return s.dict_of([(value(s, k), value(s, v)) for k, v in x.items()])
    return Const(x)


def opts(s, o):
    return value(s, o or {})


def is_link(s, x):
    return M.isinstance_(s.I, x, s.get('hiku.query:Link'))


def show_sel(s, x):
    kind, name, key, o, sub = x
    return '%s%s%s%s' % (
        key + ': ' if key != name else '', name,
        '(%s)' % ', '.join('%s: %s' % (k, s.show(value(s, v)))
                           for k, v in o.items()) if o else '',
        '{}' if kind == 'l' else '')


def text(s, v):
    v = s.I.resolve(v)
    return v.v if isinstance(v, Const) else s.show(v)


def selections(s, node):
    """[(object, kind, name, result key, options)] of a query node"""
    out = []
    for x in M.segs_of(s.I, s.attr(node, 'fields')):
        if isinstance(x, Star):
            out.append((x, '*', None, None, None))
            continue
        name, alias = s.attr(x, 'name'), s.attr(x, 'alias')
        key = name if alias == NONE else alias
        o = s.attr(x, 'options')
        out.append((x, 'l' if is_link(s, x) else 'f', text(s, name),
                    text(s, key), s.dict() if o == NONE else o))
    return out


def compare(s, node, want, rule, what='query', order=False, new=None):
    got = selections(s, node)
    left = list(want)
    seen = []
    for x, kind, name, key, o in got:
        hit = None
        for w in left:
            if (kind, name, key) == w[:3] and s.same3(
                    o, opts(s, w[3])) is True:
                hit = w
                break
        if hit is None:
            near = [w for w in left if w[1] == name and w[2] == key]
            s.ok(False, new or rule, '%s: %s%s is selected with %s%s' % (
                what, '' if key == name else '%s: ' % key, name, s.show(o),
                ', as a ' + {'l': 'link', 'f': 'field', '*': 'number'}[kind]
                if near and near[0][0] != kind else ''))
            continue
        s.checked += 1
        left.remove(hit)
        seen.append(hit)
        if hit[4] is not None:
            compare(s, s.attr(x, 'node'), hit[4], rule,
                    '%s of %s' % (hit[2], what), new=new)
    for w in left:
        s.ok(False, rule, '%s: %s is not selected' % (what, show_sel(s, w)))
    if order and not left:
        s.ok(seen == [w for w in want if w in seen], rule,
             '%s: the selections are reordered: %s' % (
                 what, ', '.join(show_sel(s, w) for w in seen)))
