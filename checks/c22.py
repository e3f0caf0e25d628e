"""EDN: what the writer writes, the reader reads as the same value."""
import ast
import datetime
import uuid

from hikustat import driver

from hikustat.values import *   # noqa

R_STR = 'C22.strings'
R_LIT = 'C22.literals'
R_BOX = 'C22.containers'
R_OWN = 'C22.rejected'

U = uuid.UUID('678d88b2-87b0-403b-b63d-5da7465aecc3')
D = datetime.datetime(2021, 3, 4, 5, 6, 7, 89)

# code points at the borders of what strings are made of
POINTS = sorted(set(range(0x100)) | {
    0x100, 0x17f, 0x394, 0x660, 0x7ff, 0x800, 0x1680, 0x2000, 0x2028, 0x2029,
    0x202f, 0x205f, 0x20ac, 0x3000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfeff,
    0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600,
    0xfffff, 0x100000, 0x10fffe, 0x10ffff})
# characters which may mean something next to each other
NEAR = '\\"/abfnrtuvxU0189dD;#[]{}(): ,\0\x07\b\t\n\x0b\f\r\x1b\x1f\x7f' \
       '\x80\xff\u0660\u2028\ud7ff\ue000\uffff\U00010000\U0010ffff'


class K(str):
    """keyword"""


class Y(str):
    """symbol"""


class V(tuple):
    """vector"""


class L(tuple):
    """list"""


class S(tuple):
    """set"""


class P(tuple):
    """map: keys and values in turn"""


class T(tuple):
    """tagged value: name, value"""


def run(c):
    c.rule(R_STR, 'every string is read as it was written, with and without '
           'ASCII-only output, whatever stands next to it')
    c.rule(R_LIT, 'null, booleans, keywords, symbols, instants, UUIDs and '
           'tagged values are read as they were written')
    c.rule(R_BOX, 'lists, vectors, sets and maps of anything are read as '
           'they were written: same kind, same elements, same order')
    c.rule(R_OWN, 'a value which has no EDN form is given to the default or '
           'rejected, never written as something else')
    for asc in (True, False):
        w = 'ASCII' if asc else 'any'
        pts = sorted(set(POINTS) | harvest(c))
        for i in range(0, len(pts), 24):
            c.scenario('%s output: characters from %x' % (w, pts[i]),
                       lambda s, p=pts[i:i + 24], asc=asc: single(s, p, asc),
                       R_STR)
        for ch in NEAR:
            c.scenario('%s output: characters next to %x' % (w, ord(ch)),
                       lambda s, ch=ch, asc=asc: pairs(s, ch, asc), R_STR)
        c.scenario('%s output: strings in other values' % w,
                   lambda s, asc=asc: inside(s, asc), R_STR, cost=2)
    for n, x in LITERALS.items():
        c.scenario('literal: ' + n, lambda s, x=x: literal(s, x), R_LIT)
    for n, x in LITERALS.items():
        for kind in (V, L, S, P):
            c.scenario('%s with %s' % (kind.__doc__.split(':')[0], n),
                       lambda s, n=n, kind=kind: boxed(s, n, kind), R_BOX)
    for n, x in DEEP.items():
        c.scenario('nested: ' + n, lambda s, x=x: round_trip(s, x, R_BOX),
                   R_BOX)
    for n, (src, want) in PLAIN.items():
        c.scenario('Python value: ' + n,
                   lambda s, src=src, want=want: plain(s, src, want), R_BOX)
    c.scenario('unknown values', unknown, R_OWN)


def harvest(c):
    """characters and numbers hiku/edn.py speaks of"""
    out = set()
    with open(driver.REPO + '/hiku/edn.py') as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str) and len(n.value) < 20:
                out |= {ord(ch) for ch in n.value}
            elif type(n.value) is int:
                out |= {x for x in (n.value - 1, n.value, n.value + 1)
                        if 0 <= x <= 0x10ffff}
    return {x for x in out if not 0xd800 <= x < 0xe000}


# ---------------------------------------------------------------------------

def build(s, x):
    if isinstance(x, K):
        return s.mk('hiku.edn:Keyword', Const(str(x)))
    if isinstance(x, Y):
        return s.mk('hiku.edn:Symbol', Const(str(x)))
    if isinstance(x, T):
        return s.mk('hiku.edn:TaggedElement', Const(x[0]), build(s, x[1]))
    if isinstance(x, P):
        return s.mk('hiku.edn:Dict', s.list(*[
            Tup([build(s, a), build(s, b)]) for a, b in zip(x[::2],
                                                            x[1::2])]))
    for k, n in ((V, 'List'), (L, 'Tuple'), (S, 'Set')):
        if isinstance(x, k):
            return s.mk('hiku.edn:' + n, s.list(*[build(s, y) for y in x]))
    return Const(x)


def is_(s, v, x):
    """is v the value x"""
    I = s.I
    v = I.resolve(v)
    if isinstance(v, Sym):
        return None
    names = {K: 'Keyword', Y: 'Symbol', T: 'TaggedElement', P: 'Dict',
             V: 'List', L: 'Tuple', S: 'Set'}
    if type(x) not in names:
        return isinstance(v, Const) and type(v.v) is type(x) and v.v == x
    if not isinstance(v, Ref) or I.o(v).cls != s.get(
            'hiku.edn:' + names[type(x)]):
        return False
    if isinstance(x, (K, Y)):
        return I.o(v).data == Const(str(x))
    if isinstance(x, T):
        return all3([is_(s, s.attr(v, 'name'), x[0]),
                     is_(s, s.attr(v, 'value'), x[1])])
    if isinstance(x, P):
        es = I.o(v).data
        if any(e.n or e.guard for e in es):
            return None
        if len(es) != len(x) // 2:
            return False
        left = [(x[i], x[i + 1]) for i in range(0, len(x), 2)]
        for e in es:
            m = [y for y in left if all3([is_(s, e.key, y[0]),
                                          is_(s, e.val, y[1])])]
            if not m:
                return False
            left.remove(m[0])
        return True
    segs = s.segs(v)
    if any(isinstance(g, Star) for g in segs):
        return None
    if len(segs) != len(x):
        return False
    if isinstance(x, S):
        left = list(x)
        for g in segs:
            m = [y for y in left if is_(s, g, y)]
            if not m:
                return False
            left.remove(m[0])
        return True
    return all3([is_(s, a, b) for a, b in zip(segs, x)])


def all3(rs):
    return False if False in rs else None if None in rs else True


def trip(s, v, asc=None):
    s.I.while_limit = 1 << 20
    kw = {} if asc is None else {'ensure_ascii': Const(asc)}
    text = s.mk('hiku.edn:dumps', v, **kw)
    text = s.I.resolve(text)
    if not isinstance(text, Const) or type(text.v) is not str:
        return text, Sym(('read', s.I.term(text)), 'any')
    return text, s.mk('hiku.edn:loads', text)


def check(s, x, rule, asc=None, v=None):
    try:
        text, back = trip(s, v if v is not None else build(s, x), asc)
    except AbsRaise as e:
        s.fail(rule, '%s: writing or reading raised %s' % (
            ascii(x), s.show(e.val)), e.stack[-1] if e.stack else None)
        return
    if asc and isinstance(text, Const):
        s.ok(text.v.isascii(), rule, 'ASCII-only output of %s is %s' % (
            ascii(x), ascii(text.v)))
    s.ok(is_(s, back, x), rule, '%s is written as %s and read as %s' % (
        ascii(x), ascii(getattr(text, 'v', None) or s.show(text)),
        ascii(getattr(back, 'v', None) or s.show(back))))


def round_trip(s, x, rule):
    check(s, x, rule, True)
    check(s, x, rule, False)


def single(s, pts, asc):
    for p in pts:
        check(s, chr(p), R_STR, asc)


def pairs(s, ch, asc):
    check(s, ''.join(ch + x for x in NEAR) + ch + ch, R_STR, asc)
    check(s, ch + 'x' + ch + ' ' + ch, R_STR, asc)


def inside(s, asc):
    for x in ('', '"', '\\', ']', ' ', 'a', ';', '\n', '\U0001f600', 'é'):
        check(s, V((x, 'z', x)), R_STR, asc)
        check(s, P((x, x, 'k', V((x,)))), R_STR, asc)
        check(s, T(('t', x)), R_STR, asc)
        check(s, V((T(('t', x)), S((x,)))), R_STR, asc)
    check(s, 'nil', R_STR, asc)
    check(s, ':a', R_STR, asc)
    check(s, '#inst "2021-03-04T05:06:07.000089Z"', R_STR, asc)


LITERALS = {
    'null': None, 'true': True, 'false': False, 'keyword': K('foo'),
    'keyword with a namespace': K('foo.bar/b-a_z1'), 'symbol': Y('foo'),
    'keyword true': K('true'), 'keyword nil': K('nil'),
    'symbol of the reader': Y('truest'), 'symbol nils': Y('nils/x'),
    'symbol newline': Y('newline'),
    'string': 'foo', 'string nil': 'nil', 'zero': 0, 'number': 42,
    'negative': -7, 'fraction': 1.5,
    'instant': D, 'instant without microseconds':
    datetime.datetime(1999, 12, 31, 23, 59, 59),
    'uuid': U, 'tagged string': T(('foo/bar', 'baz')),
    'tagged null': T(('t', None)), 'tagged true': T(('t', True)),
    'tagged keyword': T(('t', K('a'))), 'tagged symbol': T(('t', Y('a'))),
    'tagged number': T(('t', 12)), 'tagged vector': T(('t', V((1, 'a')))),
    'tagged list': T(('t', L(()))), 'tagged map': T(('t', P((K('a'), 1)))),
    'tagged set': T(('t', S((K('a'),)))),
    'tagged tagged': T(('t', T(('u', None)))),
    'tagged tagged string': T(('t', T(('u', 'x')))),
    'tagged instant': T(('t', D)),
    'empty vector': V(()), 'empty list': L(()), 'empty set': S(()),
    'empty map': P(()), 'vector': V((1, None)), 'list': L((True, K('a'))),
    'set': S((1, 'a')), 'map': P((K('a'), V(('b',)))),
}


def literal(s, x):
    round_trip(s, x, R_LIT)


def hashable(x):
    return not isinstance(x, T) and not (
        isinstance(x, (V, L, P)) and not all(hashable(y) for y in x))


def boxed(s, n, kind):
    """the value next to each of the others"""
    x = LITERALS[n]
    if kind is S:
        if not hashable(x):
            return
        check(s, S((x,)), R_BOX)
        for y in LITERALS.values():
            if hashable(y) and y != x:
                check(s, S((x, y)), R_BOX)
    elif kind is P:
        check(s, P((K('k'), x)), R_BOX)
        for y in LITERALS.values():
            check(s, P((K('k'), x, K('l'), y)), R_BOX)
            if hashable(x):
                check(s, P((x, y)), R_BOX)
    else:
        check(s, kind((x,)), R_BOX)
        for y in LITERALS.values():
            check(s, kind((x, y)), R_BOX)
        check(s, kind((x, x, x)), R_BOX)


DEEP = {
    'boxes in boxes': V((L((S((P((K('a'), V((L((1,)),)))),)),)), V((V(()),)))),
    'closing together': V((V((V((None,)), L((K('a'),)))), P((K('b'), V((
        Y('c'),)))))),
    'a query': V((K('foo'), L((K('bar'), P((K('limit'), 10)))), P((
        L((K('baz'), P((K('a'), V((1, 2)))))), V((K('x'), K('y'))))), )),
    'keys of several kinds': P((K('a'), 1, 'a', 2, 3, 4, V((1,)), 5,
                                None, 6)),
    'tags among others': V((T(('t', Y('a'))), T(('t', None)), P((K('a'), T((
        't', 1)))), T(('t', L((T(('u', True)),)))))),
}

PLAIN = {
    'list': ('[1, [None, "a"]]', V((1, V((None, 'a'))))),
    'tuple': ('(1, (True,))', L((1, L((True,))))),
    'dict': ('{"a": {"b": []}}', P(('a', P(('b', V(())))))),
    'set': ('{"a"}', S(('a',))),
    'mixed': ('[(1, {"a": {2}}), []]', V((L((1, P(('a', S((2,)))))),
                                          V(())))),
    'booleans and numbers': ('[True, 1, False, 0, 1.0]',
                             V((True, 1, False, 0, 1.0))),
}


def plain(s, src, want):
    f = s.code('def f():\n    return ' + src, 'f')
    for asc in (True, False):
        check(s, want, R_BOX, asc, s.I.call(f, [], {}))


def unknown(s):
    I = s.I
    for v in (s.stub(None), Const(b'x')):
        try:
            r = s.mk('hiku.edn:dumps', v)
        except AbsRaise as e:
            s.ok(s.is_exc(e.val, 'ValueError') or s.is_exc(
                e.val, 'TypeError'), R_OWN, 'an unknown value is rejected '
                'with %s' % s.show(e.val))
        else:
            s.fail(R_OWN, 'an unknown value was written as %s' % s.show(r))
    f = s.code('def f(v):\n    return ["given", None]', 'f')
    for box, want in ((lambda v: v, V(('given', None))),
                      (lambda v: s.list(v, v),
                       V((V(('given', None)), V(('given', None))))),
                      (lambda v: s.dict(a=v), P(('a', V(('given', None))))),):
        text = s.mk('hiku.edn:dumps', box(s.stub(None)), default=f)
        s.ok(is_(s, s.mk('hiku.edn:loads', text), want), R_OWN,
             'written by default: %s' % s.show(text))
