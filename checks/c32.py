"""EDN: numbers are read as the numbers which were written."""
from decimal import Decimal

from hikustat.values import *   # noqa
from checks import c22
from checks.c22 import V, L, S, P, T, K, check

R_NUM = 'C32.numbers'
R_BOX = 'C32.containers'

INTS = [0, 1, -1, 7, -8, 9, 10, -10, 19, 99, 100, -1234567890, 2 ** 31,
        -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64 + 1,
        10 ** 30, -10 ** 30 - 1, 12345678901234567890123456789]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1.5, -2.5, 0.001, 0.0001,
          100.0, 1234.5678, 1e15, 1e16, -1e16, 1e17, 1e22, 1.5e300, -1.5e300,
          1e-05, -1e-05, 1.5e-07, 5e-324, -5e-324, 2.2250738585072014e-308,
          1.7976931348623157e+308, 3.141592653589793, 0.30000000000000004,
          123456789012345.67, 9007199254740993.0]
DECIMALS = [Decimal(x) for x in (
    '0', '1', '-1', '10', '1.5', '-1.5', '0.1', '-0.1', '100', '1.50',
    '0.000001', '1E+5', '-1E+5', '1.5E+10', '1E-10', '-1.5E-10', '0E-8',
    '1E+300', '12345678901234567890.123456789012345678901234567890',
    '9' * 40, '-0.00')]
KINDS = {'integers': INTS, 'fractions': FLOATS, 'decimals': DECIMALS}


def run(c):
    c.rule(R_NUM, 'a finite number is read as an equal number of the same '
           'kind')
    c.rule(R_BOX, 'inside of collections and next to other values too')
    for n, xs in KINDS.items():
        for i in range(0, len(xs), 7):
            c.scenario('%s: %s' % (n, ' '.join(map(str, xs[i:i + 7])))[:70],
                       lambda s, xs=xs[i:i + 7]: alone(s, xs), R_NUM)
    for n, xs in KINDS.items():
        for x in xs:
            c.scenario('%s in collections: %s' % (n, x),
                       lambda s, x=x: boxed(s, x), R_BOX, cost=2)
    c.scenario('digits', digits, R_NUM)


def alone(s, xs):
    for x in xs:
        c22.round_trip(s, x, R_NUM)


def digits(s):
    for d in range(100):
        check(s, d, R_NUM)
        check(s, -d, R_NUM)
        check(s, d / 100 + 1, R_NUM)
        check(s, float('1e%d' % d), R_NUM)
        check(s, float('-1.%de-%d' % (d, d)), R_NUM)
        check(s, Decimal('1.%dE+%d' % (d, d)), R_NUM)
        check(s, Decimal('-1E-%d' % d), R_NUM)


OTHERS = [None, True, 0, -1, 1.5, -1e-07, Decimal('1.5'), 'a', '', K('a'),
          V(()), L(()), P(()), S(()), T(('t', None))]


def boxed(s, x):
    check(s, V((x,)), R_BOX)
    check(s, L((x,)), R_BOX)
    check(s, S((x,)), R_BOX)
    check(s, P((x, x)), R_BOX)
    check(s, T(('t', x)), R_BOX)
    check(s, V((T(('t', x)), V((L((x,)), P((K('a'), x)))))), R_BOX)
    for y in OTHERS:
        check(s, V((x, y, x)), R_BOX)
        check(s, L((y, x)), R_BOX)
        check(s, P((K('a'), x, K('b'), y)), R_BOX)
