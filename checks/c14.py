"""C14: comparisons and classification of numbers follow their values."""
from . import prims
from .numbers import *

ALL = EXACT + INEXACT
ORDER = {'<': lambda s: s < 0, '>': lambda s: s > 0, '<=': lambda s: s <= 0, '>=': lambda s: s >= 0, '=': lambda s: s == 0}


def order(k, a, b):
    """Sign of a - b; None if one of them is not a number."""
    (ka, va), (kb, vb) = a, b
    if ka == kb == 'exact':
        return k.sign(qsub(va, vb))
    return k.fsign(va, vb)


def specs():
    """(family, procedure, argument representations, label, specification)."""
    for name, f in ORDER.items():
        for a in ALL:
            for b in ALL:
                exact = a in EXACT and b in EXACT
                if name == '=' and not exact and (a in INEXACT + ('ratio',) and b in INEXACT + ('ratio',)):
                    continue     # equality up to the precision of the type is documented

                def numbers(k, x, y, f=f):
                    s = order(k, x, y)
                    return 'any' if s is None else f(s)

                def nans(k, x, y):
                    return False if order(k, x, y) is None else 'any'
                yield 'order', name, (a, b), '', numbers
                if not exact:
                    yield 'order of NaN', name, (a, b), '', nans
        for ks in (('int', 'int', 'int'), ('ratio', 'large_integer', 'int')):
            yield 'order', name, ks, '', lambda k, x, y, z, f=f: f(order(k, x, y)) and f(order(k, y, z))
        yield 'order', name, ('int',), '', lambda k, x: True
    for name, f in (('zero?', lambda s: s == 0), ('positive?', lambda s: s > 0), ('negative?', lambda s: s < 0)):
        for a in ALL:
            def against(k, x, f=f):
                s = order(k, x, ('exact', qc(0)))
                return False if s is None else f(s)
            if name == 'zero?' and a in INEXACT:
                continue
            yield 'sign', name, (a,), '', against
    for a in INTEGERS:
        yield 'parity', 'odd?', (a,), '', lambda k, x: k.odd(x[1])
        yield 'parity', 'even?', (a,), '', lambda k, x: not k.odd(x[1])
    for a in ALL:
        inexact = a in INEXACT
        for name in ('number?', 'complex?', 'real?'):
            yield 'class', name, (a,), '', lambda k, x: True
        yield 'class', 'exact?', (a,), '', lambda k, x, i=inexact: not i
        yield 'class', 'inexact?', (a,), '', lambda k, x, i=inexact: i
        yield 'class', 'exact-integer?', (a,), '', lambda k, x, i=a in INTEGERS: i

        def finite(k, x, i=inexact):
            return not i or not k.isnan(x[1]) and not k.isinf(x[1])
        yield 'class', 'finite?', (a,), '', finite
        yield 'class', 'rational?', (a,), '', finite
        yield 'class', 'infinite?', (a,), '', lambda k, x, i=inexact: i and not k.isnan(x[1]) and k.isinf(x[1])
        yield 'class', 'nan?', (a,), '', lambda k, x, i=inexact: i and k.isnan(x[1])

        def integer(k, x, a=a):
            if a in INTEGERS:
                return True
            if a == 'ratio':
                return k.sign(qsub(k.den_of(x[1]), qc(1))) == 0
            if not finite(k, x, True):
                return False
            return k.fsign(x[1], ('fn1', 'trunc', x[1])) == 0
        yield 'class', 'integer?', (a,), '', integer


def check(r, F):
    R = prims.registry(F)
    r.rule('the truth value on every path equals the order of the values, partitioned by the sign of their difference; NaN is unordered')
    r.rule('classification predicates agree with the representation and value of their argument on every path')
    r.assume('converting an exact number to floating point preserves its order (rounding of conversions is not modelled)')
    for fam, name, kinds, label, spec in specs():
        judge(r, F, R, fam, name, kinds, spec, expect=expect_bool, label=label)
