"""C15: operations on inexact numbers are the IEEE operation on the converted
arguments, and inexactness is contagious."""
from . import prims
from .numbers import *

ALL = EXACT + INEXACT
D = 'double'


def conv(k, x, t):
    """The real x as a floating point term of type t."""
    kd, v = x
    return k.fcast(t, v) if kd == 'exact' or t == 'float' else v


def is32(k, t):
    """Values that are single precision already."""
    if not isinstance(t, tuple):
        return False
    if t[0] == 'fop':
        return t[1].endswith('f')
    if t[0] == 'neg' or t[0] == 'fn1' and t[1] in ('floor', 'ceil', 'trunc', 'nearbyint', 'fabs'):
        return is32(k, t[-1])
    return t[0] in ('toF', 'narrow') or t in k.float32


def zero_free(k, t):
    """Drops neutral operands (the sign of a zero result is not specified)."""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'fop':
        op = t[1] if t[1] == 'neg' else t[1].rstrip('f')
        a = [zero_free(k, x) for x in t[2:]]
        c = [qconst(x[1]) if isinstance(x, tuple) and x and x[0] in ('toD', 'toF') and isq(x[1]) else None for x in a]
        if op == 'neg':
            return ('neg', a[0]) if a[0][0] != 'neg' else a[0][1]
        if op in '+-' and c[1] == 0:
            return a[0]
        if op == '+' and c[0] == 0:
            return a[1]
        if op == '-' and c[0] == 0:
            return ('neg', a[1])
        for i in (0, 1):
            if op == '*' and c[i] == 1:
                return a[1 - i]
            if op == '*' and c[i] == -1:
                return ('neg', a[1 - i])
        if op == '/' and c[1] == 1:
            return a[0]
        return ('fop', t[1]) + tuple(sorted(a, key=repr) if op in '+*' else a)
    if t[0] == 'narrow':
        a = zero_free(k, t[1])
        return a if is32(k, a) else ('narrow', a)
    if t[0] == 'fn1':
        return ('fn1', {'rint': 'nearbyint', 'roundeven': 'nearbyint'}.get(t[1], t[1])) + tuple(zero_free(k, x) for x in t[2:])
    if t[0] in ('toD', 'toF') and isq(t[1]):
        return (t[0], k.norm(t[1]))
    return t


def expect_inexact(r, want):
    """(representation, term) or 'any'."""
    k = r.k
    if k.trap:
        return 'reaches an undefined operation: %s' % k.trap[0][0]
    if want == 'any':
        return None
    if r.raised:
        return 'raises %s' % r.raised
    kd, t = want
    if r.kind != kd:
        return 'is %s and not %s %s' % (outcome(r), kd, num_s(t))
    if zero_free(k, k.fnorm(r.value)) != zero_free(k, t):
        return 'is %s, not %s' % (num_s(zero_free(k, k.fnorm(r.value))), num_s(zero_free(k, t)))
    return None


def wider(*ks):
    return 'double' if 'double' in ks else 'float'


def specs():
    for name in '+-*/':
        for a in ALL:
            for b in ALL:
                if a in EXACT and b in EXACT:
                    continue
                t = wider(a, b)

                def arith(k, x, y, op=name, t=t):
                    return t, k.fop(op, conv(k, x, t), conv(k, y, t), t)
                yield 'arithmetic', name, (a, b), arith
        for ks in (('double', 'int', 'ratio'), ('int', 'double', 'double')):
            def three(k, x, y, z, op=name):
                return D, k.fop(op, k.fop(op, conv(k, x, D), conv(k, y, D), D), conv(k, z, D), D)
            if not (name in '*/' and ks[0] == 'int'):
                yield 'arithmetic', name, ks, three
        for a in INEXACT:
            yield 'arithmetic', name, (a,), lambda k, x, op=name, t=a: (t, {'+': x[1], '*': x[1], '-': k.fop('-', ('toD', qc(0)), x[1], t), '/': k.fop('/', ('toD', qc(1)), x[1], t)}[op])
    for name, f in (('floor', 'floor'), ('ceiling', 'ceil'), ('truncate', 'trunc'), ('round', 'nearbyint'), ('abs', 'fabs'), ('magnitude', 'fabs')):
        for a in INEXACT:
            yield 'rounding', name, (a,), lambda k, x, f=f, t=a: (t, ('fn1', f, x[1]))
    for name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log1p', 'erf', 'erfc', 'tgamma', 'lgamma'):
        for a in ALL:
            yield 'functions', name, (a,), lambda k, x, f=name: (D, ('fn1', f, conv(k, x, D)))
    for a in ALL:
        yield 'functions', 'log', (a,), lambda k, x: (D, ('fn1', 'log', conv(k, x, D)))
        yield 'exactness', 'inexact', (a,), lambda k, x: (D, conv(k, x, D))
        for b in ALL:
            for name, f in (('atan', 'atan2'), ('copysign', 'copysign'), ('nextafter', 'nextafter')):
                yield 'functions', name, (a, b), lambda k, x, y, f=f: (D, ('fn1', f, conv(k, x, D), conv(k, y, D)))
            yield 'functions', 'log', (a, b), lambda k, x, y: (D, k.fop('/', ('fn1', 'log', conv(k, x, D)), ('fn1', 'log', conv(k, y, D)), D))
            if a in INEXACT or b not in INTEGERS:
                yield 'functions', 'expt', (a, b), lambda k, x, y: (D, ('fn1', 'pow', conv(k, x, D), conv(k, y, D)))
    for name, pick in (('max', 1), ('min', -1)):
        for a in ALL:
            for b in ALL:
                if a in EXACT and b in EXACT:
                    continue

                def ext(k, x, y, p=pick):
                    s = k.fsign(x[1], y[1])
                    return 'any' if s is None else (D, conv(k, x, D), conv(k, y, D), s * p)
                yield 'extrema', name, (a, b), ext


def expect_extreme(r, want):
    """Either of two equal numbers will do."""
    if want == 'any':
        return None
    kd, x, y, s = want
    first, second = expect_inexact(r, (kd, x)), expect_inexact(r, (kd, y))
    if s == 0:
        return first and second
    return first if s > 0 else second


def check(r, F):
    R = prims.registry(F)
    r.rule('the value on every path is the IEEE operation or C library function on the converted arguments, in argument order, and its representation is inexact')
    r.assume('the C library functions and the IEEE operations compute what their names say; the sign of a zero result is not compared')
    for fam, name, kinds, spec in specs():
        judge(r, F, R, fam, name, kinds, spec, expect=expect_extreme if fam == 'extrema' else expect_inexact)
