"""C13: arithmetic on exact numbers computes the exact mathematical result."""
from . import prims
from .numbers import *


def specs():
    """(family, procedure, argument representations, specification)."""
    E, Z = EXACT, INTEGERS
    for name, f in (('+', qadd), ('-', qsub), ('*', qmul)):
        for a in E:
            for b in E:
                yield 'arithmetic', name, (a, b), lambda k, x, y, f=f: f(x, y)
    for a in E:
        for b in E:
            yield 'division', '/', (a, b), lambda k, x, y: 'raise' if k.sign(y) == 0 else qdiv(x, y)
    for a in E:
        yield 'arithmetic', '-', (a,), lambda k, x: qneg(x)
        yield 'arithmetic', '+', (a,), lambda k, x: x
        yield 'arithmetic', '*', (a,), lambda k, x: x
        yield 'division', '/', (a,), lambda k, x: 'raise' if k.sign(x) == 0 else qdiv(qc(1), x)
        yield 'arithmetic', 'abs', (a,), lambda k, x: qneg(x) if k.sign(x) < 0 else x
        yield 'arithmetic', 'magnitude', (a,), lambda k, x: qneg(x) if k.sign(x) < 0 else x
        yield 'parts', 'numerator', (a,), lambda k, x: k.num_of(x)
        yield 'parts', 'denominator', (a,), lambda k, x: k.den_of(x)
        yield 'parts', 'exact', (a,), lambda k, x: x
        yield 'rounding', 'floor', (a,), lambda k, x: k.floor(x)
        yield 'rounding', 'ceiling', (a,), lambda k, x: k.ceil(x)
        yield 'rounding', 'truncate', (a,), lambda k, x: k.trunc(x)
        yield 'rounding', 'round', (a,), lambda k, x: k.nearest(x)
    for name, f in (('+', qadd), ('-', qsub), ('*', qmul)):
        for ks in (('int', 'int', 'int'), ('int', 'large_integer', 'ratio'), ('ratio', 'ratio', 'ratio')):
            yield 'arithmetic', name, ks, lambda k, x, y, z, f=f: f(f(x, y), z)
    yield 'division', '/', ('int', 'int', 'ratio'), lambda k, x, y, z: 'raise' if k.sign(y) == 0 or k.sign(z) == 0 else qdiv(qdiv(x, y), z)

    def divs(t):
        def q(k, x, y):
            return 'raise' if k.sign(y) == 0 else getattr(k, t)(qdiv(x, y))

        def r(k, x, y):
            return 'raise' if k.sign(y) == 0 else qsub(x, qmul(y, getattr(k, t)(qdiv(x, y))))
        return q, r
    tq, tr = divs('trunc')
    fq, fr = divs('floor')
    for a in Z:
        for b in Z:
            yield 'integer division', 'quotient', (a, b), tq
            yield 'integer division', 'remainder', (a, b), tr
            yield 'integer division', 'modulo', (a, b), fr
            yield 'divisors', 'gcd', (a, b), lambda k, x, y: k.gcd(x, y)
            yield 'divisors', 'lcm', (a, b), lambda k, x, y: k.lcm(x, y)
    for a in Z:
        yield 'divisors', 'gcd', (a,), lambda k, x: k.gcd(x, qc(0))
        yield 'divisors', 'lcm', (a,), lambda k, x: qneg(x) if k.sign(x) < 0 else x
    for a in E:
        for b in Z:
            yield 'powers', 'expt', (a, b), power

    for name, pick in (('max', 1), ('min', -1)):
        for a in E:
            for b in E:
                yield 'extrema', name, (a, b), lambda k, x, y, p=pick: x if k.sign(qsub(x, y)) * p >= 0 else y
        yield 'extrema', name, ('int', 'ratio', 'large_integer'), lambda k, x, y, z, p=pick: big(k, p, big(k, p, x, y), z)
    for name, op in (('bitwise-and', '&'), ('bitwise-ior', '|'), ('bitwise-xor', '^')):
        for a in Z:
            for b in Z:
                yield 'bits', name, (a, b), lambda k, x, y, op=op: bits(k, op, x, y)
    for a in Z:
        yield 'bits', 'bitwise-not', (a,), lambda k, x: qsub(qc(-1), x)
        yield 'roots', 'exact-integer-square-root', (a,), isqrt
        yield 'roots', 'sqrt', (a,), 'root'
    yield 'roots', 'sqrt', ('ratio',), 'root'


def bits(k, op, x, y):
    return k.bits(op, x, y)


def isqrt(k, x):
    if k.sign(x) < 0:
        return 'raise'
    s = k.isqrt(x)
    return s, qsub(x, qmul(s, s))


def expect_root(r, x):
    """An exact result is a square root; a square has an exact one."""
    k = r.k
    if k.trap:
        return 'reaches an undefined operation: %s' % k.trap[0][0]
    if r.raised:
        return 'raises %s' % r.raised
    if r.kind == 'exact' and isq(r.value):
        v = r.value
        if not same(k, qmul(v, v), x):
            return 'is %s, whose square is %s and not the argument' % (num_s(v), num_s(qmul(v, v)))
        return 'is the negative root' if k.sign(v) < 0 else None
    return None


def expect_pair(r, want):
    k = r.k
    if k.trap:
        return 'reaches an undefined operation: %s' % k.trap[0][0]
    if want == 'any':
        return None
    if want == 'raise':
        return None if is_error(r.raised) else 'does not raise an error but is %s' % outcome(r)
    if r.raised:
        return 'raises %s' % r.raised
    v = r.k.result
    if k.dyntype(v) != 'pair':
        return 'is %s, not a pair' % show(v)
    for s, w in (('car', want[0]), ('cdr', want[1])):
        kd, x = k.numval(k.load(LV((s, v))))
        if kd != 'exact' or not isq(x):
            return 'has the %s %s, which is not an exact number' % (s, show(x))
        if not qeq(k.norm(x), k.norm(w)):
            return 'has the %s %s, not %s' % (s, num_s(x), num_s(w))
    return None


def big(k, p, x, y):
    return x if k.sign(qsub(x, y)) * p >= 0 else y


def power(k, x, y):
    s = k.sign(y)
    if s < 0 and k.sign(x) == 0:
        return 'raise'
    e = qneg(y) if s < 0 else y
    fits = k.sign(qsub(e, qc(2 ** 64 - 1))) <= 0
    if not fits:
        return 'any'
    n, d = k.power(k.num_of(x), e), k.power(k.den_of(x), e)
    return qdiv(d, n) if s < 0 else qdiv(n, d)


SHIFTS = (0, 1, -1, 2, 31, -31, 32, -32, 33, -33, 63, -63, 64, -64, 100, -100)


def shifts(r, F, R):
    """bit-shift by constant distances around the word sizes."""
    for kd in INTEGERS:
        for n in SHIFTS:
            judge(r, F, R, 'shifts', 'bit-shift', (kd, 'int'), lambda k, x, y, n=n: shifted(k, x, n),
                  build=lambda k, kd=kd, n=n: [k.number('x', kd), ('imm', 'int', qc(n))], label=' by %d' % n)


def shifted(k, x, n):
    return qmul(x, qc(1 << n)) if n >= 0 else k.floor(qmul(x, qc(1, 1 << -n)))


def cplx(k, name, parts):
    k.parts = parts
    return k.number(name, 'complex')


def expect_complex(r, want):
    """Real and imaginary part, as exact values."""
    k = r.k
    if k.trap:
        return 'reaches an undefined operation: %s' % k.trap[0][0]
    if want == 'any':
        return None
    if r.raised:
        return None if want == 'raise' and is_error(r.raised) else 'raises %s' % r.raised
    if want == 'raise':
        return 'does not raise an error but is %s' % outcome(r)
    parts = [k.numval(x) for x in r.value] if r.kind == 'complex' else [(r.kind, r.value), ('exact', qc(0))]
    for (kd, v), w, s in zip(parts, want, ('real', 'imaginary')):
        if kd != 'exact' or not isq(v):
            return 'has a %s part that is not exact' % s
        if not same(k, v, w):
            return 'has the %s part %s, not %s' % (s, num_s(v), num_s(w))
    return None


def complexes(r, F, R):
    """Arithmetic on complex numbers with exact parts."""
    C = ('int', 'large_integer'), ('ratio', 'int')

    def z(k, x):
        kd, v = x
        return (v, qc(0)) if kd == 'exact' else tuple(k.numval(p)[1] for p in v)
    ops = {'+': lambda k, x, y: (qadd(x[0], y[0]), qadd(x[1], y[1])),
           '-': lambda k, x, y: (qsub(x[0], y[0]), qsub(x[1], y[1])),
           '*': lambda k, x, y: (qsub(qmul(x[0], y[0]), qmul(x[1], y[1])), qadd(qmul(x[0], y[1]), qmul(x[1], y[0])))}

    def quotient(k, x, y):
        n = qadd(qmul(y[0], y[0]), qmul(y[1], y[1]))
        if k.sign(n) == 0:
            return 'raise'
        a, b = ops['*'](k, x, (y[0], qneg(y[1])))
        return qdiv(a, n), qdiv(b, n)
    ops['/'] = quotient
    for name, f in ops.items():
        L = ('large_integer', 'large_integer')
        for a, b in ((L, L), (L, 'large_integer'), ('large_integer', L)) if name == '/' else ((C[0], C[1]), (C[1], C[0]), (C[0], 'int'), (C[1], 'ratio'), ('large_integer', C[1]), ('int', C[0]), ('ratio', C[0]), (C[0], 'large_integer')):
            def build(k, a=a, b=b):
                return [k.number(n, t) if isinstance(t, str) else cplx(k, n, t) for n, t in (('x', a), ('y', b))]
            judge(r, F, R, 'complex', name, [t if isinstance(t, str) else '%s+%s*i' % t for t in (a, b)],
                  lambda k, x, y, f=f: f(k, z(k, x), z(k, y)), build=build, expect=expect_complex)
    for name, i in (('real-part', 0), ('imag-part', 1)):
        for a in C + EXACT:
            judge(r, F, R, 'complex', name, [a if isinstance(a, str) else '%s+%s*i' % a],
                  lambda k, x, i=i: (z(k, x)[i], qc(0)), expect=expect_complex,
                  build=lambda k, a=a: [k.number('x', a) if isinstance(a, str) else cplx(k, 'x', a)])
    for a in EXACT:
        for b in EXACT:
            judge(r, F, R, 'complex', 'make-rectangular', (a, b), lambda k, x, y: (x[1], y[1]), expect=expect_complex)


def check(r, F):
    R = prims.registry(F)
    r.rule('for exact arguments of every representation, the value on every path equals the mathematical function of the arguments as a normalised rational function, and is an exact number')
    r.rule('an exact division by zero raises an error on every path that reaches it')
    for fam, name, kinds, spec in specs():
        if spec == 'root':
            judge(r, F, R, fam, name, kinds, lambda k, x: x[1], expect=expect_root)
        elif spec is isqrt:
            judge(r, F, R, fam, name, kinds, lambda k, x: isqrt(k, x[1]), expect=expect_pair)
        else:
            judge(r, F, R, fam, name, kinds, spec)
    shifts(r, F, R)
    complexes(r, F, R)
