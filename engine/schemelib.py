"""Models of the primitive procedures, and the library system, for engine.scheme."""
import glob
import math
import os
import sys
from fractions import Fraction
from .scheme import *
from .scheme import _Single

sys.setrecursionlimit(20000)

P = {}


def prim(*names):
    def deco(f):
        for n in names:
            P[n] = f
        return f
    return deco


# ---------------------------------------------------------------- type tests

EXCLUSIVE = ('pair?', 'null?', 'symbol?', 'string?', 'char?', 'boolean?', 'number?', 'vector?', 'procedure?', 'eof-object?', 'port?', 'box?', 'bytevector?', 'error-object?')


def concrete_type(x):
    if isinstance(x, Pair):
        return 'pair?'
    if x is NIL:
        return 'null?'
    if isinstance(x, Sym):
        return 'symbol?'
    if isinstance(x, Str):
        return 'string?'
    if isinstance(x, Char):
        return 'char?'
    if isinstance(x, bool):
        return 'boolean?'
    if isinstance(x, (int, Fraction, float)):
        return 'number?'
    if isinstance(x, Vec):
        return 'vector?'
    if isinstance(x, (Closure, Prim, Kont)):
        return 'procedure?'
    if x is EOF:
        return 'eof-object?'
    if isinstance(x, Box):
        return 'box?'
    if isinstance(x, Bytes):
        return 'bytevector?'
    if isinstance(x, ErrorObj):
        return 'error-object?'
    return None


KINDS = {'procedure': 'procedure?', 'number': 'number?', 'integer': 'number?', 'char': 'char?', 'string': 'string?', 'symbol': 'symbol?', 'vector': 'vector?', 'bytevector': 'bytevector?', 'list': None, 'iport': 'port?', 'oport': 'port?', 'error': 'error-object?', 'bool': 'boolean?'}


def is_type(m, x, t):
    if not isinstance(x, Unk):
        return concrete_type(x) == t
    k = KINDS.get(x.kind)
    if k:
        return k == t
    d = m.session.world.decisions
    if d.get(x.name) is False:          # it is #f
        return t == 'boolean?'
    for o in EXCLUSIVE:
        if d.get('%s(%s)' % (o, x.name)):
            return o == t
    return m.decide('%s(%s)' % (t, x.name))


for _t in ('pair?', 'null?', 'symbol?', 'string?', 'char?', 'boolean?', 'vector?', 'procedure?', 'eof-object?', 'box?', 'error-object?', 'number?', 'port?'):
    P[_t] = (lambda t: lambda m, a: is_type(m, arg(a, 0), t))(_t)
P['not-pair?'] = lambda m, a: not is_type(m, arg(a, 0), 'pair?')
P['u8vector?'] = lambda m, a: is_type(m, arg(a, 0), 'bytevector?')
P['closure?'] = lambda m, a: isinstance(a[0], Closure) if not isinstance(a[0], Unk) else m.decide('closure?(%s)' % a[0].name)
P['continuation?'] = lambda m, a: isinstance(a[0], Kont)
P['complex?'] = P['number?']


def arg(a, i):
    if i >= len(a):
        raise err('too few arguments')
    return a[i]


# ---------------------------------------------------------------- equivalence

def eqv(m, x, y, how='eqv'):
    if x is y:
        return True
    if isinstance(x, Unk) or isinstance(y, Unk):
        if not isinstance(x, Unk):
            x, y = y, x
        if isinstance(y, Unk):
            if x.name == y.name:
                return True
            d = m.session.world.decisions
            a, b = sorted((x.name, y.name))
            order = ('eq', 'eqv', 'equal')
            i = order.index(how)
            for j, o in enumerate(order):
                v = d.get('%s(%s,%s)' % (o, a, b))
                if v is True and j <= i:
                    return True
                if v is False and j >= i:
                    return False
            if KINDS.get(x.kind) and KINDS.get(y.kind) and KINDS[x.kind] != KINDS[y.kind]:
                return False
            return m.decide('%s(%s,%s)' % (how, a, b))
        if isinstance(y, (Sym, bool, int, Fraction, float, Char)) or y is NIL or y is EOF or (isinstance(y, Str) and how == 'equal'):
            d = m.session.world.decisions
            if y is False:
                return not m.truth(x)
            if KINDS.get(x.kind) and KINDS[x.kind] != concrete_type(y):
                return False
            if y is NIL:
                return is_type(m, x, 'null?')
            if d.get(x.name) is False:
                return False
            t = concrete_type(y)
            for o in EXCLUSIVE:
                if o != t and d.get('%s(%s)' % (o, x.name)):
                    return False
            if d.get('%s(%s)' % (t, x.name)) is False:
                return False
            tok = show(canon(y))
            w = m.session.world
            known = w.equal_to.get(x.name)
            if known is not None:
                if known == tok and how == 'eq' and boxed_number(y):
                    return m.decide('%s eq %s' % (x.name, tok))
                return known == tok
            key = '%s=%s' % (x.name, tok)
            r = m.decide(key)
            if r:
                w.equal_to[x.name] = tok
                d['%s(%s)' % (t, x.name)] = True
                if x.kind not in ('procedure',):
                    d.setdefault(x.name, True)
                if how == 'eq' and boxed_number(y):
                    return m.decide('%s eq %s' % (x.name, tok))
            return r
        return False
    if isinstance(x, Alias) and isinstance(y, Alias) and how != 'eq':
        return same_binding(x, y)
    if type(x) is bool or type(y) is bool:
        return False
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return x == y and not (how == 'eq' and boxed_number(x))
    if isinstance(x, float) and isinstance(y, float):
        return x == y and math.copysign(1, x) == math.copysign(1, y) or (x != x and y != y)
    if how == 'equal' or how == 'eqv' and isinstance(x, Str):
        if isinstance(x, Str) and isinstance(y, Str):
            return len(x.xs) == len(y.xs) and all(eqv(m, a, b, 'eqv') for a, b in zip(x.xs, y.xs))
    if how == 'equal':
        if isinstance(x, Pair) and isinstance(y, Pair):
            n = 0
            while isinstance(x, Pair) and isinstance(y, Pair):
                if not eqv(m, x.car, y.car, how):
                    return False
                x, y = x.cdr, y.cdr
                n += 1
                if n > 200:
                    raise AnalysisLimit('cyclic equal?')
            return eqv(m, x, y, how)
        if isinstance(x, (Vec, Bytes)) and type(x) is type(y):
            return len(x.xs) == len(y.xs) and all(eqv(m, a, b, how) for a, b in zip(x.xs, y.xs))
        if isinstance(x, Box) and isinstance(y, Box):
            return eqv(m, x.v, y.v, how)
    return False


def boxed_number(x):
    """Equal numbers of this kind need not be the same object."""
    return isinstance(x, Fraction) or type(x) is int and not -(1 << 31) <= x < 1 << 31


def same_binding(x, y):
    """free-identifier=?"""
    if not is_id(x) or not is_id(y):
        return False
    a = resolve(x.form, x.env)
    b = resolve(y.form, y.env)
    if (a is None or isinstance(a, Cell)) and (b is None or isinstance(b, Cell)):
        if a is b and a is not None:
            return True
        na, va = (sym_of(x).name, UNDEF) if a is None else (a.name, a.value)
        nb, vb = (sym_of(y).name, UNDEF) if b is None else (b.name, b.value)
        return na == nb and va is vb
    return a is b


P['eq?'] = lambda m, a: eqv(m, a[0], a[1], 'eq')
P['eqv?'] = lambda m, a: eqv(m, a[0], a[1], 'eqv')
P['equal?'] = lambda m, a: eqv(m, a[0], a[1], 'equal')
P['not'] = lambda m, a: not m.truth(a[0])


# ---------------------------------------------------------------- pairs and lists

def car(m, x):
    if isinstance(x, Pair):
        return x.car
    if isinstance(x, Alias) or isinstance(x, ErrorObj):
        if isinstance(x, ErrorObj):
            return x.message if not isinstance(x.message, str) else Str(C(ord(c)) for c in x.message)
    if isinstance(x, Unk) and is_type(m, x, 'pair?'):
        return Unk('car(%s)' % x.name)
    raise err('not a pair', x)


def cdr(m, x):
    if isinstance(x, Pair):
        return x.cdr
    if isinstance(x, ErrorObj):
        return x.irritants
    if isinstance(x, Unk) and is_type(m, x, 'pair?'):
        return Unk('cdr(%s)' % x.name)
    raise err('not a pair', x)


def _cxr(name):
    ops = name[1:-1]

    def f(m, a):
        x = arg(a, 0)
        for c in reversed(ops):
            x = car(m, x) if c == 'a' else cdr(m, x)
        return x
    return f


for _n in range(1, 5):
    for _i in range(2 ** _n):
        _nm = 'c' + ''.join('ad'[(_i >> _j) & 1] for _j in range(_n)) + 'r'
        P[_nm] = _cxr(_nm)
P['cons'] = lambda m, a: Pair(a[0], a[1])
P['xcons'] = lambda m, a: Pair(a[1], a[0])
P['cons*'] = lambda m, a: lst(a[:-1], a[-1])
P['list'] = lambda m, a: lst(a)


@prim('set-car!')
def _(m, a):
    if not isinstance(a[0], Pair):
        if isinstance(a[0], Unk):
            raise AnalysisLimit('assignment into an opaque value')
        raise err('not a pair')
    a[0].car = a[1]
    return a[1]


@prim('set-cdr!')
def _(m, a):
    if not isinstance(a[0], Pair):
        if isinstance(a[0], Unk):
            raise AnalysisLimit('assignment into an opaque value')
        raise err('not a pair')
    a[0].cdr = a[1]
    return a[1]


def islist(m, x):
    seen = set()
    while isinstance(x, Pair):
        if id(x) in seen:
            return False
        seen.add(id(x))
        x = x.cdr
    if isinstance(x, Unk):
        if not is_type(m, x, 'null?'):
            if is_type(m, x, 'pair?'):
                raise AnalysisLimit('list of unknown extent')
            return False
        return True
    return x is NIL


def circular(x):
    seen = set()
    while isinstance(x, Pair):
        if id(x) in seen:
            return True
        seen.add(id(x))
        x = x.cdr
    return False


def items(m, x):
    """elements of a proper list"""
    if circular(x):
        raise err('circular list')
    xs, t = unlist(x)
    if t is not NIL:
        if isinstance(t, Unk):
            if is_type(m, t, 'null?'):
                return xs
            if is_type(m, t, 'pair?'):
                raise AnalysisLimit('list of unknown extent')
        raise err('not a list', x)
    return xs


P['list?'] = lambda m, a: islist(m, a[0])
P['null-list?'] = P['null?']
P['circular-list?'] = lambda m, a: circular(a[0])
P['dotted-list?'] = lambda m, a: not circular(a[0]) and unlist(a[0])[1] is not NIL
P['length'] = lambda m, a: len(items(m, a[0]))
P['length+'] = lambda m, a: False if circular(a[0]) else len(unlist(a[0])[0])
P['reverse'] = lambda m, a: lst(items(m, a[0])[::-1])
P['reverse!'] = P['reverse']


@prim('append', 'append!')
def _(m, a):
    if not a:
        return NIL
    out = a[-1]
    for x in reversed(a[:-1]):
        out = lst(items(m, x), out)
    return out


P['concatenate'] = P['concatenate!'] = lambda m, a: P['append'](m, items(m, a[0]))
P['append-reverse'] = P['append-reverse!'] = lambda m, a: lst(items(m, a[0])[::-1], a[1])


def index(k):
    if isinstance(k, Unk):
        if k.kind == 'number' or current().decide('index?(%s)' % k.name):
            raise AnalysisLimit('symbolic index')
        raise err('not an index', k)
    if isinstance(k, bool) or not isinstance(k, int) or k < 0:
        raise err('not an index', k)
    return k


def tail(m, x, k):
    for _ in range(index(k)):
        x = cdr(m, x)
    return x


P['list-tail'] = P['drop'] = lambda m, a: tail(m, a[0], a[1])
P['list-ref'] = lambda m, a: car(m, tail(m, a[0], a[1]))
for _i, _n in enumerate('first second third fourth fifth sixth seventh eighth ninth tenth'.split()):
    P[_n] = (lambda i: lambda m, a: car(m, tail(m, a[0], i)))(_i)


@prim('take', 'take!')
def _(m, a):
    out, x = [], a[0]
    for _ in range(index(a[1])):
        out.append(car(m, x))
        x = cdr(m, x)
    return lst(out)


def spine(x):
    xs, t = [], x
    while isinstance(t, Pair):
        xs.append(t)
        t = t.cdr
        if len(xs) > 300:
            raise AnalysisLimit('cyclic list')
    return xs, t


@prim('take-right')
def _(m, a):
    ps, t = spine(a[0])
    k = index(a[1])
    if k > len(ps):
        raise err('range')
    return ps[len(ps) - k] if k else t


@prim('drop-right', 'drop-right!')
def _(m, a):
    ps, t = spine(a[0])
    k = index(a[1])
    if k > len(ps):
        raise err('range')
    return lst(p.car for p in ps[:len(ps) - k])


P['last-pair'] = lambda m, a: spine(a[0])[0][-1]
P['last'] = lambda m, a: spine(a[0])[0][-1].car
P['list-copy'] = lambda m, a: lst(*((lambda u: (u[0], u[1]))(unlist(a[0]))))
P['make-list'] = lambda m, a: lst([a[1] if len(a) > 1 else UNSPEC] * index(a[0]))
P['alist-cons'] = lambda m, a: Pair(Pair(a[0], a[1]), a[2])
P['alist-copy'] = lambda m, a: lst([Pair(p.car, p.cdr) if isinstance(p, Pair) else p for p in items(m, a[0])])


@prim('iota')
def _(m, a):
    n = index(a[0])
    s = a[1] if len(a) > 1 else 0
    d = a[2] if len(a) > 2 else 1
    out = []
    for i in range(n):
        out.append(P['+'](m, [s, P['*'](m, [i, d])]))
    return lst(out)


@prim('circular-list')
def _(m, a):
    x = lst(a)
    spine(x)[0][-1].cdr = x
    return x


def _mem(how):
    def f(m, a):
        x = a[1]
        while is_type(m, x, 'pair?'):
            if isinstance(x, Unk):
                raise AnalysisLimit('list of unknown extent')
            if eqv(m, a[0], x.car, how):
                return x
            x = x.cdr
        return False
    return f


def _ass(how):
    def f(m, a):
        x = a[1]
        while is_type(m, x, 'pair?'):
            if isinstance(x, Unk):
                raise AnalysisLimit('list of unknown extent')
            if eqv(m, a[0], car(m, x.car), how):
                return x.car
            x = x.cdr
        return False
    return f


P['memq'], P['memv'] = _mem('eq'), _mem('eqv')
P['assq'], P['assv'] = _ass('eq'), _ass('eqv')


# ---------------------------------------------------------------- numbers

def numterm(op, a):
    return Unk('%s(%s)' % (op, ','.join(x.name if isinstance(x, Unk) else show(canon(x)) for x in a)), 'number')


def isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def want_num(a):
    for x in a:
        if not isnum(x) and not isinstance(x, Unk):
            raise err('not a number', x)
        if isinstance(x, Unk) and x.kind == 'any' and not current().decide('number?(%s)' % x.name):
            raise err('not a number', x)
    return any(isinstance(x, Unk) for x in a)


def arith(op, f, unit=None):
    def g(m, a):
        if want_num(a):
            if op == '+' and len(a) == 2 and 0 in [x for x in a if type(x) is int]:
                return a[0] if a[1] == 0 and type(a[1]) is int else a[1]
            if op in ('+', '*') and len(a) == 2:
                a = sorted(a, key=lambda x: x.name if isinstance(x, Unk) else '')
            return numterm(op, a)
        if unit is not None:
            r = unit
            for x in a:
                r = f(r, x)
            return norm(r)
        if len(a) == 1:
            return norm(f(0 if op == '-' else 1, a[0]))
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return norm(r)
    return g


def div(x, y):
    if isinstance(x, float) or isinstance(y, float):
        if y == 0:
            return math.nan if x == 0 else math.copysign(math.inf, x) * math.copysign(1, y)
        return float(x) / float(y)
    if y == 0:
        raise err('division by zero')
    return Fraction(x) / Fraction(y)


P['+'] = arith('+', lambda x, y: x + y, 0)
P['*'] = arith('*', lambda x, y: x * y, 1)
P['-'] = arith('-', lambda x, y: x - y)
P['/'] = arith('/', div)


def cmp(op, f):
    def g(m, a):
        if want_num(a):
            for x, y in zip(a, a[1:]):
                if isinstance(x, Unk) or isinstance(y, Unk):
                    if not compare(m, op, x, y):
                        return False
                elif not f(x, y):
                    return False
            return True
        return all(f(x, y) for x, y in zip(a, a[1:]))
    return g


def compare(m, op, x, y):
    """an order fact about opaque numbers, kept consistent through one canonical relation"""
    nx = x.name if isinstance(x, Unk) else show(canon(x))
    ny = y.name if isinstance(y, Unk) else show(canon(y))
    if nx == ny:
        return op in ('=', '<=', '>=')
    if op == '>':
        return compare(m, '<', y, x)
    if op == '>=':
        return compare(m, '<=', y, x)
    d = m.session.world.decisions
    a, b = sorted((nx, ny))
    eq = d.get('%s=%s' % (a, b))
    if op == '=':
        if eq is None and (d.get('%s<%s' % (a, b)) or d.get('%s<%s' % (b, a))):
            return False
        return m.decide('%s=%s' % (a, b))
    if op == '<':
        if eq:
            return False
        if d.get('%s<%s' % (ny, nx)):
            return False
        if eq is False and d.get('%s<%s' % (ny, nx)) is False:
            return True
        return m.decide('%s<%s' % (nx, ny))
    # <=
    return not compare(m, '<', y, x)


P['='] = cmp('=', lambda x, y: x == y)
P['<'] = cmp('<', lambda x, y: x < y)
P['>'] = cmp('>', lambda x, y: x > y)
P['<='] = cmp('<=', lambda x, y: x <= y)
P['>='] = cmp('>=', lambda x, y: x >= y)
P['zero?'] = lambda m, a: P['='](m, [a[0], 0])
P['positive?'] = lambda m, a: P['>'](m, [a[0], 0])
P['negative?'] = lambda m, a: P['<'](m, [a[0], 0])


def num1(op, f, pred=False):
    def g(m, a):
        if want_num(a[:1]):
            t = numterm(op, a)
            return m.decide(t.name) if pred else t
        return norm(f(a[0])) if not pred else f(a[0])
    return g


P['abs'] = P['magnitude'] = num1('abs', abs)
P['floor'] = num1('floor', lambda x: float(math.floor(x)) if isinstance(x, float) else math.floor(x))
P['ceiling'] = num1('ceiling', lambda x: float(math.ceil(x)) if isinstance(x, float) else math.ceil(x))
P['truncate'] = num1('truncate', lambda x: float(math.trunc(x)) if isinstance(x, float) else math.trunc(x))
P['round'] = num1('round', lambda x: float(round(x)) if isinstance(x, float) else round(x))
P['numerator'] = num1('numerator', lambda x: Fraction(x).numerator)
P['denominator'] = num1('denominator', lambda x: Fraction(x).denominator)
P['odd?'] = num1('odd?', lambda x: x % 2 == 1, True)
P['even?'] = num1('even?', lambda x: x % 2 == 0, True)
P['exact'] = num1('exact', lambda x: norm(Fraction(x)))
P['inexact'] = num1('inexact', float)


def npred(name, f, entails=None):
    def g(m, a):
        x = a[0]
        if isinstance(x, Unk):
            if KINDS.get(x.kind) and KINDS[x.kind] != 'number?':
                return False
            if x.kind == 'integer' and name in ('integer?', 'exact-integer?', 'rational?', 'real?', 'complex?', 'exact?'):
                return True
            return m.decide('%s(%s)' % (name, x.name))
        return isnum(x) and f(x)
    return g


P['real?'] = npred('real?', lambda x: True)
P['rational?'] = npred('rational?', lambda x: not isinstance(x, float) or math.isfinite(x))
P['integer?'] = npred('integer?', lambda x: x == math.floor(x) if not isinstance(x, float) or math.isfinite(x) else False)
P['exact?'] = npred('exact?', lambda x: not isinstance(x, float))
P['inexact?'] = npred('inexact?', lambda x: isinstance(x, float))
P['exact-integer?'] = npred('exact-integer?', lambda x: isinstance(x, int))
P['finite?'] = npred('finite?', lambda x: not isinstance(x, float) or math.isfinite(x))
P['infinite?'] = npred('infinite?', lambda x: isinstance(x, float) and math.isinf(x))
P['nan?'] = npred('nan?', lambda x: isinstance(x, float) and math.isnan(x))


def tdiv(x, y):
    if y == 0:
        raise err('division by zero')
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def int2(op, f):
    def g(m, a):
        if want_num(a):
            return numterm(op, a)
        if any(isinstance(x, Fraction) for x in a):
            raise err('not an integer')
        if any(isinstance(x, float) for x in a):
            return float(f(*[int(x) for x in a]))
        return f(*a)
    return g


P['quotient'] = int2('quotient', tdiv)
P['remainder'] = int2('remainder', lambda x, y: x - y * tdiv(x, y))


def _mod(x, y):
    if y == 0:
        raise err('division by zero')
    return x % y


P['modulo'] = int2('modulo', _mod)
P['gcd'] = int2('gcd', lambda *a: math.gcd(*a))
P['lcm'] = int2('lcm', lambda *a: math.lcm(*a))


def minmax(op, f):
    def g(m, a):
        if want_num(a):
            return numterm(op, a)
        r = f(a)
        return float(r) if any(isinstance(x, float) for x in a) else r
    return g


P['max'] = minmax('max', max)
P['min'] = minmax('min', min)


@prim('exact-integer-square-root')
def _(m, a):
    if want_num(a):
        t = numterm('isqrt', a)
        return Pair(t, numterm('isqrt-rest', a))
    r = math.isqrt(a[0])
    return Pair(r, a[0] - r * r)


@prim('expt')
def _(m, a):
    if want_num(a):
        return numterm('expt', a)
    x, y = a
    if isinstance(x, float) or isinstance(y, float):
        return float(x) ** float(y)
    return norm(Fraction(x) ** y)


P['bitwise-not'] = int2('bitwise-not', lambda x: ~x)


def bitfold(op, f, unit):
    def g(m, a):
        if want_num(a):
            return numterm(op, a)
        r = unit
        for x in a:
            r = f(r, x)
        return r
    return g


P['bitwise-and'] = bitfold('bitwise-and', lambda x, y: x & y, -1)
P['bitwise-ior'] = bitfold('bitwise-ior', lambda x, y: x | y, 0)
P['bitwise-xor'] = bitfold('bitwise-xor', lambda x, y: x ^ y, 0)
P['bit-shift'] = int2('bit-shift', lambda x, n: x << n if n >= 0 else x >> -n)
P['bit-count'] = int2('bit-count', lambda x: bin(x).count('1') if x >= 0 else bin(~x).count('1'))
P['bit-width'] = int2('bit-width', lambda x: x.bit_length() if x >= 0 else (~x).bit_length())


@prim('number->string')
def _(m, a):
    if want_num(a[:1]):
        return Unk('number->string(%s)' % a[0].name, 'string')
    if isinstance(a[0], (int, Fraction)) and len(a) == 1:
        return mkstr(str(a[0]))
    raise AnalysisLimit('number->string')


# ---------------------------------------------------------------- symbols, characters, strings, vectors

def mkstr(s):
    return Str(C(ord(c)) for c in s)


def text(x):
    if isinstance(x, Str) and x.text is not None:
        return x.text
    if isinstance(x, (Unk, Str)):
        raise AnalysisLimit('opaque string')
    raise err('not a string', x)


P['symbol->string'] = lambda m, a: mkstr(a[0].name) if isinstance(a[0], Sym) else _raise(a[0])
P['string->symbol'] = lambda m, a: S(text(a[0]))
P['identifier->symbol'] = lambda m, a: sym_of(a[0])
P['identifier?'] = lambda m, a: is_id(a[0])
P['syntactic-closure?'] = lambda m, a: isinstance(a[0], Alias)
P['transformer?'] = lambda m, a: isinstance(a[0], Macro)
@prim('make-syntactic-closure')
def _(m, a):
    if not isinstance(a[0], SEnv):
        raise err('not an environment', a[0])
    return Alias(a[0], a[1], a[2])



def _raise(x):
    if isinstance(x, Unk):
        raise AnalysisLimit('opaque argument')
    raise err('wrong type', x)


def rng(n, a, i):
    s = index(a[i]) if len(a) > i else 0
    e = index(a[i + 1]) if len(a) > i + 1 else n
    if not 0 <= s <= e <= n:
        raise err('range')
    return s, e


def seqs(name, cls, listname):
    def want(x):
        if not isinstance(x, cls):
            _raise(x)
        return x
    P['%s-length' % name] = lambda m, a: len(want(a[0]).xs) if not isinstance(a[0], Unk) else numterm('%s-length' % name, [a[0]])

    def ref(m, a):
        i = index(a[1])
        if i >= len(want(a[0]).xs):
            raise err('range')
        return a[0].xs[i]

    def set_(m, a):
        i = index(a[1])
        if i >= len(want(a[0]).xs):
            raise err('range')
        a[0].xs[i] = a[2]
        return UNSPEC

    def copy(m, a):
        if isinstance(a[0], Unk):
            return Unk('%s-copy(%s)' % (name, ','.join(x.name if isinstance(x, Unk) else show(canon(x)) for x in a)), a[0].kind)
        s, e = rng(len(want(a[0]).xs), a, 1)
        return cls(a[0].xs[s:e])

    def copy_to(m, a):
        if isinstance(a[0], Unk) or isinstance(a[2], Unk):
            m.event('prim', name + '-copy!', tuple(canon(x) for x in a))
            return UNSPEC
        at = index(a[1])
        s, e = rng(len(want(a[2]).xs), a, 3)
        if at + e - s > len(want(a[0]).xs):
            raise err('range')
        a[0].xs[at:at + e - s] = list(a[2].xs[s:e])
        return UNSPEC

    def fill(m, a):
        s, e = rng(len(want(a[0]).xs), a, 2)
        a[0].xs[s:e] = [a[1]] * (e - s)
        return UNSPEC
    P['%s-ref' % name], P['%s-set!' % name], P['%s-copy' % name], P['%s-copy!' % name], P['%s-fill!' % name] = ref, set_, copy, copy_to, fill
    P['%s->list' % name] = lambda m, a: lst(want(a[0]).xs[slice(*rng(len(a[0].xs), a, 1))])
    P['list->%s' % name] = lambda m, a: cls(items(m, a[0]))
    P[name] = lambda m, a: cls(a)
    P['make-' + name] = lambda m, a: cls([a[1] if len(a) > 1 else UNSPEC] * index(a[0]))
    P['%s-append' % name] = lambda m, a: cls([y for x in a for y in want(x).xs])


seqs('vector', Vec, '')
seqs('string', Str, '')
seqs('u8vector', Bytes, '')


def scmp(op, f, ci):
    def g(m, a):
        if any(isinstance(x, Unk) for x in a):
            raise AnalysisLimit('opaque string')
        ts = [text(x) for x in a]
        if ci:
            ts = [t.lower() for t in ts]
        return all(f(x, y) for x, y in zip(ts, ts[1:]))
    return g


def ccmp(op, f, ci):
    def g(m, a):
        if any(isinstance(x, Unk) for x in a):
            return m.decide('char%s(%s)' % (op, ','.join(x.name if isinstance(x, Unk) else str(x.cp) for x in a)))
        ts = [chr(x.cp) for x in a]
        if ci:
            ts = [t.lower() for t in ts]
        return all(f(x, y) for x, y in zip(ts, ts[1:]))
    return g


for _op, _f in (('=', lambda x, y: x == y), ('<', lambda x, y: x < y), ('>', lambda x, y: x > y), ('<=', lambda x, y: x <= y), ('>=', lambda x, y: x >= y)):
    P['string%s?' % _op] = scmp(_op, _f, False)
    P['string-ci%s?' % _op] = scmp(_op, _f, True)
    P['char%s?' % _op] = ccmp(_op, _f, False)
    P['char-ci%s?' % _op] = ccmp(_op, _f, True)


def char1(name, f):
    def g(m, a):
        if isinstance(a[0], Unk):
            return Unk('%s(%s)' % (name, a[0].name), 'char')
        return C(ord(f(chr(a[0].cp))[0]))
    return g


P['char-upcase'] = char1('char-upcase', str.upper)
P['char-downcase'] = char1('char-downcase', str.lower)
P['char->integer'] = lambda m, a: a[0].cp if isinstance(a[0], Char) else Unk('char->integer(%s)' % a[0].name, 'number')
P['integer->char'] = lambda m, a: C(a[0])
P['box'] = lambda m, a: Box(a[0] if a else UNSPEC)
P['box-ref'] = lambda m, a: a[0].v


@prim('box-set!')
def _(m, a):
    a[0].v = a[1]
    return UNSPEC


# ---------------------------------------------------------------- control, errors, ports

P['error-object'] = lambda m, a: ErrorObj(a[0], lst(a[1:]))
P['read-error?'] = lambda m, a: isinstance(a[0], ErrorObj) and a[0].kind == 'read-error'
P['file-error?'] = lambda m, a: isinstance(a[0], ErrorObj) and a[0].kind == 'file-error'


@prim('throw')
def _(m, a):
    raise Stop(('error', canon(a[0])))


@prim('kernel-exception-handler-set!')
def _(m, a):
    m.handler = a[0]
    return UNSPEC


@prim('emergency-exit')
def _(m, a):
    raise Stop(('exit', tuple(canon(x) for x in a)))


P['eof-object'] = lambda m, a: EOF


def portpred(name):
    def g(m, a):
        x = a[0]
        if isinstance(x, Unk):
            if x.kind in ('iport', 'oport') and name in ('input-port?', 'output-port?'):
                return (x.kind == 'iport') == (name == 'input-port?')
            if KINDS.get(x.kind) and KINDS[x.kind] != 'port?':
                return False
            if name in ('input-port?', 'output-port?'):
                pass
            return m.decide('%s(%s)' % (name, x.name))
        return False
    return g


for _n in ('input-port?', 'output-port?', 'binary-port?', 'textual-port?', 'open?'):
    P[_n] = portpred(_n)


def io(name, result='any'):
    def g(m, a):
        m.event('prim', name, tuple(canon(x) for x in a))
        if result is None:
            return UNSPEC
        return m.fresh(name, result)
    return g


for _n in ('get-char', 'get-char-ready?', 'get-line', 'peek-char', 'read', 'get-string', 'get-u8', 'get-u8-ready?', 'peek-u8', 'get-u8vector', 'get-output-string', 'get-output-u8vector', 'file-exists?', 'interaction-environment', 'environment', 'eval', 'expand', 'load', 'current-jiffy', 'jiffies-per-second'):
    P[_n] = io(_n)


@prim('get-u8vector')
def _(m, a):
    m.event('prim', 'get-u8vector', tuple(canon(x) for x in a))
    t = m.fresh('get-u8vector')
    if not isinstance(a[0], int) or a[0] > 4:
        return t
    for j in range(a[0] - 1, -1, -1):       # fewer bytes, down to none: end of file
        if m.decide('%s gives more than %d bytes' % (t.name, j)):
            return Bytes([Unk('%s[%d]' % (t.name, i)) for i in range(j + 1)])
    return EOF


for _n in ('put-char', 'put-string', 'put-u8', 'put-u8vector', 'write', 'write-simple', 'flush', 'close', 'delete-file'):
    P[_n] = io(_n, None)
for _n in ('open-input-file', 'open-binary-input-file', 'open-input-string', 'open-input-u8vector', 'standard-input-port'):
    P[_n] = io(_n, 'iport')
for _n in ('open-output-file', 'open-binary-output-file', 'open-output-string', 'open-output-u8vector', 'standard-output-port', 'standard-error-port'):
    P[_n] = io(_n, 'oport')


def generic(name):
    """A primitive without a model: an uninterpreted pure function."""
    def g(m, a):
        return Unk('%s(%s)' % (name, ','.join(show(canon(x)) for x in a)))
    return g


# ---------------------------------------------------------------- libraries

def libname(x):
    return '(%s)' % ' '.join(str(show(canon(y))) for y in proper(x))


class Unresolved(Exception):
    pass


class System:
    """The libraries of the implementation, loaded on demand into one abstract machine."""

    def __init__(self, repo, bindings, constants=()):
        self.m = Machine()
        self.m.library = lambda n: libname(n) in self.decls or libname(n) in self.prims
        self.loaded = {}
        self.loading = []
        self.decls = {}
        self.files = {}
        self.prims = {}
        self.problems = []
        self.tables = {}   # library -> its top-level environment
        self.at = {}    # cell of a free identifier -> the library it was met in
        for (lib, sym), p in bindings.items():
            f = P.get(p) or generic(p)
            self.prims.setdefault(lib, {})[S(sym)] = Cell(sym, Prim(p, f))
        for lib, sym in constants:
            self.prims.setdefault(lib, {})[S(sym)] = Cell(sym, Unk(sym, 'number'))
        core = core_table()
        self.prims['(meevax core)'] = {S(n): Cell(n, c) for n, c in core.items()}
        for path in sorted(glob.glob(os.path.join(repo, 'library', '*.ss'))):
            rel = os.path.relpath(path, repo)
            for form in parse(open(path, encoding='utf-8').read(), rel):
                if isinstance(form, Pair) and form.car is S('define-library'):
                    n = libname(form.cdr.car)
                    self.decls.setdefault(n, form.cdr.cdr)
                    self.files.setdefault(n, (rel, form.line))

    def exports(self, name):
        """name -> {Sym: Cell}"""
        if name in self.prims:
            return self.prims[name]
        if name in self.loaded:
            return self.loaded[name]
        if name not in self.decls:
            raise Unresolved('no library %s' % name)
        if name in self.loading:
            raise Unresolved('library %s imports itself' % name)
        self.loading.append(name)
        saved = self.m.session
        self.m.session = Session(World(limit=5000000))
        try:
            env = SEnv(None, {})
            self.tables[name] = env.table
            specs = []
            for d in proper(self.decls[name]):
                h = d.car.name if isinstance(d, Pair) and isinstance(d.car, Sym) else ''
                if h == 'export':
                    specs.extend(proper(d.cdr))
                elif h == 'import':
                    for s in proper(d.cdr):
                        self.do_import(env, s)
                elif h == 'begin':
                    for x in proper(d.cdr):
                        self.m.c.toplevel(x, env)
                else:
                    raise AnalysisLimit('library declaration %s' % h)
            for b, _ in self.m.c.created:
                self.at.setdefault(id(b), name)
            out = {}
            for s in specs:
                if isinstance(s, Pair):
                    src, dst = s.cdr.car, s.cdr.cdr.car
                    c = env.table.get(src)
                    if c is None:
                        self.problems.append((name, 'export', src.name))
                        continue
                    out[dst] = Cell(dst.name, c.value)
                else:
                    c = env.table.get(s)
                    if c is None:
                        self.problems.append((name, 'export', s.name))
                        continue
                    out[s] = c
            self.loaded[name] = out
            return out
        finally:
            self.loading.pop()
            self.m.session = saved

    def import_set(self, x):
        h = x.car
        if h is S('only'):
            base = self.import_set(x.cdr.car)
            out = {}
            for n in proper(x.cdr.cdr):
                if n in base:
                    out[n] = base[n]
                else:
                    self.problems.append((self.loading[-1] if self.loading else '', libname(self.base(x)), n.name))
            return out
        if h is S('except'):
            drop = set(proper(x.cdr.cdr))
            return {k: v for k, v in self.import_set(x.cdr.car).items() if k not in drop}
        if h is S('prefix'):
            p = x.cdr.cdr.car.name
            return {S(p + k.name): Cell(p + k.name, v.value) for k, v in self.import_set(x.cdr.car).items()}
        if h is S('rename'):
            rn = {r.car: r.cdr.car for r in proper(x.cdr.cdr)}
            return {rn.get(k, k): (Cell(rn[k].name, v.value) if k in rn else v) for k, v in self.import_set(x.cdr.car).items()}
        return self.exports(libname(x))

    def base(self, x):
        while x.car in (S('only'), S('except'), S('prefix'), S('rename')) and isinstance(x.cdr.car, Pair):
            x = x.cdr.car
        return x

    def do_import(self, env, s, shadow=False):
        for k, c in self.import_set(s).items():
            if shadow or k not in env.table:
                env.table[k] = c

    def where(self, lib, name):
        """file:line of the definition of a name in a library (best effort, for reports)"""
        if lib not in self.decls:
            return lib
        f, line = self.files.get(lib, ("library", 0))
        best = None
        for d in proper(self.decls[lib]):
            if isinstance(d, Pair) and d.car is S('begin'):
                for x in proper(d.cdr):
                    if isinstance(x, Pair) and isinstance(x.cdr, Pair):
                        t = x.cdr.car
                        n = t.car if isinstance(t, Pair) else t
                        if isinstance(n, Sym) and n.name == name:
                            best = x.line
        return '%s:%s' % (f, best or line)
