"""Members of a part of the abstract domain.

A path of the numeric analysis describes a set of numbers by the signs and
parities decided on it.  A value that differs from the specified one matters
only if that set has a member, so a finding names one; the terms are evaluated
over rationals, nothing of the analysed program runs."""
import itertools
import random
from fractions import Fraction
from math import gcd, isqrt, floor, ceil
from engine.interp import INT_TYPES
from .num import isq


class Undefined(Exception):
    pass


def trunc(f):
    return floor(f) if f >= 0 else ceil(f)


def value(q, env):
    n, d = poly(q[1], env), poly(q[2], env)
    if d == 0:
        raise Undefined
    return Fraction(n) / d


def poly(p, env):
    t = Fraction(0)
    for m, c in p:
        x = Fraction(c)
        for a, e in m:
            x *= atom(a, env) ** e
        t += x
    return t


def whole(f):
    if f.denominator != 1:
        raise Undefined
    return f.numerator


def atom(a, env):
    if a in env:
        return env[a]
    h = a[0]
    if h == 'tf':
        v = value(a[1], env)
        r = v - trunc(v)
    elif h in ('num', 'den'):
        raise Undefined
    elif h == 'numerator':
        r = value(a[1], env).numerator
    elif h == 'denominator':
        r = value(a[1], env).denominator
    elif h == 'gcd':
        r = gcd(whole(value(a[1], env)), whole(value(a[2], env)))
    elif h == 'isqrt':
        v = whole(value(a[1], env))
        if v < 0:
            raise Undefined
        r = isqrt(v)
    elif h == 'exp2':
        v = whole(value(a[1], env))
        if abs(v) > 4096:
            raise Undefined
        r = Fraction(2) ** v
    elif h == 'pow':
        b, e = value(a[1], env), whole(value(a[2], env))
        if abs(e) > 300 or b == 0 and e < 0:
            raise Undefined
        r = b ** e
    elif h == 'wrap':
        w = INT_TYPES[a[1]]
        v = whole(value(a[2], env)) % (1 << w[0])
        r = v - (1 << w[0]) if w[1] and v >> (w[0] - 1) else v
    elif h in '&|^':
        x, y = whole(value(a[1], env)), whole(value(a[2], env))
        r = x & y if h == '&' else x | y if h == '|' else x ^ y
    else:
        raise KeyError(h)
    r = env[a] = Fraction(r)
    return r


BASE = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 6, 7, -7, 8, 10, -10, 12, 31, 32, 33, -31, -32, -33, 63, 64, 65, -63, -64, -65]
BASE += [s * (1 << b) + d for b in (31, 32, 62, 63, 64, 100) for s in (1, -1) for d in (-1, 0, 1)]


def sgn(x):
    return (x > 0) - (x < 0)


def constants(k):
    out = set()
    for c in k.path.conds:
        if c[0][0] == 'sign':
            for m, x in c[0][1]:
                for y in (x, -x):
                    out |= {y - 1, y, y + 1}
    return sorted(out, key=abs)[:60]


def member(k, names, kinds, differ, limit=30000):
    """An assignment satisfying the path conditions and differ, None if none
    was found, or False if the conditions cannot be evaluated."""
    cs = BASE + [c for c in constants(k) if c not in BASE]
    doms = []
    for nm, kd in zip(names, kinds):
        if kd == 'int':
            doms.append([{('v', nm): Fraction(c)} for c in cs if -(1 << 31) <= c < 1 << 31])
        elif kd == 'large_integer':
            doms.append([{('v', nm): Fraction(c)} for c in cs])
        elif kd == 'ratio':
            small = [c for c in cs if abs(c) <= 12] + [(1 << 64) + 1, -(1 << 64) - 1, 1 << 40]
            doms.append([{('num', nm): Fraction(n), ('den', nm): Fraction(d)} for d in small if d > 0 for n in small if gcd(n, d) == 1])
        else:
            return False
    total = 1
    for d in doms:
        total *= len(d)
    if total <= limit:
        it = itertools.product(*doms)
    else:
        rnd = random.Random(1)
        it = ([rnd.choice(d) if rnd.random() < .5 else d[rnd.randrange(min(20, len(d)))] for d in doms] for _ in range(limit))
    seen = False
    for parts in it:
        env = {}
        for p in parts:
            env.update(p)
        try:
            if holds(k, env):
                seen = True
                if differ(env):
                    return {a: v for p in parts for a, v in p.items()}
        except Undefined:
            continue
        except KeyError:
            return False
    return None


def holds(k, env):
    for c in k.path.conds:
        t, v = c[0], c[1]
        if t[0] == 'sign':
            if sgn(poly(t[1], env)) != v:
                return False
        elif t[0] == 'odd':
            x = value(t[1], env)
            if x.denominator != 1 or (x.numerator % 2 == 1) != bool(v):
                return False
        else:
            raise KeyError(t[0])
    return True


def text(env):
    out = {}
    for a, v in env.items():
        out.setdefault(a[1], {})[a[0]] = v
    return ', '.join('%s = %s' % (n, d['v'] if 'v' in d else '%s/%s' % (d['num'], d['den'])) for n, d in sorted(out.items()))
