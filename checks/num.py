"""Exact and inexact numbers as terms.

Exact values are rational functions over integer atoms in a normal form
(polynomial numerator and denominator with integer coefficients); inexact
values are terms over the IEEE operations.  The GMP interface has its
documented meaning on these values.  A comparison partitions the path by the
sign of a difference, so every result is decided for all numbers that lie in
that part.  No solver is involved: equality of exact values is equality of
normal forms.
"""
from fractions import Fraction
from math import gcd
from engine.interp import *
from engine.interp import INT_TYPES, FLOAT_TYPES
from engine.kernel import tn, NS
from engine.heap import FUNCTORS
from .prims import Prim

INT32 = (-(1 << 31), (1 << 31) - 1)
INT64 = (-(1 << 63), (1 << 63) - 1)


# ---- polynomials: tuple of ((monomial), coefficient); monomial: tuple of (atom, exponent) ----
def pnorm(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=repr))


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return pnorm(d)


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    return pnorm(d)


ONE = (((), 1),)


def pconst(n):
    return (((), n),) if n else ()


def pcontent(p):
    g = 0
    for _, c in p:
        g = gcd(g, c)
    return g


def pdiv_exact(a, b):
    """a / b if b divides a, else None (division by leading terms)."""
    if not b:
        return None
    rest = a
    q = ()
    lead = max(b, key=lambda t: (sum(e for _, e in t[0]), repr(t[0])))
    for _ in range(200):
        if not rest:
            return q
        la = max(rest, key=lambda t: (sum(e for _, e in t[0]), repr(t[0])))
        d = dict(la[0])
        for x, e in lead[0]:
            d[x] = d.get(x, 0) - e
        if any(e < 0 for e in d.values()) or la[1] % lead[1]:
            return None
        t = ((tuple(sorted(((x, e) for x, e in d.items() if e), key=repr)), la[1] // lead[1]),)
        q = padd(q, t)
        rest = padd(rest, pmul(t, b), -1)
    return None


def mk(num, den=ONE):
    """Normalised rational function."""
    if not num:
        return ('Q', (), ONE)
    if den != ONE:
        q = pdiv_exact(num, den)
        if q is not None:
            num, den = q, ONE
        else:
            q = pdiv_exact(den, num)
            if q is not None and len(num) > 1:
                num, den = ONE, q
        # common monomial factor
        common = None
        for m, _ in num + den:
            d = dict(m)
            common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
        if common:
            def strip(p):
                out = {}
                for m, c in p:
                    d = {x: e - common.get(x, 0) for x, e in m}
                    out[tuple(sorted(((x, e) for x, e in d.items() if e), key=repr))] = c
                return pnorm(out)
            num, den = strip(num), strip(den)
        g = gcd(pcontent(num), pcontent(den))
        if den[-1][1] < 0:
            g = -g
        if g not in (0, 1):
            num = tuple((m, c // g) for m, c in num)
            den = tuple((m, c // g) for m, c in den)
    return ('Q', num, den)


def qc(n, d=1):
    f = Fraction(n, d)
    return mk(pconst(f.numerator), pconst(f.denominator))


def qatom(a):
    return ('Q', ((((a, 1),), 1),), ONE)


def isq(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'Q'


def qadd(a, b, k=1):
    if a[2] == b[2]:
        return mk(padd(a[1], b[1], k), a[2])
    return mk(padd(pmul(a[1], b[2]), pmul(b[1], a[2]), k), pmul(a[2], b[2]))


def qsub(a, b):
    return qadd(a, b, -1)


def qmul(a, b):
    return mk(pmul(a[1], b[1]), pmul(a[2], b[2]))


def qdiv(a, b):
    return mk(pmul(a[1], b[2]), pmul(a[2], b[1]))


def qneg(a):
    return qmul(qc(-1), a)


def qeq(a, b):
    return padd(pmul(a[1], b[2]), pmul(b[1], a[2]), -1) == ()


def qconst(a):
    """Fraction if constant."""
    if a[1] == ():
        return Fraction(0)
    if len(a[1]) == 1 and a[1][0][0] == () and len(a[2]) == 1 and a[2][0][0] == ():
        return Fraction(a[1][0][1], a[2][0][1])
    return None


def atoms_of(p):
    return {x for m, _ in p for x, _ in m}


OPS = {'+': qadd, '-': qsub, '*': qmul}
KINDS = ('int', 'large_integer', 'ratio', 'float', 'double')
EXACT = ('int', 'large_integer', 'ratio')


class Unknown(Exception):
    pass


class Num(Prim):
    max_recur = 12
    overflow_is_error = True

    def setup(self):
        super().setup()
        self.info = {}          # atom -> (lo, hi)
        self.frac = {}          # frac atom -> Q it is the fraction of
        self.signs = {}         # normalised polynomial -> -1/0/1
        self.subst = {}         # atom -> Q, from equalities decided on the path
        self.nonzeros = set()   # atoms known not to be zero
        self.trap = []          # undefined or trapping numeric operations reached

    # ---- arguments -----------------------------------------------------------
    def number(self, name, kind):
        """An arbitrary number object of the given representation."""
        if kind == 'int':
            a = ('v', name)
            self.info[a] = INT32
            return ('imm', 'int', qatom(a))
        if kind == 'large_integer':
            o = self.obj(name, kind)
            self.info[('v', name)] = (None, None)
            self.store[('mem', ('as', kind, o), 'value')] = qatom(('v', name))
            return o
        if kind == 'ratio':
            o = self.obj(name, kind)
            n, d = ('num', name), ('den', name)
            self.info[n] = (None, None)
            self.info[d] = (1, None)
            self.store[('mem', ('as', kind, o), 'value')] = mk(((((n, 1),), 1),), ((((d, 1),), 1),))
            return o
        if kind in ('float', 'double'):
            if kind == 'float':
                self.float32 = self.float32 | {('v', name)}
            return ('imm', kind, ('v', name))
        if kind == 'complex':
            o = self.obj(name, kind)
            self.store[('car', o)] = self.number(name + '.re', self.parts[0])
            self.store[('cdr', o)] = self.number(name + '.im', self.parts[1])
            return o
        raise KeyError(kind)

    parts = ('int', 'int')

    def numval(self, o):
        """(kind, value) of a number object, kind exact/double/float/complex."""
        if isinstance(o, tuple) and o and o[0] == 'imm':
            if o[1] == 'int':
                return 'exact', self.toq(o[2])
            if o[1] in ('float', 'double'):
                return o[1], self.fnorm(o[2], o[1])
            return None, o
        d = self.dyntype(o)
        if d in ('large_integer', 'ratio'):
            v = self.rv(LV(('mem', ('as', d, o), 'value')))
            return 'exact', v if isq(v) else ('bad', v)
        if d == 'complex':
            return 'complex', (self.load(LV(('car', o))), self.load(LV(('cdr', o))))
        return None, o

    def toq(self, v):
        if is_int(v):
            return qc(v[1])
        return v

    # ---- signs -----------------------------------------------------------------
    def interval(self, p):
        lo = hi = 0
        known = self.mono_bounds() if any(sum(e for _, e in m) > 1 for m, _ in p) else ()
        for m, c in p:
            a, b = c, c
            factors = [(x, e, None) for x, e in m]
            d = dict(m)
            for km, kl, kh in known:
                if kl is not None and kh is not None and all(d.get(x, 0) >= e for x, e in km):
                    factors = [(None, 1, (kl, kh))] + [(x, e - dict(km).get(x, 0), None) for x, e in m if e > dict(km).get(x, 0)]
                    break
            for x, e, bnd in factors:
                l, h = bnd if bnd else self.info.get(x, (None, None))
                if bnd:
                    c4 = [a * l, a * h, b * l, b * h]
                    a, b = min(c4), max(c4)
                    continue
                s = self.signs.get(((((x, 1),), 1),))
                if s == 0:
                    l = h = 0
                if s == 1:
                    l = max(l, 1) if l is not None else (1 if x[0] != 'tf' else 0)
                if s == -1:
                    h = min(h, -1) if h is not None else (-1 if x[0] != 'tf' else 0)
                if e % 2 == 0 and e:
                    big = None if l is None or h is None else max(l * l, h * h) ** (e // 2)
                    small = 0 if (l is None or l <= 0) and (h is None or h >= 0) else min(abs(t) for t in (l, h) if t is not None) ** e if l is not None and l > 0 or h is not None and h < 0 else 0
                    l, h, e = small, big, 1
                for _ in range(e):
                    if a is None and b is None:
                        continue
                    if l is None or h is None or a is None or b is None:
                        # signs only
                        pa = a is not None and a >= 0
                        nb = b is not None and b <= 0
                        pl = l is not None and l >= 0
                        nh = h is not None and h <= 0
                        if pa and pl:
                            a, b = a * l, None
                        elif nb and pl:
                            a, b = None, b * l
                        elif pa and nh:
                            a, b = None, a * h
                        elif nb and nh:
                            a, b = b * h, None
                        else:
                            a = b = None
                    else:
                        c4 = [a * l, a * h, b * l, b * h]
                        a, b = min(c4), max(c4)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi

    def mono_bounds(self):
        """Bounds of products decided on this path: (monomial, low, high)."""
        out = {}
        for p, s in self.signs.items():
            if not isinstance(p, tuple) or not p or not isinstance(p[0], tuple) or len(p[0]) != 2 or not isinstance(p[0][0], tuple):
                continue
            d = dict(p) if all(isinstance(t, tuple) and len(t) == 2 for t in p) else {}
            ms = [m for m in d if m != ()]
            if len(ms) != 1 or sum(e for _, e in ms[0]) < 2:
                continue
            m, c, k = ms[0], d[ms[0]], d.get((), 0)
            if abs(c) != 1:
                continue
            lo, hi = out.get(m, (None, None))
            v = -k * c                       # m compared with v
            if s * c >= 0:
                lo = v if lo is None else max(lo, v)
            if s * c <= 0:
                hi = v if hi is None else min(hi, v)
            out[m] = (lo, hi)
        return sorted(((m, l, h) for m, (l, h) in out.items()), key=lambda t: -sum(e for _, e in t[0]))

    def norm(self, q):
        """q under the equalities decided on this path."""
        while self.subst and isq(q):
            hit = [x for x in atoms_of(q[1]) | atoms_of(q[2]) if x in self.subst]
            if not hit:
                return q
            x = hit[0]
            q = qdiv(self.replace(q[1], x), self.replace(q[2], x))
        return q

    def replace(self, p, x):
        r = qc(0)
        for m, c in p:
            t = ('Q', pnorm({tuple((y, e) for y, e in m if y != x): c}), ONE)
            for _ in range(dict(m).get(x, 0)):
                t = qmul(t, self.subst[x])
            r = qadd(r, t)
        return r

    def learn_zero(self, p):
        """p = 0 was decided: solve for an auxiliary value if it occurs linearly."""
        for x in sorted(atoms_of(p), key=repr):
            if x in self.subst:
                continue
            ms = [(m, c) for m, c in p if dict(m).get(x)]
            if len(ms) == 1 and ms[0][0] == ((x, 1),):
                rest = pnorm({m: -c for m, c in p if not dict(m).get(x)})
                v = qdiv(('Q', rest, ONE), qc(ms[0][1]))
                if x[0] in ('v', 'num', 'den', 'tf') and qconst(v) is None:
                    continue
                self.subst[x] = v
                return

    def sign(self, q):
        """Sign of an exact value (partitions the path if unknown)."""
        q = self.norm(q)
        return self.psign(q[1]) * (1 if q[2] == ONE else self.psign(q[2]))

    def zero(self, q):
        return self.sign(q) == 0

    def psign(self, p):
        if not p:
            return 0
        s = 1
        g = pcontent(p)
        if p[-1][1] < 0:
            s, g = -1, -g
        p = tuple((m, c // g) for m, c in p)
        if p == ONE:
            return s
        if len(p) == 1:
            for x, e in p[0][0]:
                t = self.asign(x)
                s *= t if e % 2 else t * t
            return s
        common = None
        for m, _ in p:
            d = dict(m)
            common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
        if common:
            for x, e in common.items():
                t = self.asign(x)
                s *= t if e % 2 else t * t
            if s == 0:
                return 0
            p = pnorm({tuple(sorted(((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)), key=repr)): c for m, c in p})
            return s * self.psign(p)
        # substitute atoms known to be zero
        z = [x for x in atoms_of(p) if self.signs.get(((((x, 1),), 1),)) == 0]
        if z:
            return s * self.psign(pnorm({m: c for m, c in p if not any(x in z for x, _ in m)}))
        if p in self.signs:
            return s * self.signs[p]
        lo, hi = self.interval(p)
        strict = any(x[0] == 'tf' for x in atoms_of(p))
        if lo is not None and (lo > 0 or lo == 0 and strict and self.open_low(p)):
            return s
        if hi is not None and (hi < 0 or hi == 0 and strict and self.open_high(p)):
            return -s
        opts = [-1, 0, 1]
        if self.signs.get((('odd', ('Q', p, ONE)),)):
            opts.remove(0)
        if lo is not None and lo == 0:
            opts.remove(-1)
        if hi is not None and hi == 0:
            opts.remove(1)
        # monotone facts: a known sign of p - c for another constant c
        const = dict(p).get((), 0)
        rest = tuple(t for t in p if t[0] != ())
        for kp, ks in self.signs.items():
            kc = dict(kp).get((), 0)
            if tuple(t for t in kp if t[0] != ()) == rest:
                if const > kc and ks >= 0:
                    return s
                if const < kc and ks <= 0:
                    return -s
        c = opts[self.fork(len(opts))] if len(opts) > 1 else opts[0]
        self.signs[p] = c
        if c == 0:
            self.learn_zero(p)
            if not any(e % 2 and self.info.get(x, (None,))[0] != 1 for m, _ in p for x, e in m) and (all(k > 0 for _, k in p) or all(k < 0 for _, k in p)):
                for m, _ in p:          # a sum of squares vanishes
                    xs = [x for x, e in m if e % 2 == 0 and self.info.get(x, (None,))[0] != 1]
                    if len(xs) == 1:
                        self.signs[((((xs[0], 1),), 1),)] = 0
                        self.subst[xs[0]] = qc(0)
        self.learn_bound(p, c)
        self.path.conds.append((('sign', p), c, None))
        return s * c

    def learn_bound(self, p, c):
        """c1*x + c0 has sign c: a bound of the integer x."""
        d = dict(p)
        ms = [m for m in d if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        x, k, r = ms[0][0][0], d[ms[0]], Fraction(-d.get((), 0), d[ms[0]])
        if x[0] == 'tf':
            return
        s = c if k > 0 else -c
        lo, hi = self.info.get(x, (None, None))
        from math import floor, ceil
        if s >= 0:
            b = floor(r) + 1 if s else ceil(r)
            lo = b if lo is None else max(lo, b)
        if s <= 0:
            b = ceil(r) - 1 if s else floor(r)
            hi = b if hi is None else min(hi, b)
        self.info[x] = (lo, hi)

    def open_low(self, p):
        return len(p) <= 2

    open_high = open_low

    def asign(self, x):
        key = ((((x, 1),), 1),)
        if key in self.signs:
            return self.signs[key]
        lo, hi = self.info.get(x, (None, None))
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        opts = [-1, 0, 1]
        if lo is not None and lo >= 0:
            opts.remove(-1)
        if hi is not None and hi <= 0:
            opts.remove(1)
        if x[0] == 'tf':
            s = self.sign(self.frac[x])
            opts = [0, s] if s else [0]
        if self.signs.get((('odd', qatom(x)),)):
            opts = [o for o in opts if o]
        if x[0] == 'pow':
            b, e = x[1:]
            sb = self.sign(b)
            if sb == 0:
                opts = [1 if self.sign(e) == 0 else 0]
            elif sb > 0:
                opts = [1]
            else:
                opts = [-1 if self.odd(e) else 1]
        if x in self.nonzeros and len(opts) > 1:
            opts = [o for o in opts if o]
        c = opts[self.fork(len(opts))] if len(opts) > 1 else opts[0]
        self.signs[key] = c
        if c == 0:
            self.subst[x] = qc(0)
            for p, s in list(self.signs.items()):
                if s and p and isinstance(p[0][0], tuple) and len(p) > 1 and x in atoms_of(p):
                    q = self.norm(('Q', p, ONE))
                    if len(q[1]) == 1:
                        self.nonzeros |= {y for y, _ in q[1][0][0]}
        self.path.conds.append((('sign', key), c, None))
        return c

    # ---- rounding ---------------------------------------------------------------
    def integral(self, q):
        """True if q is an integer for all values of its atoms."""
        if any(x[0] == 'tf' for x in atoms_of(q[1])):
            # base - tfrac(base) is an integer
            return self.whole_truncation(q)
        if q[2] == ONE:
            return True
        for x in atoms_of(q[1]):
            if x[0] == 'denominator' and all(dict(m).get(x) for m, _ in q[1]):
                k = qdiv(q, qmul(x[1], qatom(x)))
                if k[2] == ONE and not any(y[0] == 'tf' for y in atoms_of(k[1])):
                    return True
        if len(q[2]) == 1 and len(q[2][0][0]) == 1 and q[2][0][1] == 1:
            (x, e), = q[2][0][0]
            if x[0] == 'gcd' and e == 1:
                n = ('Q', q[1], ONE)
                return any(qdiv(n, y)[2] == ONE for y in x[1:])
        return False

    def whole_truncation(self, q):
        tf = [(m, c) for m, c in q[1] if any(x[0] == 'tf' for x, _ in m)] if q[2] == ONE else [(m, c) for m, c in q[1] if any(x[0] == 'tf' for x, _ in m)]
        # every q of the form n*y - n*tf(y) with n an integer
        r = q
        for x in {x for m, _ in tf for x, _ in m if x[0] == 'tf'}:
            # coefficient of the atom
            co = [(tuple((y, e) for y, e in m if y != x), c) for m, c in q[1] if dict(m).get(x) == 1]
            k = qdiv(('Q', pnorm(dict(co)), ONE), ('Q', q[2], ONE))
            r = qadd(r, qmul(k, qsub(self.frac[x], qatom(x))))
            if k[2] != ONE or any(y[0] == 'tf' for y in atoms_of(k[1])):
                return False
        return r[2] == ONE and not any(y[0] == 'tf' for y in atoms_of(r[1]))

    def split(self, q):
        """q = base + c with c rational and base free of a constant part."""
        if len(q[2]) != 1:
            return q, Fraction(0)
        m, c = q[2][0]
        k = dict(q[1]).get(m, 0)
        if not k:
            return q, Fraction(0)
        f = Fraction(k, c)
        return qsub(q, qc(f.numerator, f.denominator)), f

    def tatom(self, q):
        """Fractional part (towards zero) of a value with no constant part."""
        neg = q[1][-1][1] < 0
        key = qneg(q) if neg else q
        if key[2] == pconst(2) and not any(x[0] == 'tf' for x in atoms_of(key[1])):
            # half of an integer: 0 or +-1/2 by parity and sign
            if not self.odd(('Q', key[1], ONE)):
                return qc(0)
            f = qc(self.sign(key), 2)
            return qneg(f) if neg else f
        if self.subst.get(('denominator', key)) == qc(1):
            return qc(0)
        if len(key[2]) == 1 and key[2][0][0] == ():
            lo, hi = self.interval(key[1])
            if lo is not None and hi is not None and -key[2][0][1] < lo and hi < key[2][0][1]:
                return q
        a = ('tf', key)
        if a in self.subst:
            return self.subst[a] if not neg else qneg(self.subst[a])
        if a not in self.frac:
            self.frac[a] = key
            self.info[a] = (-1, 1)
        f = qatom(a)
        return qneg(f) if neg else f

    def tfonly(self, q):
        """The fraction atom if q is an integer multiple of one, else None."""
        if q[2] == ONE and len(q[1]) == 1 and len(q[1][0][0]) == 1:
            (x, e), = q[1][0][0]
            if x[0] == 'tf' and e == 1:
                return x, q[1][0][1]
        return None

    def floor(self, q):
        q = self.norm(q)
        c = qconst(q)
        if c is not None:
            return qc(c.numerator // c.denominator)
        if self.integral(q):
            return q
        if len(q[2]) == 1 and q[2][0][0] == ():
            lo, hi = self.interval(q[1])
            d = q[2][0][1]
            if lo is not None and hi is not None and self.sure(q) and -d <= lo and hi < d:
                return qc(0) if lo >= 0 or self.sign(q) >= 0 else qc(-1)
        base, c = self.split(q)
        if qconst(base) is not None:
            return self.floor(qadd(base, qc(c.numerator, c.denominator)))
        if self.integral(base):
            return qadd(base, self.floor(qc(c.numerator, c.denominator)))
        t = self.tfonly(base)
        if t:
            x, k = t
            s = self.asign(x)
            if s == 0:
                return qc(c.numerator // c.denominator)
            lo, hi = sorted((0, s * k))
            lo, hi = Fraction(lo) + c, Fraction(hi) + c        # strictly between
            n = hi.numerator // hi.denominator
            n = n - 1 if n == hi else n
            while n > lo:
                if self.sign(qsub(q, qc(n))) >= 0:
                    return qc(n)
                n -= 1
            return qc(lo.numerator // lo.denominator)
        whole, rest = self.whole(base)
        if whole is not None:
            return qadd(whole, self.floor(qadd(rest, qc(c.numerator, c.denominator))))
        f = self.tatom(base)
        t = qsub(base, f)
        return qadd(t, self.floor(qadd(f, qc(c.numerator, c.denominator))))

    def sure(self, q):
        """Bounds that are attained by integers only (no fractional parts occur)."""
        return not any(x[0] == 'tf' for x in atoms_of(q[1]))

    def whole(self, q):
        """Separates the part of a sum that is known to be an integer."""
        if q[2] != ONE:
            return None, None
        tf = tuple((m, c) for m, c in q[1] if any(x[0] == 'tf' for x, _ in m))
        rest = tuple(t for t in q[1] if t not in tf)
        if rest and tf:
            return ('Q', rest, ONE), ('Q', tf, ONE)
        return None, None

    def tfrac(self, q):
        """q - truncate(q)."""
        q = self.norm(q)
        return qsub(q, self.trunc(q))

    def trunc(self, q):
        q = self.norm(q)
        c = qconst(q)
        if c is not None:
            return qc(int(c))
        if self.integral(q):
            return q
        base, c = self.split(q)
        if c == 0 and not self.tfonly(base) and self.whole(base)[0] is None:
            return qsub(q, self.tatom(q))
        f = self.floor(q)
        if self.sign(q) >= 0 or self.sign(qsub(q, f)) == 0:
            return f
        return qadd(f, qc(1))

    def ceil(self, q):
        f = self.floor(q)
        return f if self.sign(qsub(q, f)) == 0 else qadd(f, qc(1))

    def nearest(self, q):
        """The nearest integer, the even one of two."""
        f = self.floor(qadd(q, qc(1, 2)))
        if self.sign(qsub(qadd(q, qc(1, 2)), f)) == 0 and self.odd(f):
            return qsub(f, qc(1))
        return f

    def odd(self, q):
        """Parity of an integer value."""
        base, c = self.split(q)
        b = qconst(base)
        if b is not None:
            return (b + c) % 2 == 1
        # drop even terms
        base = ('Q', tuple((m, k) for m, k in base[1] if k % 2), ONE) if base[2] == ONE else base
        if not base[1]:
            return c % 2 == 1
        if base[2] == ONE:
            base = ('Q', tuple((m, 1) for m, k in base[1]), ONE)
        key = (('odd', base),)
        if key not in self.signs and self.signs.get(base[1]) == 0:
            return c % 2 == 1
        if key not in self.signs:
            self.signs[key] = self.fork(2)
            self.path.conds.append((('odd', base), self.signs[key], None))
        return (self.signs[key] + c) % 2 == 1

    # ---- floats -----------------------------------------------------------------
    def fnorm(self, t, kind='double'):
        if is_int(t):
            return ('toD', qc(t[1]))
        if isq(t):
            return ('toD', t)
        if isinstance(t, tuple) and t and t[0] == 'float':
            try:
                return ('toD', qc(Fraction(t[1].rstrip('fFlL'))))
            except (ValueError, ZeroDivisionError, OverflowError):
                return t
        if isinstance(t, tuple) and t and t[0] == 'fcast':
            return self.fcast(t[2], t[3])
        return t

    def fcast(self, to, v):
        v = self.toq(v)
        if isq(v):
            return ('toD', v) if to != 'float' else ('toF', v)
        if isinstance(v, tuple) and v and v[0] == 'toD' and to == 'float':
            return ('toF', v[1])
        if isinstance(v, tuple) and v and v[0] == 'float':
            return self.fnorm(v)
        if to == 'float':
            return v if self.is_float32(v) else ('narrow', v)
        return v

    def is_float32(self, v):
        return isinstance(v, tuple) and v and (v[0] in ('toF', 'narrow') or v in self.float32)

    float32 = frozenset()

    def isnan(self, v):
        v = self.fnorm(v)
        if isinstance(v, tuple) and v and v[0] in ('toD', 'toF'):
            return False
        if self.known.get(('isinf', v)):
            return False
        return self.decide(('isnan', v))

    def isinf(self, v):
        v = self.fnorm(v)
        if isinstance(v, tuple) and v and v[0] in ('toD', 'toF'):
            return False
        if self.known.get(('isnan', v)):
            return False
        return self.decide(('isinf', v))

    def fval(self, v):
        """What a comparison looks at."""
        v = self.fnorm(v)
        if isinstance(v, tuple) and v and v[0] in ('toD', 'toF') and isq(v[1]):
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'dval':
            return v[1]
        return v

    def fsign(self, a, b):
        """Sign of a - b for values at least one of which is inexact; None if unordered."""
        a, b = self.fval(a), self.fval(b)
        for x in (a, b):
            if not isq(x) and self.isnan(x):
                return None
        if isq(a) and isq(b):
            return self.sign(qsub(a, b))
        if a == b:
            return 0
        s = 1
        if repr(a) > repr(b):
            a, b, s = b, a, -1
        key = ('fdiff', a, b)
        if key not in self.signs:
            opts = (-1, 0, 1)
            c = opts[self.fork(3)]
            self.signs[key] = c
            self.path.conds.append((('order', a, b), c, None))
        return s * self.signs[key]

    # ---- expressions -----------------------------------------------------------
    def is_num(self, v):
        return isq(v) or (isinstance(v, tuple) and v and v[0] in ('toD', 'toF', 'fop', 'narrow', 'fn1'))

    def simplify(self, t):
        if t[0] == 'icast' and isq(t[2]):
            return self.narrow(t[2], t[1])
        if t[0] == 'fcast':
            if t[1] == 'IntegralToFloating' or t[1] == 'FloatingCast':
                return self.fcast(t[2], t[3])
            if t[1] == 'FloatingToIntegral':
                return self.narrow(self.zofd(t[3]), t[2])
        if t[0] == 'tobool' and isq(t[1]):
            return I(int(self.sign(t[1]) != 0))
        if t[0] == '~' and isq(t[1]):
            return self.fit(qsub(qc(-1), t[1]), 'long')
        if t[0] == 'neg' and isq(t[1]):
            return self.fit(qneg(t[1]), 'long')
        if t[0] == 'not' and isq(t[1]):
            return I(int(self.sign(t[1]) == 0))
        if t[0] == 'not' and is_int(t[1]):
            return I(int(not t[1][1]))
        if t[0] == 'neg' and isinstance(t[1], tuple) and t[1] and (t[1][0] in ('toD', 'fop', 'v')):
            return ('fop', 'neg', t[1])
        return super().simplify(t)

    def narrow(self, q, t):
        """Conversion of an integer to a bounded type."""
        w = INT_TYPES.get(bare(t))
        if not w:
            return q
        if w[0] == 1:
            return I(int(self.sign(q) != 0))
        lo, hi = (-(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1) if w[1] else (0, (1 << w[0]) - 1)
        if self.within(q, lo, hi):
            return q
        return qatom(('wrap', bare(t), q))

    def within(self, q, lo, hi):
        q = self.norm(q)
        a, b = self.interval(q[1]) if q[2] == ONE else (None, None)
        if a is not None and b is not None and lo <= a and b <= hi:
            return True
        def side(bound, others, s):
            for b in (bound,) + others:
                t = self.known_sign(qsub(q, qc(b)))
                if t is not None and t * s >= 0:
                    return True
            return False
        std = tuple(x for b in (7, 8, 15, 16, 31, 32, 63, 64) for x in (-(1 << b), (1 << b) - 1)) + (0,)
        return side(lo, tuple(x for x in std if lo < x <= hi), 1) and side(hi, tuple(x for x in std if lo <= x < hi), -1)

    def known_sign(self, q):
        """Sign if already decided on this path (no partitioning)."""
        if self.nofork:
            return None
        self.nofork = True
        try:
            return self.sign(q)
        except Unknown:
            pass
        finally:
            self.nofork = False
        if q[2] != ONE:
            return None
        lo, hi = self.interval(q[1])
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi <= 0:
            return -1
        return None

    nofork = False

    def fork(self, n=2):
        if self.nofork:
            raise Unknown()
        return super().fork(n)

    def fit(self, q, t):
        """An arithmetic result in a bounded C++ type."""
        w = INT_TYPES.get(bare(t))
        if not w or not isq(q) or q[2] != ONE:
            return q
        bits = max(w[0], 32)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if w[1] else (0, (1 << bits) - 1)
        if self.within(q, lo, hi):
            return q
        if w[1]:
            self.trap.append(('signed overflow', q, lo, hi))
        return qatom(('wrap', bare(t), q))

    def zofd(self, d):
        """Integer part of an inexact value."""
        d = self.fnorm(d)
        if isinstance(d, tuple) and d and d[0] in ('toD', 'toF') and qconst(d[1]) is not None:
            return self.trunc(d[1])
        a = ('zofd', d)
        b = (None, None)
        if isinstance(d, tuple) and d and d[0] == 'fn1' and d[1] == 'sqrt' and len(d) == 3 and isinstance(d[2], tuple) and d[2][0] in ('toD', 'toF') and d[2][1][2] == ONE:
            lo, hi = self.interval(d[2][1][1])
            if hi is not None and hi >= 0:
                from math import isqrt
                b = (0, isqrt(hi) + (hi >= 1 << 52))
        self.info.setdefault(a, b)
        return qatom(a)

    def binop(self, op, a, b, t, n=None):
        if isq(a) and is_int(b):
            b = self.toq(b)
        elif isq(b) and is_int(a):
            a = self.toq(a)
        if isq(a) and isq(b):
            if op in CMP:
                d = qsub(a, b)
                if op in ('<', '<=', '>', '>=') and d[2] == ONE:
                    lo, hi = self.interval(d[1])
                    if op in ('>=', '<') and lo is not None and lo >= 0:
                        return I(int(op == '>='))
                    if op in ('<=', '>') and hi is not None and hi <= 0:
                        return I(int(op == '<='))
                s = self.sign(d)
                return I(int({'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]))
            if op in OPS:
                return self.fit(OPS[op](a, b), t)
            if op in ('/', '%'):
                if self.sign(b) == 0:
                    self.trap.append(('integer division by zero', a))
                    raise Stop('trap')
                f = self.tfrac(qdiv(a, b))
                return self.fit(qmul(b, f), t) if op == '%' else qsub(qdiv(a, b), f)
            if op in ('&', '|', '^'):
                return self.bits(op, a, b)
            if op in ('<<', '>>'):
                return self.shift(a, b, op, t)
        fa, fb = self.floatish(a, n, 'a'), self.floatish(b, n, 'b')
        if fa or fb:
            if op in CMP:
                s = self.fsign(a, b)
                return I(int(s is not None and {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0, '==': s == 0}.get(op, s != 0) if s is not None else op == '!='))
            if op in '+-*/':
                return self.fop(op, a, b, t)
        return super().binop(op, a, b, t, n)

    def bits(self, op, x, y):
        """Bitwise operation on integers in two's complement."""
        x, y = sorted((self.norm(x), self.norm(y)), key=repr)
        for a, b in ((x, y), (y, x)):
            c = qconst(a)
            if c == 0:
                return qc(0) if op == '&' else b
            if c == -1:
                return b if op == '&' else qc(-1) if op == '|' else qsub(qc(-1), b)
        if qconst(x) is not None and qconst(y) is not None:
            a, b = int(qconst(x)), int(qconst(y))
            return qc(a & b if op == '&' else a | b if op == '|' else a ^ b)
        if x == y:
            return qc(0) if op == '^' else x
        return self.opaque((op, x, y))

    def opaque(self, key):
        a = key
        self.info.setdefault(a, (None, None))
        if key[0] in ('&', '|', '^') and all(self.within(x, *INT32) for x in key[1:]):
            self.info[a] = INT32
        return qatom(a)

    def shift(self, a, b, op, t):
        c = qconst(b)
        if c is not None and c.denominator == 1 and 0 <= c < 200:
            if op == '<<':
                return self.fit(qmul(a, qc(1 << int(c))), t)
            return self.floor(qmul(a, qc(1, 1 << int(c))))
        return self.opaque(('shift', op, a, b))

    def scalar_eq(self, x, y):
        if tn(x[1]) == 'int':
            return I(int(self.sign(qsub(self.toq(x[2]), self.toq(y[2]))) == 0))
        return super().scalar_eq(x, y)

    def fop(self, op, a, b, t):
        a, b = self.fnorm(a), self.fnorm(b)
        w = bare(t)
        if w == 'float':
            a, b = self.to32(a), self.to32(b)
        if op in '+*':
            a, b = sorted((a, b), key=repr)
        return ('fop', op if w != 'float' else op + 'f', a, b)

    def to32(self, v):
        return ('toF', v[1]) if isinstance(v, tuple) and v and v[0] == 'toD' else v

    def floatish(self, v, n, side):
        if isinstance(v, tuple) and v and v[0] in ('toD', 'toF', 'fop', 'float', 'narrow', 'fn1', 'dval'):
            return True
        if n is not None and isinstance(n.get(side), dict) and bare(n[side].get('t', '')) in FLOAT_TYPES:
            return True
        return False

    # ---- GMP --------------------------------------------------------------------
    def e_mem(self, n):
        if n['n'] in ('_mp_size', '_mp_num', '_mp_den'):
            b = n['b']
            while b['k'] in ('un', 'cast', 'paren') and b.get('op', '*') == '*':
                b = b['e']
            v = self.rv(self.ev(b))
            if isinstance(v, tuple) and v and v[0] == 'addr':
                v = self.rv(LV(v[1]))
            if n['n'] == '_mp_size':
                return I(self.sign(v)) if isq(v) else ('opaque', 'size')
            if isq(v):
                r = self.num_of(v) if n['n'] == '_mp_num' else self.den_of(v)
            elif isinstance(v, tuple) and v and v[0] == 'raw':
                r = v[1] if n['n'] == '_mp_num' else v[2]
            else:
                return ('opaque', n['n'], 0)
            lv = LV(('part', self.new_frame(), n['n']))
            self.store[lv.key] = r
            return lv
        return super().e_mem(n)

    def num_of(self, q):
        """Numerator in lowest terms."""
        q = self.norm(q)
        if q[2] == ONE and not any(x[0] == 'tf' for x in atoms_of(q[1])):
            return q
        if self.is_ratio_atom(q):
            return ('Q', q[1], ONE)
        if self.is_ratio_atom(qneg(q)):
            return ('Q', q[1], ONE)
        return qmul(q, self.den_of(q))

    def den_of(self, q):
        q = self.norm(q)
        if q[2] == ONE and not any(x[0] == 'tf' for x in atoms_of(q[1])):
            return qc(1)
        if self.is_ratio_atom(q) or self.is_ratio_atom(qneg(q)):
            return ('Q', q[2], ONE)
        key = q if q[1][-1][1] > 0 else qneg(q)
        a = ('denominator', key)
        if self.subst.get(('tf', key)) == qc(0):
            return qc(1)
        self.info.setdefault(a, (1, None))
        return qatom(a)

    def is_ratio_atom(self, q):
        return len(q[1]) == 1 and len(q[2]) == 1 and len(q[1][0][0]) == 1 and q[1][0][0][0][0][0] == 'num' and len(q[2][0][0]) == 1 and q[2][0][0][0][0] == ('den', q[1][0][0][0][0][1]) and q[1][0][0][0][1] == 1 and abs(q[1][0][1]) == 1 and q[2][0][1] == 1

    def gmp(self, n, q, args, ev):
        m = q[5:] if q.startswith('__gmp') else None
        if m is None or m[1:2] != '_':
            return None
        fam, op = m[0], m[2:]

        def val(i):
            v = ev(i)
            v = self.rv(v)
            if isinstance(v, tuple) and v and v[0] == 'addr':
                v = self.rv(LV(v[1]))
            v = self.toq(v)
            if isinstance(v, tuple) and v and v[0] == 'raw':
                self.trap.append(('operand is not in lowest terms', v))
                return qdiv(v[1], v[2])
            return v

        def num(i):
            v = val(i)
            if not isq(v):
                raise Stop('unknown integer operand')
            return v

        def dst(i):
            v = ev(i)
            if isinstance(v, LV):
                x = self.store.get(v.key)
                if isinstance(x, tuple) and x and x[0] == 'addr':
                    return LV(x[1])
                return v
            if isinstance(v, tuple) and v and v[0] == 'addr':
                return LV(v[1])
            raise Stop('unknown destination')

        def put(i, x):
            self.assign(dst(i), x, n)
            return UNSPEC
        if op in ('init',):
            return put(0, qc(0))
        if op in ('clear', 'init2', 'realloc2'):
            return UNSPEC
        if op in ('set', 'init_set', 'set_z'):
            return put(0, num(1))
        if op in ('set_si', 'set_ui', 'init_set_si', 'init_set_ui'):
            v = num(1)
            if fam == 'q' and len(args) == 3:
                d = num(2)
                c = qconst(d)
                return put(0, qdiv(v, d) if c == 1 else ('raw', v, d))
            return put(0, v)
        if op in ('set_d', 'init_set_d'):
            d = self.fnorm(self.rv(ev(1)))
            if not (isinstance(d, tuple) and d[0] in ('toD', 'toF')):
                if self.isnan(d) or self.isinf(d):
                    self.trap.append(('conversion of a value that is not finite', d))
                    raise Stop('trap')
            if fam == 'q':
                if isinstance(d, tuple) and d[0] == 'toD' and qconst(d[1]) is not None:
                    return put(0, d[1])
                return put(0, self.opaque(('dval', d)))
            return put(0, self.zofd(d))
        if op == 'swap':
            a, b = dst(0), dst(1)
            x, y = self.rv(a), self.rv(b)
            self.assign(a, y, n)
            self.assign(b, x, n)
            return UNSPEC
        if op in ('add', 'sub', 'mul'):
            return put(0, {'add': qadd, 'sub': qsub, 'mul': qmul}[op](num(1), num(2)))
        if op in ('add_ui', 'sub_ui', 'mul_ui', 'mul_si'):
            return put(0, {'add': qadd, 'sub': qsub, 'mul': qmul}[op[:3]](num(1), num(2)))
        if op == 'ui_sub':
            return put(0, qsub(num(1), num(2)))
        if op == 'neg':
            return put(0, qneg(num(1)))
        if op == 'abs':
            v = num(1)
            return put(0, qneg(v) if self.sign(v) < 0 else v)
        if op == 'inv':
            v = num(1)
            self.nonzero(v, n)
            return put(0, qdiv(qc(1), v))
        if fam == 'q' and op == 'div':
            d = num(2)
            self.nonzero(d, n)
            return put(0, qdiv(num(1), d))
        if fam == 'q' and op == 'canonicalize':
            d = dst(0)
            v = self.rv(d)
            if isinstance(v, tuple) and v and v[0] == 'raw':
                self.nonzero(v[2], n)
                self.assign(d, qdiv(v[1], v[2]), n)
            return UNSPEC
        if fam == 'q' and op in ('set_num', 'set_den'):
            d = dst(0)
            v = self.rv(d)
            a, b = (v[1], v[2]) if isinstance(v, tuple) and v and v[0] == 'raw' else (self.num_of(v), self.den_of(v))
            if op == 'set_num':
                a = num(1)
            else:
                b = num(1)
            self.assign(d, ('raw', a, b), n)
            return UNSPEC
        if fam == 'q' and op in ('get_num', 'get_den'):
            v = num(1)
            return put(0, self.num_of(v) if op == 'get_num' else self.den_of(v))
        if fam == 'z' and op.split('_')[0] in ('tdiv', 'fdiv', 'cdiv') and '2exp' not in op:
            parts = op.split('_')
            a, b = num(len(parts[1])), num(len(parts[1]) + 1)
            self.nonzero(b, n)
            z = qdiv(a, b)
            t = {'tdiv': self.trunc, 'fdiv': self.floor, 'cdiv': self.ceil}[parts[0]](z)
            r = qsub(a, qmul(b, t))
            if parts[1] == 'q':
                put(0, t)
            elif parts[1] == 'r':
                put(0, r)
            else:
                put(0, t)
                put(1, r)
            return UNSPEC
        if fam == 'z' and op in ('mod',):
            a, b = num(1), num(2)
            self.nonzero(b, n)
            z = qdiv(a, b)
            t = self.floor(z) if self.sign(b) > 0 else self.ceil(z)
            return put(0, qsub(a, qmul(b, t)))
        if fam == 'z' and op == 'divexact':
            a, b = num(1), num(2)
            self.nonzero(b, n)
            return put(0, qdiv(a, b))
        if op in ('cmp', 'cmp_si', 'cmp_ui', 'cmp_z'):
            b = num(1)
            if len(args) == 3:
                b = qdiv(b, num(2))
            return I(self.sign(qsub(num(0), b)))
        if op == 'cmp_d':
            d = self.rv(ev(1))
            z = num(0)
            s = self.fsign(('toD', z), d)
            if s is None:
                self.trap.append(('comparison with NaN', d))
                raise Stop('trap')
            return I(s)
        if op == 'equal':
            return I(int(self.sign(qsub(num(0), num(1))) == 0))
        if op == 'sgn':
            return I(self.sign(num(0)))
        if op == 'get_d':
            v = num(0)
            return ('toD', v)
        if op in ('get_si', 'get_ui'):
            v = num(0)
            return self.narrow(v, 'long' if op == 'get_si' else 'unsigned long')
        if op.startswith('fits_') and op.endswith('_p'):
            lo, hi = {'slong': INT64, 'sint': INT32, 'ulong': (0, 2 ** 64 - 1), 'uint': (0, 2 ** 32 - 1), 'sshort': (-2 ** 15, 2 ** 15 - 1), 'ushort': (0, 2 ** 16 - 1)}[op[5:-2]]
            v = num(0)
            return I(int(self.sign(qsub(v, qc(lo))) >= 0 and self.sign(qsub(v, qc(hi))) <= 0))
        if op in ('pow_ui', 'ui_pow_ui'):
            return put(0, self.power(num(1), num(2)))
        if op in ('and', 'ior', 'xor'):
            return put(0, self.bits({'and': '&', 'ior': '|', 'xor': '^'}[op], num(1), num(2)))
        if op == 'com':
            return put(0, qsub(qc(-1), num(1)))
        if op in ('mul_2exp',):
            return put(0, self.times2(num(1), num(2)))
        if op in ('fdiv_q_2exp', 'tdiv_q_2exp'):
            v, k = num(1), num(2)
            z = self.times2(v, qneg(k))
            return put(0, self.floor(z) if op[0] == 'f' else self.trunc(z))
        if op == 'gcd':
            return put(0, self.gcd(num(1), num(2)))
        if op == 'lcm':
            a, b = num(1), num(2)
            return put(0, self.lcm(a, b))
        if op in ('sqrt', 'sqrtrem', 'rootrem', 'root', 'perfect_square_p'):
            v = num(2 if op in ('sqrtrem', 'rootrem') else 1 if op != 'perfect_square_p' else 0)
            if op in ('rootrem', 'root') and qconst(num(len(args) - 1)) != 2:
                raise Stop('root')
            if self.sign(v) < 0:
                self.trap.append(('square root of a negative number', v))
                raise Stop('trap')
            s = self.isqrt(v)
            rem = qsub(v, qmul(s, s))
            if op == 'perfect_square_p':
                return I(int(self.sign(rem) == 0))
            put(0, s)
            if op in ('sqrtrem', 'rootrem'):
                put(1, rem)
                return UNSPEC
            return I(int(self.sign(rem) == 0)) if op == 'root' else UNSPEC
        raise Stop('gmp ' + q)

    def isqrt(self, v):
        c = qconst(v)
        if c is not None and c.denominator == 1:
            from math import isqrt
            return qc(isqrt(int(c)))
        a = ('isqrt', v)
        self.info.setdefault(a, (0, None))
        return qatom(a)

    def times2(self, v, k):
        c = qconst(k)
        if c is not None:
            c = int(c)
            return qmul(v, qc(1 << c)) if c >= 0 else qmul(v, qc(1, 1 << -c))
        a = ('exp2', k if k[1][-1][1] > 0 else qneg(k))
        self.info.setdefault(a, (1, None))
        return qmul(v, qatom(a)) if k[1][-1][1] > 0 else qdiv(v, qatom(a))

    def power(self, b, e):
        b, e = self.norm(b), self.norm(e)
        if qconst(b) == 1:
            return qc(1)
        c = qconst(e)
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            r = qc(1)
            for _ in range(int(c)):
                r = qmul(r, b)
            return r
        return self.opaque(('pow', b, e))

    def gcd(self, a, b):
        for x, y in ((a, b), (b, a)):
            if self.sign(y) == 0:
                return qneg(x) if self.sign(x) < 0 else x
        for x, y in ((a, b), (b, a)):
            r = self.remainder_of(x, y)
            if r is not None:
                return self.gcd(r, y)
        for x, y in ((a, b), (b, a)):
            z = qdiv(x, y)
            f = ('tf', z if z[1][-1][1] > 0 else qneg(z))
            if self.signs.get(((((f, 1),), 1),)) == 0 or z[2] == ONE:
                return qneg(y) if self.sign(y) < 0 else y
        a, b = [x if x[1][-1][1] > 0 else qneg(x) for x in (a, b)]
        a, b = sorted((a, b), key=repr)
        k = ('gcd', a, b)
        self.info.setdefault(k, (1, None))
        return qatom(k)

    def remainder_of(self, r, y):
        """x if r is the remainder of x divided by +-y."""
        for x in atoms_of(r[1]):
            if x[0] == 'tf':
                for z in (y, qneg(y)):
                    if qeq(r, qmul(z, qatom(x))):
                        return qmul(self.frac[x], z)
        return None

    def lcm(self, a, b):
        if self.sign(a) == 0 or self.sign(b) == 0:
            return qc(0)
        p = qmul(a, b)
        p = qneg(p) if self.sign(p) < 0 else p
        return qdiv(p, self.gcd(a, b))

    def nonzero(self, v, n):
        if self.sign(v) == 0:
            self.trap.append(('division by zero', v))
            raise Stop('trap')

    # ---- calls --------------------------------------------------------------------
    def std_call(self, n, q, obj, args, ev):
        if q == '__builtin_constant_p':
            return I(0)
        if q and q.startswith('__gmp'):
            return self.gmp(n, q, args, ev)
        if q in ('std::isnan', 'isnan', 'std::isinf', 'isinf', 'std::isfinite', 'isfinite', 'std::signbit'):
            v = self.rv(ev(0))
            m = q.split('::')[-1]
            if m == 'isnan':
                return I(int(self.isnan(v)))
            if m == 'isinf':
                return I(int(self.isinf(v)))
            if m == 'isfinite':
                return I(int(not self.isnan(v) and not self.isinf(v)))
        if q in ('std::abs', 'abs', 'labs', 'std::fabs', 'fabs') and len(args) == 1:
            v = self.rv(ev(0))
            v = self.toq(v)
            if isq(v):
                return self.fit(qneg(v) if self.sign(v) < 0 else v, n.get('t', 'long'))
            return ('fn1', 'fabs', self.fnorm(v))
        if q and (q.startswith('std::') and n.get('t') in ('double', 'float') or q in CMATH) and obj is None and args and cmath_name(q) in CMATH:
            m = cmath_name(q)
            return ('fn1', m) + tuple(self.fnorm(self.rv(ev(i))) for i in range(len(args)))
        if q in ('std::min', 'std::max') and len(args) == 2:
            vs = [self.toq(self.rv(ev(i))) for i in range(2)]
            if all(isq(v) for v in vs):
                s = self.sign(qsub(vs[1], vs[0]))
                return vs[1] if (s < 0 if q == 'std::min' else s > 0) else vs[0]
        if q and q.startswith('std::') and q.endswith('::operator()') and q.split('::')[1] in FUNCTORS and len(args) == 2:
            return self.std_functor(FUNCTORS[q.split('::')[1]], n, args, ev)
        if q and q.startswith('std::numeric_limits::') and not args:
            t = bare(n.get('t', ''))
            w = INT_TYPES.get(t)
            m = q.rsplit('::', 1)[-1]
            if w and m in ('min', 'max', 'lowest'):
                lo, hi = (-(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1) if w[1] else (0, (1 << w[0]) - 1)
                return I(hi if m == 'max' else lo)
            return ('fn1', 'limit', ('str', m), ('str', t))
        return super().std_call(n, q, obj, args, ev)

    def std_functor(self, op, n, args, ev):
        ts = [bare(a.get('t', '')) for a in args]
        a, b = ev(0), ev(1)

        def canon(t):
            return t if t not in ('meevax::widen_integer', 'widen_integer') else 'long'
        ts = [canon(t) for t in ts]
        for f in self.F.by_q.get('meevax::operator' + op, ()):
            if [canon(bare(p['t'])) for p in f['params']] == ts:
                return self.call_fn(f, None, [a, b], n)
        if all(t in INT_TYPES or t in FLOAT_TYPES for t in ts):
            rt = n.get('t', 'long')
            fl = [t for t in ts if t in FLOAT_TYPES]
            ct = ('double' if 'double' in fl else 'float') if fl else 'long'
            node = {'a': {'t': ct}, 'b': {'t': ct}}
            return self.binop(op, self.toq(self.rv(a)), self.toq(self.rv(b)), rt if op not in CMP else 'bool', node)
        return None

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'meevax::make':
            ta = n.get('ta') or ['?']
            t = tn(ta[0])
            if t in ('int', 'float', 'double', 'long') and len(args) == 1:
                v = self.rv(ev(0))
                if t == 'int':
                    return ('imm', 'int', self.toq(v))
                if t in ('float', 'double'):
                    return ('imm', t, self.fcast(t, v))
        if q and q.endswith('operator unsigned long') or q and q.endswith('operator long') and q.startswith('meevax::'):
            pass
        if q == 'meevax::exact_integer_cast' and len(args) == 1:
            k, v = self.numval(self.rv(ev(0)))
            if k == 'exact' and isq(v):
                return self.narrow(v, (n.get('ta') or ['long'])[0])
        return super().call_hook(n, q, fn, obj, args, ev)

    def as_(self, x, t, n):
        r = super().as_(x, t, n)
        return r


def cmath_name(q):
    m = q.split('::')[-1]
    return m if m in CMATH else m[:-1] if m.endswith('f') else m


CMATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'pow', 'hypot', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fmod', 'remainder', 'fmin', 'fmax', 'copysign', 'nextafter', 'ldexp', 'erf', 'erfc', 'tgamma', 'lgamma', 'fma', 'fdim', 'logb', 'ilogb'}
