"""Known-bits domain: machine words whose bits are constants or named input bits.

A word is ('bits', (b0, b1, ...)), least significant first; every b is 0, 1 or
an atom naming one bit of the input.  Masks, shifts, unions of disjoint words
and conversions are exact; comparisons are decided from the known bits."""
from .interp import *


class Undecided(Exception):
    pass


def const(n, w):
    n %= 1 << w
    return ('bits', tuple(n >> i & 1 for i in range(w)))


def word(name, w, low=0):
    return ('bits', tuple(('b', name, i) for i in range(low, low + w)))


def is_bits(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'bits'


def value(v):
    """The number a constant word denotes."""
    return sum(b << i for i, b in enumerate(v[1])) if all(b in (0, 1) for b in v[1]) else None


def bounds(v, signed=False):
    bs = v[1]
    lo = sum((1 if b == 1 else 0) << i for i, b in enumerate(bs))
    hi = sum((0 if b == 0 else 1) << i for i, b in enumerate(bs))
    if signed and bs:
        s = bs[-1]
        w = len(bs)
        if s == 1:
            return lo - (1 << w), hi - (1 << w)
        if s != 0:
            return -(1 << (w - 1)), hi - (1 << (w - 1)) if hi >> (w - 1) else hi
    return lo, hi


def text(v):
    """Readable form, most significant bit first."""
    if not is_bits(v):
        return show(v)
    out, i, bs = [], 0, tuple(reversed(v[1]))
    while i < len(bs):
        b = bs[i]
        if b in (0, 1):
            out.append(str(b))
            i += 1
        else:
            j = i
            while j + 1 < len(bs) and bs[j + 1] not in (0, 1) and bs[j + 1][1] == b[1] and bs[j + 1][2] == bs[j][2] - 1:
                j += 1
            out.append('<%s:%d..%d>' % (b[1], b[2], bs[j][2]) if j > i else '<%s:%d>' % (b[1], b[2]))
            i = j + 1
    return ''.join(out)


class Bits(Interp):
    """Interpreter whose integers are words of known and input bits."""

    def width(self, t):
        t = bare(t)
        if t.endswith('*') or t == 'double':
            return 64, False
        if t == 'float':
            return 32, False
        if t == 'bool':
            return 8, False
        if t in INT_TYPES:
            return INT_TYPES[t]
        e = self.F.enums.get(t) or self.F.enums.get(t.replace('::kernel', ''))
        if e:
            return 32, False
        return None

    def as_word(self, v, w):
        v = self.rv(v)
        if is_int(v):
            return const(v[1], w)
        if isinstance(v, tuple) and v and v[0] == 'enum':
            return const(v[2], w)
        return v if is_bits(v) else None

    def resize(self, v, w, signed=False):
        bs = v[1]
        if len(bs) >= w:
            return ('bits', bs[:w])
        fill = bs[-1] if signed and bs else 0
        return ('bits', bs + (fill,) * (w - len(bs)))

    def e_cast(self, n):
        if n['c'] in ('IntegralCast', 'NoOp', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(self.ev(n['e'])) if n['c'] != 'NoOp' else None
            if v is not None and is_bits(v):
                if n['c'] == 'IntegralToBoolean' or bare(n['t']) == 'bool':
                    return self.nonzero(v)
                w = self.width(n['t'])
                src = self.width(n['e'].get('t', ''))
                if w:
                    return self.resize(v, w[0], bool(src and src[1]))
            if v is not None and is_int(v):
                w = self.width(n['t'])
                return I(wrap(v[1], n['t'])) if w else v
        return super().e_cast(n)

    def subst(self, v):
        """The word with the bits fixed by the conditions of the path."""
        fixed = self.fixed_bits()
        if not fixed or not is_bits(v):
            return v
        return ('bits', tuple(fixed.get(b, b) for b in v[1]))

    def fixed_bits(self):
        out = {}
        for t, c in self.known.items():
            if isinstance(t, tuple) and t and t[0] == 'bitsare':
                if c:
                    out.update(t[1])
                elif len(t[1]) == 1:
                    out[t[1][0][0]] = 1 - t[1][0][1]
        return out

    def nonzero(self, v):
        v = self.subst(v)
        if value(v) is not None:
            return I(int(value(v) != 0))
        if any(b == 1 for b in v[1]):
            return I(1)
        return ('nonzero', v)

    def decide(self, t, node=None):
        t = self.rv(t)
        if is_bits(t):
            t = self.nonzero(t)
        if isinstance(t, tuple) and t and t[0] == 'nonzero':
            v = self.subst(t[1])
            if value(v) is not None:
                return value(v) != 0
            return not self.decide(('bitsare', tuple(sorted((b, 0) for b in set(v[1]) if b not in (0, 1)))), node)
        return super().decide(t, node)

    def decide_hook(self, t):
        if isinstance(t, tuple) and t and t[0] == 'bitsare':
            fixed = self.fixed_bits()
            if any(fixed.get(b, v) != v for b, v in t[1]):
                return False
            if all(fixed.get(b) == v for b, v in t[1]):
                return True
        return super().decide_hook(t)

    def boolean(self, v):
        v = self.rv(v)
        return self.nonzero(v) if is_bits(v) else super().boolean(v)

    def binop(self, op, a, b, t, n=None):
        if is_bits(a) or is_bits(b):
            w = len(a[1]) if is_bits(a) else len(b[1])
            if is_bits(a) and is_bits(b):
                w = max(len(a[1]), len(b[1]))
            r = self.width(t)
            if op not in CMP and r:
                w = r[0]
            x, y = self.as_word(a, w), self.as_word(b, w if op not in ('<<', '>>') else 32)
            if x is None or y is None:
                return super().binop(op, a, b, t, n)
            signed = False
            if n is not None:
                s = self.width(n['a'].get('t', ''))
                signed = bool(s and s[1])
            v = self.word_op(op, x, y, w, signed)
            if v is not None:
                return v
            raise Stop('%s %s %s is not decided by the known bits' % (text(x), op, text(y)))
        return super().binop(op, a, b, t, n)

    def word_op(self, op, x, y, w, signed):
        if op in ('<<', '>>'):
            k = value(y)
            if k is None or k >= w:
                return None
            x = self.resize(x, w)
            if op == '<<':
                return ('bits', ((0,) * k + x[1])[:w])
            fill = x[1][-1] if signed else 0
            return ('bits', x[1][k:] + (fill,) * k)
        x, y = self.resize(x, w), self.resize(y, w)
        if op == '&':
            bs = [q if p == 1 else p if q == 1 else 0 if 0 in (p, q) else p if p == q else None for p, q in zip(x[1], y[1])]
        elif op == '|':
            bs = [q if p == 0 else p if q == 0 else 1 if 1 in (p, q) else p if p == q else None for p, q in zip(x[1], y[1])]
        elif op == '^':
            bs = [q if p == 0 else p if q == 0 else (p ^ q) if p in (0, 1) and q in (0, 1) else 0 if p == q else None for p, q in zip(x[1], y[1])]
        elif op in ('==', '!='):
            if any(p != q and p in (0, 1) and q in (0, 1) for p, q in zip(x[1], y[1])):
                return I(int(op == '!='))
            x, y = self.subst(x), self.subst(y)
            if any(p != q and p in (0, 1) and q in (0, 1) for p, q in zip(x[1], y[1])):
                return I(int(op == '!='))
            if x == y:
                return I(int(op == '=='))
            need = {}
            for p, q in zip(x[1], y[1]):
                if p == q:
                    continue
                if p in (0, 1):
                    p, q = q, p
                if q not in (0, 1):
                    return None
                if need.setdefault(p, q) != q:
                    return I(int(op == '!='))
            t = ('bitsare', tuple(sorted(need.items())))
            return ('not', t) if op == '!=' else t
        elif op in ('<', '>', '<=', '>='):
            if op in ('>', '>='):
                x, y, op = y, x, {'>': '<', '>=': '<='}[op]
            (a, b), (c, d) = bounds(x, signed), bounds(y, signed)
            if op == '<':
                return I(1) if b < c else I(0) if a >= d else None
            return I(1) if b <= c else I(0) if a > d else None
        elif op in ('+', '-', '*', '/', '%'):
            p, q = value(x), value(y)
            if p is not None and q is not None and not (op in '/%' and (q == 0 or signed)):
                return const({'+': p + q, '-': p - q, '*': p * q, '/': p // q if q else 0, '%': p % q if q else 0}[op], w)
            if op == '+' and all(p == 0 or q == 0 for p, q in zip(x[1], y[1])):
                return self.word_op('|', x, y, w, signed)
            if op == '-' and all(q in (0, 1) and (q == 0 or p == 1) for p, q in zip(x[1], y[1])):
                return ('bits', tuple(0 if q == 1 else p for p, q in zip(x[1], y[1])))
            for i in range(1, 63):
                if op == '*' and q == 1 << i:
                    return self.word_op('<<', x, const(i, 32), w, signed)
                if op == '/' and q == 1 << i and (not signed or x[1][-1] == 0):
                    return self.word_op('>>', x, const(i, 32), w, False)
                if op == '%' and q == 1 << i and (not signed or x[1][-1] == 0):
                    return ('bits', x[1][:i] + (0,) * (w - i))
            return None
        else:
            return None
        return None if any(b is None for b in bs) else ('bits', tuple(bs))

    def e_un(self, n):
        if n['op'] == '~':
            v = self.rvn(n['e'])
            if is_bits(v):
                w = self.width(n['t'])
                v = self.resize(v, w[0]) if w else v
                if all(b in (0, 1) for b in v[1]):
                    return ('bits', tuple(1 - b for b in v[1]))
                raise Stop('complement of unknown bits')
        return super().e_un(n)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'std::bit_cast' and len(args) == 1:
            v = self.rv(ev(0))
            to, fr = [self.width(x) for x in (n.get('ta') or ['?', '?'])[:2]]
            v = self.pack(v, (n.get('ta') or ['', ''])[1])
            if is_bits(v):
                return self.unpack(v, n['ta'][0])
            return v
        if q in ('std::isnan', 'isnan', '__builtin_isnan') and len(args) == 1:
            v = self.rv(ev(0))
            if is_bits(v) and len(v[1]) == 64:
                e, f = v[1][52:63], v[1][:52]
                if any(b == 0 for b in e) or all(b == 0 for b in f):
                    return I(0)
                if all(b == 1 for b in e) and any(b == 1 for b in f):
                    return I(1)
        return super().call_hook(n, q, fn, obj, args, ev)

    def pack(self, v, t):
        return v

    def unpack(self, v, t):
        w = self.width(t)
        return self.resize(v, w[0]) if w else v
