"""Runs numeric procedures on arbitrary numbers of given representations and
judges the value computed on every path."""
import time
from engine.interp import *
from engine.kernel import *
from . import prims, num
from .num import *
from . import member as mb

EXACT = ('int', 'large_integer', 'ratio')
INTEGERS = ('int', 'large_integer')
INEXACT = ('float', 'double')


class Result:
    """What one path did."""
    def __init__(self, k, kind, value, raised, stop):
        self.k, self.kind, self.value, self.raised, self.stop = k, kind, value, raised, stop


class Gcd(Num):
    """Recursive calls of a procedure computing greatest common divisors are
    replaced by the function itself (induction on the second argument, whose
    magnitude has to decrease)."""
    depth = 0

    def reset(self):
        super().reset()
        self.depth = 0

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'meevax::number::gcd' and fn is not None and len(args) == 2:
            a, b = self.rv(ev(0)), self.rv(ev(1))
            if self.depth:
                (ka, va), (kb, vb) = self.numval(a), self.numval(b)
                if ka == kb == 'exact':
                    if self.remainder_of(vb, va) is None and qconst(vb) != 0:
                        self.trap.append(('recursion without a smaller argument', vb))
                        raise Stop('trap')
                    return self.integer_object(self.gcd(va, vb))
                raise Stop('gcd of a value that is not exact')
            self.depth += 1
            try:
                return self.call_fn(fn, None, [a, b], n)
            finally:
                self.depth -= 1
        return super().call_hook(n, q, fn, obj, args, ev)

    def integer_object(self, v):
        o = self.new_cell('large_integer')
        self.store[('mem', ('as', 'large_integer', o), 'value')] = v
        return o


def paths(F, fn, build, judge, cls=Gcd, budget=40, kinds=None, want_of=None):
    """Runs judge on every path; returns the number of paths or a reason."""
    k = cls(F)
    k.deadline_all = time.time() + budget
    n = [0]
    bad = []
    stopped = []

    def go():
        if time.time() > k.deadline_all:
            raise TooManyPaths('time')
        args = build(k)
        k.argv = args
        xs = k.list('args', args)
        k.store[('arg', 'xs')] = xs
        raised = stop = None
        kind = value = None
        try:
            v = k.copy_value(k.call_fn(fn, None, [LV(('arg', 'xs'))]))
            k.result = v
            kind, value = k.numval(v)
        except Throw as t:
            raised = t.t
        except Stop as s:
            stop = s.why
            if not k.trap:
                stopped.append(s.why)
                return
        n[0] += 1
        res = Result(k, kind, value, raised, stop)
        t = judge(res)
        if t:
            m = witness(res, kinds, want_of(res)) if kinds and want_of else False
            if m is None:
                stopped.append('no member found in a part where the value ' + t)
            else:
                bad.append((t, (mb.text(m) + '; ' if m else '') + describe(k)))
    try:
        k.explore(go)
    except (TooManyPaths, Stop, RecursionError) as e:
        why = getattr(e, 'why', None) or type(e).__name__
        return n[0], bad, why
    except Exception as e:
        return n[0], bad, 'cannot be decided: %s %s' % (type(e).__name__, str(e)[:120])
    return n[0], bad, str(stopped[0])[:160] if stopped else None


def witness(res, kinds, want):
    """A member of the path's part for which the outcome differs from want."""
    k = res.k

    def differ(env):
        for t in k.trap:
            if len(t) == 4:
                v = mb.value(t[1], env)
                return not t[2] <= v <= t[3]
            return True
        if res.raised or want is None or not isq(want):
            return True
        if res.kind != 'exact' or not isq(res.value):
            return True
        return mb.value(res.value, env) != mb.value(want, env)
    return mb.member(k, 'xyzw'[:len(kinds)], kinds, differ)


def describe(k):
    cs = []
    for c in k.path.conds:
        t, v = c[0], c[1]
        if t[0] == 'sign':
            cs.append('%s %s 0' % (ps(t[1]), {-1: '<', 0: '=', 1: '>'}[v]))
        elif t[0] == 'odd':
            cs.append('%s is %s' % (num_s(t[1]), 'odd' if v else 'even'))
        else:
            cs.append('%s = %s' % (show(t), show(v) if not isinstance(v, int) else v))
    return ', '.join(cs)[:300]


def at(a):
    if a[0] == 'v':
        return str(a[1])
    if a[0] in ('num', 'den'):
        return {'num': 'numerator', 'den': 'denominator'}[a[0]] + '(' + a[1] + ')'
    if a[0] == 'tf':
        return 'frac(' + num_s(a[1]) + ')'
    return str(a[0]) + '(' + ', '.join(num_s(x) if isq(x) else show(x) for x in a[1:]) + ')'


def ps(p):
    out = []
    for m, c in p:
        f = '*'.join(at(x) + ('^%d' % e if e > 1 else '') for x, e in m)
        out.append(f if c == 1 and f else '-' + f if c == -1 and f else '%s%s' % (c, '*' + f if f else ''))
    return ' + '.join(out) or '0'


def num_s(v):
    if isq(v):
        return ps(v[1]) if v[2] == ONE else '(%s)/(%s)' % (ps(v[1]), ps(v[2]))
    if isinstance(v, tuple) and v and v[0] in ('toD', 'toF', 'fop', 'fn1', 'narrow'):
        return v[0] + '(' + ', '.join(x if isinstance(x, str) else num_s(x) for x in v[1:]) + ')'
    return show(v)


def outcome(r):
    if r.raised:
        return 'raises ' + str(r.raised).split('::')[-1]
    if r.stop or r.k.trap:
        return 'undefined operation: ' + (r.k.trap[0][0] if r.k.trap else r.stop)
    if r.kind is None:
        return show(r.value)
    return '%s %s' % (r.kind, num_s(r.value) if r.kind != 'complex' else 'number')


def is_error(t):
    return t is not None and 'error' in str(t)


def same(k, a, b):
    """Equal normal forms, or a difference decided to be zero on this path."""
    return qeq(k.norm(a), k.norm(b)) or k.known_sign(qsub(a, b)) == 0


def expect_exact(r, want):
    """The exact value want (a Q), or 'raise'."""
    k = r.k
    if k.trap:
        return 'reaches an undefined operation: %s of %s' % (k.trap[0][0], num_s(k.trap[0][1]))
    if want == 'any':
        return None
    if want == 'raise':
        return None if is_error(r.raised) else 'does not raise an error but is %s' % outcome(r)
    if r.raised:
        return 'raises %s instead of computing %s' % (r.raised, num_s(want))
    if r.kind != 'exact' or not isq(r.value):
        return 'is %s, not the exact number %s' % (outcome(r), num_s(want))
    if not same(k, r.value, want):
        return 'is %s, not %s' % (num_s(r.value), num_s(want))
    return None


def expect_bool(r, want):
    """The boolean want, or 'any'."""
    if r.k.trap:
        return 'reaches an undefined operation: %s' % r.k.trap[0][0]
    if want == 'any':
        return None
    if r.raised:
        return 'raises %s' % r.raised
    v = r.k.result
    got = v[2] if isinstance(v, tuple) and v[:2] == ('imm', 'bool') else None
    if got is None or not is_int(got):
        return 'is %s, not a boolean' % show(v)
    return None if bool(got[1]) == bool(want) else 'is %s, not %s' % ('#t' if got[1] else '#f', '#t' if want else '#f')


def qs(k):
    return [k.toq(k.numval(a)[1]) for a in k.argv]


def judge(r, F, R, family, name, kinds, spec, expect=expect_exact, build=None, budget=40, label=''):
    fn = R.get(name)
    inst = '(%s %s)%s' % (name, ' '.join(kinds), label)
    if fn is None:
        r.skip(family, inst, '', 'no such primitive')
        return
    b = build or (lambda k: [k.number('xyzw'[i], kd) for i, kd in enumerate(kinds)])

    def j(res):
        return expect(res, spec(res.k, *(qs(res.k) if expect is expect_exact else [res.k.numval(a) for a in res.k.argv])))
    from .common import where

    def want_of(res):
        return spec(res.k, *qs(res.k)) if expect is expect_exact else None
    n, bad, why = paths(F, fn, b, j, budget=budget, kinds=kinds if build is None else None, want_of=want_of)
    w = where(fn)
    if bad:
        t, c = bad[0]
        r.bad(family, inst, w, '%s %s%s' % (inst, t, ' when ' + c if c else ''))
    elif why:
        r.skip(family, inst, w, why)
    else:
        r.ok(family, inst + ' on %d paths' % n, w)
