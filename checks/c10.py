"""C10: character and string comparisons are the order their name says, for
every order type of the compared characters.

Characters stay symbolic.  For each weak ordering of the characters occurring
in the arguments (an "order type") the predicate is interpreted with its
comparisons of characters decided by that ordering; a comparison predicate can
observe its arguments only through those comparisons, so the order types
partition all arguments of that length."""
import itertools
from engine.interp import *
from . import prims
from .common import where

T, F_ = ('imm', 'bool', ('int', 1)), ('imm', 'bool', ('int', 0))
OPS = {'=': lambda c: c == 0, '<': lambda c: c < 0, '>': lambda c: c > 0, '<=': lambda c: c <= 0, '>=': lambda c: c >= 0}


def weak_orders(n):
    """Rank vectors of the weak orderings of n items."""
    seen = []
    for v in itertools.product(range(n), repeat=n):
        if set(v) == set(range(max(v, default=-1) + 1)):
            seen.append(v)
    return seen


class Ordered(prims.Prim):
    """Comparisons between keys of the compared characters follow a given ranking."""
    ranks = None
    fold = False

    def call_hook(self, n, q, fn, obj, args, ev):
        if q in ('meevax::character::downcase', 'meevax::character::upcase') and obj is not None:
            x = self.rv(obj)
            c = self.char_val(x)
            if isinstance(c, tuple) and c and c[0] == 'mem':
                c = c[1]
            elif isinstance(obj, LV) and not (isinstance(x, tuple) and x and x[0] == 'v'):
                c = self.rv(LV(('mem', obj.key, 'codepoint')))
                c = c[1] if isinstance(c, tuple) and c and c[0] == 'mem' else c
            return ('case', c)
        return super().call_hook(n, q, fn, obj, args, ev)

    def rank(self, t):
        t = self.strip_cast(t)
        want = 'case' if self.fold else 'mem'
        if isinstance(t, tuple) and t and t[0] == want:
            x = t[1]
            while isinstance(x, tuple) and x and x[0] in ('as',):
                x = x[2]
            return self.ranks.get(x)
        return None

    def decide_hook(self, t):
        if self.ranks and isinstance(t, tuple) and len(t) == 3 and t[0] in ('<', '>', '<=', '>=', '=='):
            a, b = self.rank(t[1]), self.rank(t[2])
            if a is not None and b is not None:
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b}[t[0]]
        return super().decide_hook(t)


def run_one(F, fn, build, ranks, fold):
    class K(Ordered):
        pass
    K.ranks, K.fold = ranks, fold
    return prims.run(F, fn, build, cls=K)


def shapes(nargs, bound):
    return itertools.product(range(bound + 1), repeat=nargs)


def check(r, F):
    R = prims.registry(F)
    r.rule('each comparison predicate, interpreted on symbolic characters under every weak ordering of them, returns true exactly when every adjacent pair of arguments stands in the relation of its name')
    r.rule('strings compare lexicographically (a proper prefix is smaller); the -ci variants compare case-folded characters only')
    n = 0
    for ci, (op, test) in itertools.product((False, True), OPS.items()):
        name = 'char%s%s?' % ('-ci' if ci else '', op)
        if name not in R:
            r.bad('comparison', name, 'src/kernel/boot.cpp', 'primitive %s is not registered' % name)
            continue
        for k in (1, 2, 3):
            for order in weak_orders(k):
                ranks = {('v', 'chr0_%d' % i): order[i] for i in range(k)}

                def build(kk, k=k):
                    out = []
                    for i in range(k):
                        v = ('v', 'chr0_%d' % i)
                        kk.types[v] = 'character'
                        out.append(v)
                    return out
                want = all(test(a - b) for a, b in zip(order, order[1:]))
                judge(r, F, R[name], name, '%s order %s' % (name, ''.join(map(str, order))), build, ranks, ci, want)
    for ci, (op, test) in itertools.product((False, True), OPS.items()):
        name = 'string%s%s?' % ('-ci' if ci else '', op)
        if name not in R:
            r.bad('comparison', name, 'src/kernel/boot.cpp', 'primitive %s is not registered' % name)
            continue
        for nargs, bound in ((1, 1), (2, 2), (3, 1)):
            for lens in shapes(nargs, bound):
                chars = [('v', 'chr%d_%d' % (i, j)) for i in range(nargs) for j in range(lens[i])]

                def build(kk, lens=lens):
                    return [kk.seq_obj('s%d' % i, 'string', 'characters', [('v', 'chr%d_%d' % (i, j)) for j in range(lens[i])]) for i in range(len(lens))]
                for order in weak_orders(len(chars)):
                    ranks = dict(zip(chars, order))
                    ss = [[ranks[('v', 'chr%d_%d' % (i, j))] for j in range(lens[i])] for i in range(nargs)]
                    want = all(test((a > b) - (a < b)) for a, b in zip(ss, ss[1:]))
                    judge(r, F, R[name], name, '%s lengths %s order %s' % (name, ','.join(map(str, lens)), ''.join(map(str, order))), build, ranks, ci, want)
    r.need_count('comparison', 1500)
    r.analysed['predicates'] = 20
    r.assume('arguments longer than the explored shapes go through the same per-element comparisons')
    r.assume('character equality of case-folded characters is the implementation\'s own downcase table')


def judge(r, F, fn, name, inst, build, ranks, ci, want):
    k, outs = run_one(F, fn, build, ranks, ci)
    for o in outs:
        if o.kind == 'stop' and not o.oob:
            r.skip('comparison', inst, where(fn), o.why)
            return
        if o.kind != 'return' or o.value not in (T, F_):
            r.bad('comparison', inst, where(fn), '%s does not return a boolean: %s' % (inst, o.kind))
            return
        if (o.value == T) != want:
            r.bad('comparison', inst, where(fn), '(%s) returns %s, expected %s%s' % (
                inst, '#t' if o.value == T else '#f', '#t' if want else '#f',
                '' if not o.conds else ' when ' + ', '.join('%s=%s' % (show(t), c) for t, c, _ in o.conds)))
            return
    r.ok('comparison', inst, where(fn))
