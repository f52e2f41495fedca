"""C09: pair and list primitives compute the specified structure, over every
list shape up to the bound and with unconstrained elements."""
import itertools
from engine.interp import *
from . import prims
from .common import where


T, F_ = ('imm', 'bool', ('int', 1)), ('imm', 'bool', ('int', 0))


def num(i):
    return ('imm', 'int', I(i))


class Ctx:
    """Argument builders and readers for one instance."""

    def __init__(self, make):
        self.make = make      # make(k) -> argument values


def content(o, k, v, depth=0):
    """Structure of a result after all effects, ignoring identities."""
    if depth > 30:
        return ('deep',)
    if isinstance(v, tuple) and v and v[0] == 'cons':
        return ('cons', content(o, k, v[1], depth + 1), content(o, k, v[2], depth + 1))
    if isinstance(v, tuple) and v and v in k.types and k.types[v] == 'pair':
        a = o.effects.get(('car', v), k.initial.get(('car', v)))
        d = o.effects.get(('cdr', v), k.initial.get(('cdr', v)))
        return ('cons', content(o, k, a, depth + 1), content(o, k, d, depth + 1))
    return v


def plain(xs, end=NULL):
    r = end
    for x in reversed(xs):
        r = ('cons', x, r)
    return r


def el(i, n):
    return [('v', 'l%d_%d' % (i, j)) for j in range(n)]


def L(k, i, n, end=NULL):
    return k.list('l%d' % i, el(i, n), end)


def node(i, j):
    return ('v', 'l%d.%d' % (i, j))


def sub(i, n, j, end=NULL):
    """The sublist of list i (n elements) starting at j, as an identity."""
    return node(i, j) if j < n else end


def circ(k, n, back):
    """n pairs, the last linked to pair number back."""
    v = k.list('l0', el(0, n))
    k.store[('cdr', node(0, n - 1))] = node(0, back)
    return v


TREE = {}


def tree(k, path, depth):
    v = ('v', 't' + path)
    if depth == 0:
        return v
    return k.pair('t' + path, tree(k, path + 'a', depth - 1), tree(k, path + 'd', depth - 1))


def cases():
    """(name, instance label, make(k), expected, mode)
    mode 'exact': result with identities and no effect; 'content': structure only;
    'effect': exact result and exactly the given effects."""
    out = []

    def add(name, label, make, want, mode='exact', eff=None):
        out.append((name, label, make, want, mode, eff or {}))
    x, y, z = ('v', 'x'), ('v', 'y'), ('v', 'z')
    # constructors and accessors
    add('cons', 'x y', lambda k: [x, y], ('cons', x, y))
    add('xcons', 'x y', lambda k: [x, y], ('cons', y, x))
    for n in range(1, 5):
        for p in itertools.product('ad', repeat=n):
            # c<p>r applies the operations right to left
            add('c%sr' % ''.join(p), 'tree', lambda k: [tree(k, '', 4)], ('v', 't' + ''.join(reversed(p))))
    add('set-car!', 'pair', lambda k: [k.pair('p', x, y), z], None, 'effect', {('car', ('v', 'p')): z})
    add('set-cdr!', 'pair', lambda k: [k.pair('p', x, y), z], None, 'effect', {('cdr', ('v', 'p')): z})
    # predicates
    for nm, ty in (('pair?', 'pair'), ('null?', None)):
        add(nm, 'pair', lambda k: [k.pair('p', x, y)], T if nm == 'pair?' else F_)
        add(nm, 'empty list', lambda k: [NULL], F_ if nm == 'pair?' else T)
        for o in ('string', 'symbol', 'heterogeneous_vector', 'box', 'closure', 'procedure'):
            add(nm, o, lambda k, o=o: [k.obj('o', o)], F_)
        add(nm, 'number', lambda k: [num(3)], F_)
        add(nm, 'boolean', lambda k: [F_], F_)
    for n in range(0, 7):
        add('list?', 'proper %d' % n, lambda k, n=n: [L(k, 0, n)], T)
        add('dotted-list?', 'proper %d' % n, lambda k, n=n: [L(k, 0, n)], F_)
        add('circular-list?', 'proper %d' % n, lambda k, n=n: [L(k, 0, n)], F_)
        for e in (num(7),):
            add('list?', 'dotted %d' % n, lambda k, n=n, e=e: [L(k, 0, n, e)], F_)
            add('dotted-list?', 'dotted %d' % n, lambda k, n=n, e=e: [L(k, 0, n, e)], T)
            add('circular-list?', 'dotted %d' % n, lambda k, n=n, e=e: [L(k, 0, n, e)], F_)
        for b in range(n):
            add('list?', 'circular %d->%d' % (n, b), lambda k, n=n, b=b: [circ(k, n, b)], F_)
            add('dotted-list?', 'circular %d->%d' % (n, b), lambda k, n=n, b=b: [circ(k, n, b)], F_)
            add('circular-list?', 'circular %d->%d' % (n, b), lambda k, n=n, b=b: [circ(k, n, b)], T)
            add('length+', 'circular %d->%d' % (n, b), lambda k, n=n, b=b: [circ(k, n, b)], F_)
        add('length', str(n), lambda k, n=n: [L(k, 0, n)], num(n))
        add('length+', str(n), lambda k, n=n: [L(k, 0, n)], num(n))
    add('null-list?', 'empty', lambda k: [NULL], T)
    add('null-list?', 'pair', lambda k: [L(k, 0, 2)], F_)
    # construction
    for n in range(0, 5):
        vs = [('v', 'x%d' % i) for i in range(n)]
        add('list', '%d arguments' % n, lambda k, vs=vs: list(vs), plain(vs), 'content')
        add('make-list', 'size %d' % n, lambda k, n=n: [num(n), x], plain([x] * n), 'fresh')
        if n:
            add('cons*', '%d arguments' % n, lambda k, vs=vs: list(vs), plain(vs[:-1], vs[-1]), 'content')
        add('list-copy', 'proper %d' % n, lambda k, n=n: [L(k, 0, n)], plain(el(0, n)))
        add('list-copy', 'dotted %d' % n, lambda k, n=n: [L(k, 0, n, num(9))], plain(el(0, n), num(9)))
        add('reverse', str(n), lambda k, n=n: [L(k, 0, n)], plain(el(0, n)[::-1]))
        add('reverse!', str(n), lambda k, n=n: [L(k, 0, n)], plain(el(0, n)[::-1]), 'content!')
    # append and friends
    for n, m in itertools.product(range(3), range(3)):
        lab = '%d,%d' % (n, m)
        add('append', lab, lambda k, n=n, m=m: [L(k, 0, n), L(k, 1, m)], plain(el(0, n), sub(1, m, 0)))
        add('append!', lab, lambda k, n=n, m=m: [L(k, 0, n), L(k, 1, m)], plain(el(0, n) + el(1, m)), 'content!')
        add('append-reverse', lab, lambda k, n=n, m=m: [L(k, 0, n), L(k, 1, m)], plain(el(0, n)[::-1], sub(1, m, 0)))
        add('append-reverse!', lab, lambda k, n=n, m=m: [L(k, 0, n), L(k, 1, m)], plain(el(0, n)[::-1] + el(1, m)), 'content!')
        for q in range(3):
            lab = '%d,%d,%d' % (n, m, q)
            add('append', lab, lambda k, n=n, m=m, q=q: [L(k, 0, n), L(k, 1, m), L(k, 2, q)], plain(el(0, n) + el(1, m), sub(2, q, 0)))
            add('append!', lab, lambda k, n=n, m=m, q=q: [L(k, 0, n), L(k, 1, m), L(k, 2, q)], plain(el(0, n) + el(1, m) + el(2, q)), 'content!')
            add('concatenate', lab, lambda k, n=n, m=m, q=q: [k.list('c', [L(k, 0, n), L(k, 1, m), L(k, 2, q)])], plain(el(0, n) + el(1, m), sub(2, q, 0)))
            add('concatenate!', lab, lambda k, n=n, m=m, q=q: [k.list('c', [L(k, 0, n), L(k, 1, m), L(k, 2, q)])], plain(el(0, n) + el(1, m) + el(2, q)), 'content!')
    add('append', 'none', lambda k: [], NULL)
    add('append', 'one improper', lambda k: [z], z)
    add('append', 'list and improper', lambda k: [L(k, 0, 2), z], plain(el(0, 2), z))
    # selection
    for n in range(0, 5):
        for j in range(0, n + 1):
            lab = '%d at %d' % (n, j)
            add('list-tail', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], sub(0, n, j))
            add('drop', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], sub(0, n, j))
            add('take', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], plain(el(0, n)[:j]), 'fresh')
            add('take!', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], plain(el(0, n)[:j]), 'content!')
            add('take-right', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], sub(0, n, n - j))
            add('take-right', lab + ' dotted', lambda k, n=n, j=j: [L(k, 0, n, num(9)), num(j)], sub(0, n, n - j, num(9)))
            add('drop-right', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], plain(el(0, n)[:n - j]), 'fresh')
            add('drop-right!', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], plain(el(0, n)[:n - j]), 'content!')
            if j < n:
                add('list-ref', lab, lambda k, n=n, j=j: [L(k, 0, n), num(j)], el(0, n)[j])
        if n:
            add('last', str(n), lambda k, n=n: [L(k, 0, n)], el(0, n)[-1])
            add('last-pair', str(n), lambda k, n=n: [L(k, 0, n)], node(0, n - 1))
            add('last-pair', 'dotted %d' % n, lambda k, n=n: [L(k, 0, n, num(9))], node(0, n - 1))
    for j, nm in enumerate('first second third fourth fifth sixth seventh eighth ninth tenth'.split()):
        add(nm, 'of 10', lambda k: [L(k, 0, 10)], el(0, 10)[j])
    # association lists
    add('alist-cons', 'x y z', lambda k: [x, y, z], ('cons', ('cons', x, y), z))
    for n in range(3):
        def al(k, n=n):
            return [k.list('l0', [k.pair('e%d' % i, ('v', 'k%d' % i), ('v', 'd%d' % i)) for i in range(n)])]
        add('alist-copy', str(n), al, plain([('cons', ('v', 'k%d' % i), ('v', 'd%d' % i)) for i in range(n)]), 'fresh')
    return out


def check_case(r, F, R, name, label, make, want, mode, eff):
    fn = R.get(name)
    if fn is None:
        r.bad('present', name, 'src/kernel/boot.cpp', 'primitive %s is not registered' % name)
        return
    k, outs = prims.run(F, fn, make)
    w = where(fn)
    inst = '%s/%s' % (name, label)
    for o in outs:
        if o.kind == 'stop' and not o.oob:
            r.skip('structure', inst, w, o.why)
            return
        if o.kind != 'return':
            r.bad('structure', inst, w, '(%s ...) on %s: %s %s' % (name, label, o.kind, getattr(o, 'type', '') or [x[0] for x in o.oob]))
            return
        got = o.value
        if mode == 'effect':
            okk = o.effects == eff
            shown = o.effects
        elif mode in ('content', 'content!', 'fresh'):
            c = content(o, k, got)
            okk = c == want
            shown = c
            if mode == 'fresh' and okk:
                okk = got == want
                shown = got
        else:
            okk = got == want and not o.effects
            shown = (got, o.effects)
        if mode in ('content', 'fresh') and okk:
            old = {kk: v for kk, v in o.effects.items()}
            if old:
                okk = False
                shown = 'argument modified: ' + ', '.join('%s := %s' % (show(a), show(b)) for a, b in old.items())
        if not okk:
            r.bad('structure', inst, w, '(%s ...) on %s computes %s, expected %s%s' % (
                name, label, shown if isinstance(shown, str) else show(shown) if isinstance(shown, tuple) else {show(a): show(b) for a, b in shown.items()}, show(want) if want is not None else {show(a): show(b) for a, b in eff.items()},
                '' if not o.conds else ' when ' + ', '.join('%s=%s' % (show(t), c) for t, c, _ in o.conds)))
            return
    r.ok('structure', inst, w)


def mentions(t, v):
    return t == v or (isinstance(t, tuple) and any(mentions(x, v) for x in t if isinstance(x, tuple)))


def predicate_paths(F, R, name, a, b):
    """Decision paths of a two-argument predicate: {frozenset of (atom, outcome): truth}."""
    k, outs = prims.run(F, R[name], lambda k: [a, b])
    out = {}
    for o in outs:
        if o.kind != 'return' or o.value not in (T, F_):
            return None
        out[frozenset((t, c) for t, c, _ in o.conds)] = o.value == T
    return out


def search(r, F, R):
    """memq memv assq assv: the first matching element decides, by the right predicate."""
    x = ('v', 'x')
    for name, pred, assoc in (('memq', 'eq?', False), ('memv', 'eqv?', False), ('assq', 'eq?', True), ('assv', 'eqv?', True)):
        fn = R.get(name)
        if fn is None:
            r.bad('search', name, '', 'primitive %s is not registered' % name)
            continue
        for n in range(4):
            def build(k, n=n):
                if assoc:
                    xs = [k.pair('e%d' % i, ('v', 'k%d' % i), ('v', 'd%d' % i)) for i in range(n)]
                else:
                    xs = el(0, n)
                return [x, k.list('l0', xs)]
            k, outs = prims.run(F, fn, build)
            inst = '%s/%d' % (name, n)
            keys = [('v', ('k%d' if assoc else 'l0_%d') % i) for i in range(n)]
            trees = [[predicate_paths(F, R, pred, x, kk), predicate_paths(F, R, pred, kk, x)] for kk in keys]
            stop = next((o.why for o in outs if o.kind == 'stop' and not o.oob), None)
            if stop or any(None in t for t in trees):
                r.skip('search', inst, where(fn), stop or pred + ' not analysable')
                continue
            good = True
            for o in outs:
                hit = None
                conds = [(t, c) for t, c, _ in o.conds]
                for i, kk in enumerate(keys):
                    mine = frozenset((t, c) for t, c in conds if mentions(t, kk) or not any(mentions(t, q) for q in keys))
                    # conditions on the key alone are shared by all elements
                    v = None
                    for tree in trees[i]:
                        for path, truth in tree.items():
                            if path <= mine:
                                v = truth
                    if v is None:
                        break
                    if v:
                        hit = i
                        break
                else:
                    i = n
                want = F_ if hit is None else (('v', 'e%d' % hit) if assoc else node(0, hit))
                if o.kind != 'return' or o.effects or o.value != want or (hit is None and i != n):
                    good = False
                    break
            r.check(good, 'search', inst, where(fn), '%s on a list of %d elements does not return the first element that is %s to the key (or #f): %s' % (
                name, n, pred, '; '.join('%s when %s' % (show(getattr(o, 'value', o.kind)), ', '.join('%s=%s' % (show(t), c) for t, c, _ in o.conds)) for o in outs[:4])))


def check(r, F):
    R = prims.registry(F)
    r.rule('each pair and list primitive is interpreted abstractly on argument lists of every shape up to the bound (elements unconstrained, pairs with identities); the resulting structure, sharing and the set of modified pairs must be the specified ones')
    r.rule('membership and association searches return the first element accepted by the predicate of their name')
    names = set()
    for c in cases():
        names.add(c[0])
        check_case(r, F, R, *c)
    search(r, F, R)
    r.need_count('structure', 400)
    r.need_count('search', 12)
    r.analysed['primitives'] = len(names) + 4
    r.assume('lists longer than the explored shapes are handled by the same recursive code paths')
