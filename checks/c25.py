"""C25: the list library (SRFI 1) against its reference definitions."""
import itertools

from . import schemes
from .schemes import Item

NAMES = '''xcons list-tabulate not-pair? list= car+cdr split-at split-at! zip unzip1 unzip2 unzip3 unzip4 unzip5 count map map! map-in-order
filter-map fold fold-right unfold unfold-right pair-fold pair-fold-right reduce reduce-right append-map append-map! for-each pair-for-each
filter filter! partition partition! remove remove! find find-tail any every list-index take-while take-while! drop-while span span!
break break! delete delete! delete-duplicates delete-duplicates! member assoc alist-delete alist-delete! lset<= lset= lset-adjoin lset-union
lset-union! lset-intersection lset-intersection! lset-difference lset-difference! lset-diff+intersection lset-diff+intersection! lset-xor lset-xor!'''.split()
BASE = '(only (scheme base) quote lambda let define list call-with-values begin if eq? equal? = < + - * cons car cdr vector set!) (only (srfi 1) %s)'
LENS = range(0, 4)


def ls(p, n):
    return '(list%s)' % ''.join(' $%s%d' % (p, i) for i in range(n))


def lists(n):
    return [list(x) for k in range(n + 1) for x in itertools.product('abc', repeat=k)]


def q(x):
    return "'(%s)" % ' '.join(x)


def vals(e):
    return '(call-with-values (lambda () %s) list)' % e


def items():
    out = []

    def add(family, label, src, name, **o):
        out.append(Item(family, label, src, '(srfi 1)', name, imports=BASE % ' '.join(NAMES), oracle=('srfi-1',), tree=True, **o))

    def kept(e, *xs):
        """the result, and that the arguments are unchanged"""
        return '(let* (%s) (let ((r %s)) (list r %s)))' % (' '.join('(%s %s)' % x for x in xs), e, ' '.join(x[0] for x in xs))

    def kept1(e, xs):
        # two nested lets keep the creation of arguments apart from the call
        s = e
        s = '(let ((r %s)) (list r%s))' % (e, ''.join(' ' + n for n, _ in xs))
        return '(let (%s) %s)' % (' '.join('(%s %s)' % x for x in xs), s)

    for n in LENS:
        add('construct', 'list-tabulate %d' % n, '(list-tabulate %d @f)' % n, 'list-tabulate', unordered=True)
        add('construct', 'unzip1 of %d' % n, kept1('(unzip1 xs)', [('xs', '(list%s)' % ''.join(' (list $a%d $b%d)' % (i, i) for i in range(n)))]), 'unzip1')
        for k in range(2, 6):
            row = lambda i: '(list %s)' % ' '.join('$%s%d' % (c, i) for c in 'abcde')
            add('construct', 'unzip%d of %d' % (k, n), kept1(vals('(unzip%d xs)' % k), [('xs', '(list%s)' % ''.join(' ' + row(i) for i in range(n)))]), 'unzip%d' % k)
        for i in range(n + 1):
            add('construct', 'split-at %d of %d' % (i, n), kept1(vals('(split-at xs %d)' % i), [('xs', ls('x', n))]), 'split-at')
            add('construct', 'split-at! %d of %d' % (i, n), vals('(split-at! %s %d)' % (ls('x', n), i)), 'split-at!')
    add('construct', 'xcons', '(xcons $a $b)', 'xcons')
    add('construct', 'car+cdr', vals("(car+cdr (cons $a $b))"), 'car+cdr')
    add('construct', 'not-pair?', "(list (not-pair? 'a) (not-pair? '()) (not-pair? (cons $a $b)) (not-pair? (vector)))", 'not-pair?')

    # procedures over one list with an opaque procedure
    one = {'filter': '(filter @p xs)', 'remove': '(remove @p xs)', 'partition': vals('(partition @p xs)'), 'find': '(find @p xs)', 'find-tail': '(find-tail @p xs)',
           'take-while': '(take-while @p xs)', 'drop-while': '(drop-while @p xs)', 'span': vals('(span @p xs)'), 'break': vals('(break @p xs)'),
           'count': '(count @p xs)', 'map': '(map @p xs)', 'map-in-order': '(map-in-order @p xs)', 'filter-map': '(filter-map @p xs)', 'for-each': '(begin (for-each @p xs) 1)',
           'any': '(any @p xs)', 'every': '(every @p xs)', 'list-index': '(list-index @p xs)', 'pair-for-each': '(begin (pair-for-each @p xs) 1)',
           'reduce': '(reduce @p $i xs)', 'reduce-right': '(reduce-right @p $i xs)', 'fold': '(fold @p $i xs)', 'fold-right': '(fold-right @p $i xs)',
           'pair-fold': '(pair-fold @p $i xs)', 'pair-fold-right': '(pair-fold-right @p $i xs)',
           'delete': '(delete $k xs @p)', 'delete-duplicates': '(delete-duplicates xs @p)', 'member': '(member $k xs @p)'}
    free = {'filter', 'remove', 'partition', 'count', 'map', 'filter-map', 'delete', 'delete-duplicates'}
    inplace = {'filter', 'remove', 'partition', 'take-while', 'span', 'break', 'map', 'delete', 'delete-duplicates'}
    for name, e in one.items():
        for n in range(0, 4 if name == 'delete-duplicates' else 5):
            o = dict(unordered=True) if name in free else {}
            add('one list', '%s of %d' % (name, n), kept1(e, [('xs', ls('x', n))]), name, **o)
            if name in inplace:
                e2 = e.replace('(%s ' % name, '(%s! ' % name)
                add('one list', '%s! of %d' % (name, n), '(let ((xs %s)) %s)' % (ls('x', n), e2), name + '!', **o)
    for n in range(0, 4):
        xs = '(list%s)' % ''.join(' (cons $k%d $v%d)' % (i, i) for i in range(n))
        add('one list', 'assoc of %d' % n, kept1('(assoc $k xs @p)', [('xs', xs)]), 'assoc')
        add('one list', 'alist-delete of %d' % n, kept1('(alist-delete $k xs @p)', [('xs', xs)]), 'alist-delete', unordered=True)
        add('one list', 'alist-delete! of %d' % n, '(alist-delete! $k %s @p)' % xs, 'alist-delete!', unordered=True)
        for name in ('append-map', 'append-map!'):
            for spine in itertools.product(range(3), repeat=n):
                f = '(lambda (x) (begin (@p x) x))'
                arg = '(list%s)' % ''.join(' (list%s)' % ''.join(' $%s%d' % ('abc'[i], j) for j in range(m)) for i, m in enumerate(spine))
                add('one list', '%s of %s' % (name, spine), '(%s %s %s)' % (name, f, arg), name, unordered=True)

    # several lists of different lengths
    more = {'map': '(map @p xs ys)', 'map-in-order': '(map-in-order @p xs ys)', 'filter-map': '(filter-map @p xs ys)', 'for-each': '(begin (for-each @p xs ys) 1)',
            'any': '(any @p xs ys)', 'every': '(every @p xs ys)', 'list-index': '(list-index @p xs ys)', 'count': '(count @p xs ys)', 'fold': '(fold @p $i xs ys)',
            'fold-right': '(fold-right @p $i xs ys)', 'pair-fold': '(pair-fold @p $i xs ys)', 'pair-fold-right': '(pair-fold-right @p $i xs ys)',
            'pair-for-each': '(begin (pair-for-each @p xs ys) 1)', 'zip': '(zip xs ys)', 'list=': '(list= @p xs ys)'}
    for name, e in more.items():
        o = dict(unordered=True) if name in free else {}
        for n, m in itertools.product(range(4), repeat=2):
            if n == m == 3 and name in ('any', 'every'):
                pass
            add('several lists', '%s of %d and %d' % (name, n, m), kept1(e, [('xs', ls('x', n)), ('ys', ls('y', m))]), name, **o)
        for n, m, k in itertools.product(range(3), repeat=3):
            add('several lists', '%s of %d, %d and %d' % (name, n, m, k), kept1(e.replace('ys)', 'ys zs)'), [('xs', ls('x', n)), ('ys', ls('y', m)), ('zs', ls('z', k))]), name, **o)
    for n in range(4):
        for m in range(n, 4):
            add('several lists', 'map! of %d and %d' % (n, m), '(let ((xs %s) (ys %s)) (map! @p xs ys))' % (ls('x', n), ls('y', m)), 'map!', unordered=True)
            for k in range(n, 4):
                add('several lists', 'map! of %d, %d and %d' % (n, m, k), '(let ((xs %s) (ys %s) (zs %s)) (map! @p xs ys zs))' % (ls('x', n), ls('y', m), ls('z', k)), 'map!', unordered=True)
    for name in ('append-map', 'append-map!'):
        for n, m in itertools.product(range(4), repeat=2):
            add('several lists', '%s of %d and %d' % (name, n, m), '(%s (lambda (x y) (list x (@p x y) y)) %s %s)' % (name, ls('x', n), ls('y', m)), name, unordered=True)
            add('several lists', '%s of %d, %d and %d' % (name, n, m, 2), '(%s (lambda (x y z) (if (@p x y) (list x y z) (quote ()))) %s %s %s)' % (name, ls('x', n), ls('y', m), ls('z', 2)), name, unordered=True)
    # elements that are equal? but not eq?
    for name in ('delete', 'delete!', 'member'):
        for n in range(4):
            xs = '(list%s)' % ''.join(' (list $%s)' % 'abc'[i] for i in range(n))
            add('one list', '%s of lists, %d' % (name, n), '(%s (list $k) %s)' % (name, xs), name)
    for name in ('alist-delete', 'alist-delete!', 'assoc'):
        for n in range(4):
            xs = '(list%s)' % ''.join(' (cons (list $%s) %d)' % ('abc'[i], i) for i in range(n))
            add('one list', '%s with keys that are lists, %d' % (name, n), '(%s (list $k) %s)' % (name, xs), name)
    for name in ('delete-duplicates', 'delete-duplicates!'):
        for n in range(4):
            add('one list', '%s of lists, %d' % (name, n), '(%s (list%s))' % (name, ''.join(' (list $%s)' % 'abc'[i] for i in range(n))), name)
    for n in range(4):
        add('several lists', 'zip of one list of %d' % n, '(zip %s)' % ls('x', n), 'zip')
        add('several lists', 'list= of one list of %d' % n, '(list= @p %s)' % ls('x', n), 'list=')
    add('several lists', 'list= of none', '(list= @p)', 'list=')

    # unfolds: the seed counts
    for n in range(4):
        stop = '(lambda (i) (begin (@s i) (= i %d)))' % n
        for tail in ('', ' @t'):
            add('unfold', 'unfold %d%s' % (n, tail), '(unfold %s @f (lambda (i) (begin (@g i) (+ i 1))) 0%s)' % (stop, tail), 'unfold', unordered=True)
        for tail in ('', " '(p q)", ' $t'):
            add('unfold', 'unfold-right %d%s' % (n, tail), '(unfold-right %s @f (lambda (i) (begin (@g i) (+ i 1))) 0%s)' % (stop, tail), 'unfold-right')

    # with the default equivalence, on all lists of symbols
    for x in lists(3):
        add('symbols', 'delete-duplicates %s' % ' '.join(x), kept1('(delete-duplicates xs)', [('xs', '(list%s)' % ''.join(" '" + y for y in x))]), 'delete-duplicates')
        add('symbols', 'delete %s' % ' '.join(x), kept1("(delete 'a xs)", [('xs', '(list%s)' % ''.join(" '" + y for y in x))]), 'delete')
        add('symbols', 'delete! %s' % ' '.join(x), "(delete! 'a (list%s))" % ''.join(" '" + y for y in x), 'delete!')
        add('symbols', 'alist-delete %s' % ' '.join(x), kept1("(alist-delete 'a xs)", [('xs', '(list%s)' % ''.join(" (cons '%s %d)" % (y, i) for i, y in enumerate(x)))]), 'alist-delete')

    # sets
    small = [x for x in lists(2)]
    lq = lambda x: '(list%s)' % ''.join(" '" + y for y in x)
    binary = {'lset<=': '(lset<= eq? xs ys)', 'lset=': '(lset= eq? xs ys)', 'lset-union': '(lset-union eq? xs ys)', 'lset-intersection': '(lset-intersection eq? xs ys)',
              'lset-difference': '(lset-difference eq? xs ys)', 'lset-diff+intersection': vals('(lset-diff+intersection eq? xs ys)')}
    for name, e in binary.items():
        for x, y in itertools.product(small + [list('abc'), list('cba')], repeat=2):
            add('sets', '%s %s | %s' % (name, ' '.join(x), ' '.join(y)), kept1(e, [('xs', lq(x)), ('ys', lq(y))]), name)
            if name.startswith('lset-'):
                add('sets', '%s! %s | %s' % (name, ' '.join(x), ' '.join(y)), '(let ((xs %s) (ys %s)) %s)' % (lq(x), lq(y), e.replace(name, name + '!')), name + '!')
        for x, y, z in itertools.product([[], ['a'], ['a', 'b'], ['b', 'c'], ['c', 'a']], repeat=3):
            e3 = e.replace('xs ys', 'xs ys zs')
            add('sets', '%s %s | %s | %s' % (name, ' '.join(x), ' '.join(y), ' '.join(z)), kept1(e3, [('xs', lq(x)), ('ys', lq(y)), ('zs', lq(z))]), name)
        for x in small:
            add('sets', '%s %s' % (name, ' '.join(x)), e.replace('xs ys', lq(x)), name)
    for name in ('lset<=', 'lset=', 'lset-union'):
        add('sets', '%s of nothing' % name, '(%s eq?)' % name, name)
    for x, y in itertools.product(small, repeat=2):
        add('sets', 'lset-adjoin %s | %s' % (' '.join(x), ' '.join(y)), kept1("(lset-adjoin eq? xs%s)" % ''.join(" '" + z for z in y), [('xs', lq(x))]), 'lset-adjoin')
    for x, y, z in itertools.product([[], ['a'], ['a', 'b'], ['b', 'c'], ['c', 'a']], repeat=3):
        for name in ('lset-intersection!', 'lset-difference!', 'lset-union!'):
            add('sets', '%s %s | %s | %s' % (name, ' '.join(x), ' '.join(y), ' '.join(z)), '(%s eq? %s %s %s)' % (name, lq(x), lq(y), lq(z)), name)
        add('sets', 'lset-diff+intersection! %s | %s | %s' % (' '.join(x), ' '.join(y), ' '.join(z)), vals('(lset-diff+intersection! eq? %s %s %s)' % (lq(x), lq(y), lq(z))), 'lset-diff+intersection!')
    # exclusive or: the order of the result is not specified
    sets = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['b', 'c'], ['c', 'a'], ['c', 'b', 'a']]
    tally = "(let ((r %s)) (map (lambda (s) (count (lambda (x) (eq? x s)) r)) '(a b c)))"
    for name in ('lset-xor', 'lset-xor!'):
        add('sets', '%s of nothing' % name, '(%s eq?)' % name, name)
        for x in sets:
            add('sets', '%s %s' % (name, ' '.join(x)), tally % '(%s eq? %s)' % (name, lq(x)) if False else tally % ('(%s eq? %s)' % (name, lq(x))), name)
        for x, y in itertools.product(sets + [list('cab'), list('ac')], repeat=2):
            add('sets', '%s %s | %s' % (name, ' '.join(x), ' '.join(y)), kept1(tally % ('(%s eq? xs ys)' % name), [('xs', lq(x)), ('ys', lq(y))]) if name == 'lset-xor' else tally % ('(%s eq? %s %s)' % (name, lq(x), lq(y))), name)
        for x, y, z in itertools.product(sets[:7], repeat=3):
            add('sets', '%s %s | %s | %s' % (name, ' '.join(x), ' '.join(y), ' '.join(z)), tally % ('(%s eq? %s %s %s)' % (name, lq(x), lq(y), lq(z))), name)
    # one list several times
    for name, e in binary.items():
        for x in small + [list('abc')]:
            add('sets', '%s of a list and itself, %s' % (name, ' '.join(x)), kept1(e.replace('xs ys', 'xs xs'), [('xs', lq(x))]), name)
    for name in ('lset-xor',):
        for x in sets:
            add('sets', '%s of a list and itself, %s' % (name, ' '.join(x)), '(let ((xs %s)) %s)' % (lq(x), tally % '(lset-xor eq? xs xs)'), name)
    # an asymmetric "equality" shows the order of its arguments
    for name in ('lset-intersection', 'lset-difference', 'lset<='):
        for n, m in itertools.product(range(1, 3), repeat=2):
            arg = ''.join(' $y%d' % i for i in range(m)) if name == 'lset-adjoin' else ' ' + ls('y', m)
            add('sets', '%s of opaque %d and %d' % (name, n, m), '(%s @p %s%s)' % (name, ls('x', n), arg), name, unordered=True)
    return out


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, items())
    for fam, n in (('construct', 25), ('one list', 100), ('several lists', 300), ('symbols', 100), ('sets', 1000), ('unfold', 10)):
        r.need_count(fam, n)
