"""C24: standard procedures that are defined in Scheme."""
import itertools

from . import schemes
from .schemes import Item

IMP = '(scheme base) (scheme char)'
BASE = '(scheme base)'


def seq(kind, p, n):
    return {'list': '(list%s)', 'vector': '(vector%s)', 'string': '(string%s)'}[kind] % ''.join(' $%s%d' % (p, i) for i in range(n))


def items():
    out = []

    def add(family, label, src, name, lib=BASE, imports=IMP, **o):
        out.append(Item(family, label, src, lib, name, imports=imports, **dict(tree=True, **o)))

    def keep(e, xs):
        return '(let (%s) (let ((r %s)) (list r%s)))' % (' '.join('(%s %s)' % x for x in xs), e, ''.join(' ' + n for n, _ in xs))

    for name, kind, lib in (('map', 'list', '(meevax map)'), ('vector-map', 'vector', BASE), ('string-map', 'string', BASE)):
        f = '@f' if kind != 'string' else '(lambda cs (begin (apply @f cs) (car cs)))'
        g = '@f' if kind != 'string' else '(lambda cs (begin (apply @f cs) (car (reverse cs))))'
        for n in range(5):
            for h in {f, g}:
                add('map', '%s of %d by %s' % (name, n, h), keep('(%s %s xs)' % (name, h), [('xs', seq(kind, 'x', n))]), name, lib, unordered=True)
        for n, m in itertools.product(range(4), repeat=2):
            for h in {f, g}:
                add('map', '%s of %d and %d by %s' % (name, n, m, h), keep('(%s %s xs ys)' % (name, h), [('xs', seq(kind, 'x', n)), ('ys', seq(kind, 'y', m))]), name, lib, unordered=True)
        for n, m, k in itertools.product(range(3), repeat=3):
            add('map', '%s of %d, %d and %d' % (name, n, m, k), keep('(%s %s xs ys zs)' % (name, g), [('xs', seq(kind, 'x', n)), ('ys', seq(kind, 'y', m)), ('zs', seq(kind, 'z', k))]), name, lib, unordered=True)
    for name, kind, lib in (('for-each', 'list', '(scheme r4rs)'), ('vector-for-each', 'vector', BASE), ('string-for-each', 'string', BASE)):
        for n in range(5):
            add('for-each', '%s of %d' % (name, n), keep('(begin (%s @f xs) 1)' % name, [('xs', seq(kind, 'x', n))]), name, lib)
        for n, m in itertools.product(range(4), repeat=2):
            add('for-each', '%s of %d and %d' % (name, n, m), keep('(begin (%s @f xs ys) 1)' % name, [('xs', seq(kind, 'x', n)), ('ys', seq(kind, 'y', m))]), name, lib)
        for n, m, k in itertools.product(range(3), repeat=3):
            add('for-each', '%s of %d, %d and %d' % (name, n, m, k), keep('(begin (%s @f xs ys zs) 1)' % name, [('xs', seq(kind, 'x', n)), ('ys', seq(kind, 'y', m)), ('zs', seq(kind, 'z', k))]), name, lib)
    for n in range(5):
        for k in range(4):
            lead = ''.join(' $y%d' % i for i in range(k))
            add('apply', '%d arguments and a list of %d' % (k, n), keep('(apply @f%s xs)' % lead, [('xs', seq('list', 'x', n))]), 'apply', '(meevax apply)')
            add('apply', 'tail call with %d arguments and a list of %d' % (k, n), '(apply @f%s %s)' % (lead, seq('list', 'x', n)), 'apply', '(meevax apply)', tails=True)
            add('apply', 'list with %d arguments and a list of %d' % (k, n), '(let* ((xs %s) (r (apply list%s xs))) (list r xs))' % (seq('list', 'x', n), lead), 'apply', '(meevax apply)')
        add('search', 'member in %d' % n, keep('(member $k xs @p)', [('xs', seq('list', 'x', n))]), 'member', '(scheme r4rs)')
        pairs = '(list%s)' % ''.join(' (cons $k%d $v%d)' % (i, i) for i in range(n))
        add('search', 'assoc in %d' % n, keep('(assoc $k xs @p)', [('xs', pairs)]), 'assoc', '(scheme r4rs)')
        add('search', 'identity of the result of member in %d' % n, '(define xs %s) (define r (member $k xs @p)) (list%s)' % (seq('list', 'x', n), ''.join(' (eq? r (list-tail xs %d))' % i for i in range(n))), 'member', '(scheme r4rs)')
        add('search', 'identity of the result of assoc in %d' % n, '(define xs %s) (define r (assoc $k xs @p)) (list%s)' % (pairs, ''.join(' (eq? r (list-ref xs %d))' % i for i in range(n))), 'assoc', '(scheme r4rs)')
        for i in range(n):
            add('update', 'list-set! %d of %d' % (i, n), '(define xs %s) (list-set! xs %d $v) xs' % (seq('list', 'x', n), i), 'list-set!')
    keys = ["'a", "'b", '"a"', '"b"', '1', '2', "'(a)", "'(a b)", "'#(a)", '#\\a', "'()"]
    for k in keys:
        add('search', 'member %s' % k, "(member %s (list 'b \"a\" 2 '(a) '#(a) #\\a '() 'a))" % k, 'member', '(scheme r4rs)')
        add('search', 'assoc %s' % k, "(assoc %s (list '(b . 1) '(\"a\" . 2) '(2 . 3) '((a) . 4) '(#(a) . 5) '(#\\a . 6) '(() . 7) '(a . 8)))" % k, 'assoc', '(scheme r4rs)')
    for name, vals in (('boolean=?', ('#t', '#f')), ('symbol=?', ("'a", "'b", "'c"))):
        for n in (2, 3, 4):
            for c in itertools.product(vals, repeat=n):
                add('equality', '%s %s' % (name, ' '.join(c)), '(%s %s)' % (name, ' '.join(c)), name)
    for e in ('(square $x)', '(square 3)', '(square -5)', '(call-with-values (lambda () (exact-integer-sqrt 17)) list)', '(call-with-values (lambda () (exact-integer-sqrt 16)) list)'):
        add('numbers', e, e, e.split()[0].strip('('))
    for n in range(4):
        for f in ('string-upcase', 'string-downcase', 'string-foldcase'):
            add('case', '%s of %d' % (f, n), keep('(%s xs)' % f, [('xs', '(string%s)' % ''.join(' #\\%s' % 'aBc'[i] for i in range(n)))]), f, '(scheme char)')
    for c in 'aAzZ5':
        for f in ('char-upcase', 'char-downcase', 'char-foldcase'):
            add('case', '%s %s' % (f, c), '(%s #\\%s)' % (f, c), f, '(scheme char)')
    return out


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, items())
    for fam, n in (('map', 150), ('for-each', 130), ('apply', 40), ('search', 30), ('update', 8), ('equality', 100)):
        r.need_count(fam, n)
