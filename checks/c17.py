"""C17: binding constructs and quasiquotation."""
import itertools
from . import schemes
from .schemes import Item

R4, B, S11 = '(scheme r4rs)', '(scheme base)', '(srfi 11)'


def formals(n, rest, base):
    xs = ['%s%d' % (base, i) for i in range(n)]
    if rest:
        return (' '.join(xs) + ' . ' + base + 'r').strip() if n else base + 'r', xs + [base + 'r']
    return ' '.join(xs), xs


def fshow(n, rest, base):
    s, vs = formals(n, rest, base)
    return (s if rest and not n else '(%s)' % s), vs


def vals(k, base):
    return '(@%s0)' % base if k == 1 else '(values %s)' % ' '.join('(@%s%d)' % (base, i) for i in range(k))


def items():
    out = []

    def add(family, label, src, lib, name, **o):
        out.append(Item(family, label, src, lib, name, **o))
    # let, let*, letrec, letrec*
    for n in range(4):
        for nb in (1, 2):
            bs = ' '.join('(v%d (@i%d))' % (i, i) for i in range(n))
            vs = ' '.join('v%d' % i for i in range(n))
            body = ' '.join('(@b%d %s)' % (i, vs) for i in range(nb))
            for op, lib in (('let', R4), ('let*', R4), ('letrec', '(meevax core)'), ('letrec*', B)):
                add(op, '%d bindings, %d body forms' % (n, nb), '(%s (%s) %s)' % (op, bs, body), lib, op, tails=True, unordered=op in ('let', 'letrec') and n > 1)
            add('let', '%d bindings, internal definition' % n, '(let (%s) (define w (@d %s)) (define (g) (list w %s)) (@b (g)))' % (bs, vs, vs), R4, 'let', unordered=True)
    sh = [('let', '(define x @x0) (let ((x (x 1)) (y (x 2))) (list x y))', True),
          ('let', "(let ((x (@a))) (let ((x (@b x)) (y x)) (set! x (@c x y)) (list x y)))", False),
          ('let*', '(let* ((x (@a)) (y (@b x)) (x (@c x y)) (y (@d x y))) (list x y))', False),
          ('let*', '(let* ((x (@a)) (f (lambda () x)) (x (@b (f)))) (list x (f)))', False),
          ('let*', '(let* () (define z (@a)) (@b z))', False),
          ('let*', '(define x @x0) (let* ((x (x 1)) (y (@c x))) (set! x (@d y)) (list x y))', False),
          ('letrec', '(letrec ((f (lambda (n) (if (@t n) (g n) (@r n)))) (g (lambda (n) (f (@s n))))) (f (@i)))', False),
          ('letrec*', '(letrec* ((a (@a)) (f (lambda () (list a b))) (b (@b (lambda? a)))) (f))'.replace('(lambda? a)', 'a'), False),
          ('letrec*', '(letrec* ((f (lambda () (g))) (g (lambda () (@x))) (h (f))) (list h (f)))', False),
          ('letrec*', '(letrec* ((x (@a)) (y (begin (set! x (@b x)) x))) (list x y))', False),
          ('internal definitions', '(define (f x) (define a (@a x)) (define (g) (@g a b)) (define b (@b a)) (g)) (f (@i))', False),
          ('internal definitions', '(define (f x) (begin (define a (@a x)) (define b (@b a))) (@c a b)) (f $q)', False),
          ('internal definitions', '(define (f) (define-values (a b) (values (@a) (@b))) (define c (@c a b)) (list a b c)) (f)', False),
          ('internal definitions', '(define (f) (define-record-type p (mk x) p? (x px)) (define q (mk (@a))) (list (p? q) (px q))) (f)', False),
          ('internal definitions', '(let () (define-syntax m (syntax-rules () ((_ a) (@m a a)))) (define x (@x)) (m x))', False)]
    for i, (op, src, un) in enumerate(sh):
        add(op, 'scoping %d' % i, src, {'letrec*': B, 'letrec': '(meevax core)'}.get(op, R4), op, unordered=un, force={'t': (3, False)})
    # values
    for n, rest in itertools.product(range(4), (0, 1)):
        fs, vs = fshow(n, rest, 'a')
        use = '(list %s)' % ' '.join(vs)
        for k in range(5):
            if k < n or (k > n and not rest):
                continue
            lab = '%d%s formals, %d values' % (n, '+rest' if rest else '', k)
            v = vals(k, 'x')
            add('let-values', lab, '(let-values ((%s %s)) (@b) %s)' % (fs, v, use), S11, 'let-values', unordered=True)
            add('let*-values', lab, '(let*-values ((%s %s)) (@b) %s)' % (fs, v, use), S11, 'let*-values', unordered=True)
            add('receive', lab, '(receive %s %s (@b) %s)' % (fs, v, use), '(srfi 8)', 'receive', unordered=True)
            add('define-values', lab, '(define-values %s %s) %s' % (fs, v, use), B, 'define-values', unordered=True)
            add('define-values', lab + ', internal', '(let () (define-values %s %s) (@b) %s)' % (fs, v, use), B, 'define-values', unordered=True)
            add('call-with-values', lab, '(call-with-values (lambda () %s) (lambda %s (@b) %s))' % (v, fs, use), '(scheme r5rs)', 'call-with-values', unordered=True)
    shapes = [(1, 0, 1), (2, 0, 2), (0, 1, 2), (1, 1, 3), (0, 0, 0)]
    for (n1, r1, k1), (n2, r2, k2) in itertools.product(shapes, repeat=2):
        f1, v1 = fshow(n1, r1, 'a')
        f2, v2 = fshow(n2, r2, 'b')
        use = '(list %s)' % ' '.join(v1 + v2)
        lab = '(%d%s=%d) (%d%s=%d)' % (n1, '+' * r1, k1, n2, '+' * r2, k2)
        add('let-values', lab, '(let-values ((%s %s) (%s %s)) %s)' % (f1, vals(k1, 'x'), f2, vals(k2, 'y'), use), S11, 'let-values', unordered=True)
        dep = '(values %s)' % ' '.join('(@y%d %s)' % (i, ' '.join(v1)) for i in range(k2)) if k2 != 1 else '(@y0 %s)' % ' '.join(v1)
        add('let*-values', lab, '(let*-values ((%s %s) (%s %s)) %s)' % (f1, vals(k1, 'x'), f2, dep, use), S11, 'let*-values', unordered=True)
    add('let-values', 'scope of initialisers', '(define a $o) (let-values (((a b) (values (@x a) (@y a))) ((c) (@z a))) (list a b c))', S11, 'let-values', unordered=True)
    add('let*-values', 'rebinding', '(let*-values (((a b) (values (@x) (@y))) ((b a) (values a b)) ((a) (@z a b))) (list a b))', S11, 'let*-values', unordered=True)
    for n in range(4):
        xs = ' '.join('(@x%d)' % i for i in range(n))
        add('values', '%d values to a list' % n, '(call-with-values (lambda () (values %s)) list)' % xs, '(scheme r5rs)', 'values', unordered=True)
        add('values', '%d values to an opaque procedure' % n, '(call-with-values (lambda () (values %s)) @f)' % xs, '(scheme r5rs)', 'values', unordered=True)
    add('values', 'one value is the value', '(list (values (@x)) (+ 1 (values 2)))', '(scheme r5rs)', 'values')
    add('values', 'producer called once', '(call-with-values @p @c)', '(scheme r5rs)', 'call-with-values')
    # case-lambda
    clauses = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]
    for cs in list(itertools.permutations(clauses, 2)) + [((0, 0), (1, 0), (2, 1)), ((2, 0), (1, 1), (0, 1)), ((1, 0), (2, 0), (0, 0)), ((0, 0), (1, 0), (2, 0), (3, 0), (3, 1))]:
        body = ' '.join('(%s (@c%d %s))' % (fshow(n, rest, 'a')[0], i, ' '.join(fshow(n, rest, 'a')[1])) for i, (n, rest) in enumerate(cs))
        for k in range(5):
            if any(k == n or (k > n and rest) for n, rest in cs):
                add('case-lambda', '%s with %d arguments' % (cs, k), '((case-lambda %s) %s)' % (body, ' '.join('$q%d' % i for i in range(k))), '(srfi 16)', 'case-lambda')
    add('case-lambda', 'free variables', '(define (mk n) (case-lambda (() n) ((x) (set! n x) (@o n)))) (define f (mk (@i))) (f (@v)) (f)', '(srfi 16)', 'case-lambda')
    # rec
    add('rec', 'expression', '(rec x (@f (lambda () x)))'.replace('(lambda () x)', '1'), '(srfi 31)', 'rec')
    add('rec', 'recursive variable', '((rec f (lambda (n) (if (@t n) (@r n) (f (@s n))))) (@i))', '(srfi 31)', 'rec', force={'t': (3, True)})
    add('rec', 'procedure', '((rec (f n) (@c n) (if (@t n) (@r n) (f (@s n)))) (@i))', '(srfi 31)', 'rec', force={'t': (3, True)})
    add('rec', 'procedure with rest', '((rec (f . n) (if (@t n) n (f (@s n) (@u n)))) (@i))', '(srfi 31)', 'rec', force={'t': (3, True)}, unordered=True)
    # quasiquote: all templates up to depth 3 over these leaves
    leaves = ['x', '1', ',(@a)', ',@(list (@b) (@c))', ",@'()"]
    pats = []
    for n in range(4):
        for xs in itertools.product(leaves, repeat=n):
            pats.append('(%s)' % ' '.join(xs))
            if n and n < 3:
                for t in ('y', ',(@d)'):
                    pats.append('(%s . %s)' % (' '.join(xs), t))
            if n < 3:
                pats.append('#(%s)' % ' '.join(xs))
    for p in pats:
        add('quasiquote', p, '`' + p, R4, 'quasiquote', unordered=True)
    inner = ['(,(@a) x)', '(,@(list (@b)) . ,(@d))', '#(x ,(@a))', '(x . #(,@(list (@b) (@c))))']
    for p in inner:
        for w in ('(%s)', '(y %s . z)', '#(%s 1)', '((%s) ,(@e))', '(,@(list (@e)) %s ,(@f))'):
            add('quasiquote', w % p, '`' + w % p, R4, 'quasiquote', unordered=True)
    for p in ('`(a `(b ,(c ,(@x))))', '`(a `(b ,(c ,@(list (@x) (@y)))))', '`(1 `(2 ,(3 `(4 ,(5 ,(6 ,(@x)))))))', "`(a `(b ,@(c ,(@x))))", "`(a `,(b ,(@x) ,@(list (@y))))",
              "`(1 ,'x ,`(2 ,(@x)))", "`,(@x)", "`x", "`()", "`#()", '`"s"', "`(quote ,(@x))", "`(a . `(b . ,(c . ,(@x))))", "`(,(@x) . ,(@y))", "(quasiquote (a (unquote (@x)) (unquote-splicing (list (@y)))))", "`(a . (b . (,(@x) . (,@(list (@y))))))", "`(,@(@x))"):
        add('quasiquote', p, p, R4, 'quasiquote', unordered=True)
    return out


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, items())
    for fam, n in (('let', 10), ('let*', 10), ('letrec*', 10), ('let-values', 40), ('define-values', 20), ('case-lambda', 80), ('quasiquote', 250), ('receive', 10)):
        r.need_count(fam, n)
