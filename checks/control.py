"""Program templates of C20-C23: parameter objects, exceptions, promises, records."""
import itertools
from . import schemes
from .schemes import Item

P, PZ = ('(srfi 39)', 'make-parameter'), ('(srfi 39)', 'parameterize')
E34 = '(srfi 34)'


def params(add):
    for conv in ('', ' @conv'):
        c = 'with converter' if conv else 'without converter'
        mk = lambda p, i: '(define %s (make-parameter (@%s)%s)) ' % (p, i, conv)
        add('parameters', 'initial value %s' % c, mk('p', 'i') + '(list (p) (p))', P)
        for n in range(1, 4):
            body = '(@body (p))'
            for i in range(n, 0, -1):
                body = '(parameterize ((p (@v%d))) (@x%d (p)) %s (@y%d (p)))' % (i, i, body, i)
            add('parameters', 'nested %d %s' % (n, c), mk('p', 'i') + body + ' (@after (p))', PZ)
        add('parameters', 'two parameters %s' % c, mk('p', 'i') + mk('q', 'j') + '(parameterize ((p (@v)) (q (@w))) (@x (p) (q)) (parameterize ((q (@u))) (@y (p) (q))) (@z (p) (q))) (list (p) (q))', PZ, unordered=True)
        add('parameters', 'swap %s' % c, mk('p', 'i') + mk('q', 'j') + '(parameterize ((p (q)) (q (p))) (@x (p) (q))) (list (p) (q))', PZ, unordered=True)
        add('parameters', 'escape %s' % c, mk('p', 'i') + '(call/cc (lambda (k) (parameterize ((p (@v))) (@x (p)) (k 1)))) (@after (p))', PZ)
        add('parameters', 're-entry %s' % c, mk('p', 'i') + '(define k #f) (define n 0) (parameterize ((p (@v))) (call/cc (lambda (c) (set! k c))) (@in (p))) (@out (p)) (set! n (+ n 1)) (if (< n 3) (k 1))', PZ)
        add('parameters', 'closure %s' % c, mk('p', 'i') + '(define f (lambda () (p))) (list (f) (parameterize ((p (@v))) (f)) (f))', PZ)
        add('parameters', 'closure made inside %s' % c, mk('p', 'i') + '(define f (parameterize ((p (@v))) (lambda () (p)))) (f)', PZ)
        add('parameters', 'error inside %s' % c, mk('p', 'i') + '(guard (e (#t (@h (p)))) (parameterize ((p (@v))) (raise (@x (p))))) (@after (p))', PZ)
        add('parameters', 'error in the converter %s' % c, mk('p', 'i') + '(guard (e (#t (@h (p)))) (parameterize ((p (raise (@x)))) (@never))) (@after (p))', PZ)
    # every set of bound parameters, with every assignment of values to them, in a body that binds again
    for conv in ('', ' @conv'):
        mk = ''.join('(define %s (make-parameter (@i%s)%s)) ' % (x, x, conv) for x in 'pqr')
        see = '(@%s (p) (q) (r))'
        for n in (1, 2, 3):
            for bound in itertools.permutations('pqr', n):
                for vals in (['(@v%s)' % x for x in bound], ['(%s)' % y for y in bound[1:] + bound[:1]], ['(car (list (%s)))' % y for y in bound]):
                    b = ' '.join('(%s %s)' % z for z in zip(bound, vals))
                    add('bindings', '%s%s' % (b, conv), mk + see % 'before' + ' (parameterize (%s) %s (parameterize ((%s (@w))) %s) %s) ' % (b, see % 'in', bound[0], see % 'inner', see % 'out') + see % 'after', PZ, unordered=True)
                    if n < 3:
                        add('bindings', '%s%s, continuation' % (b, conv), mk + '(define k #f) (define n 0) (parameterize (%s) (call/cc (lambda (c) (set! k c))) %s) %s (set! n (+ n 1)) (if (< n 2) (parameterize ((%s (@w))) (k 1)))' % (b, see % 'in', see % 'after', bound[0]), PZ, unordered=True)
    add('parameters', 'no bindings', '(parameterize () (@x) (@y))', PZ)
    add('parameters', 'body sequence and values', '(define p (make-parameter (@i))) (call-with-values (lambda () (parameterize ((p (@v))) (@x) (values (@a) (p)))) list)', PZ, unordered=True)
    add('parameters', 'internal definitions in the body', '(define p (make-parameter (@i))) (parameterize ((p (@v))) (define x (@x (p))) (@y x))', PZ)
    add('parameters', 'converter sees the outer binding', '(define p (make-parameter 1 (lambda (x) (@c x)))) (define q (make-parameter 2 (lambda (x) (@d (p) x)))) (parameterize ((p 3) (q 4)) (list (p) (q)))', PZ, unordered=True)
    add('parameters', 'same value type in two parameters', '(define p (make-parameter 1)) (define q (make-parameter 1)) (parameterize ((q 2)) (list (p) (q)))', PZ)
    add('parameters', 'tail of loop', '(define p (make-parameter 0)) (let loop ((i 0)) (if (< i 3) (begin (parameterize ((p (+ (p) i))) (@x (p))) (loop (+ i 1))))) (p)', PZ)


def exceptions(add):
    W, R, RC, G = (E34, 'with-exception-handler'), (E34, 'raise'), (E34, 'raise-continuable'), (E34, 'guard')
    # with-exception-handler
    hs = ['(lambda (e) (@h e))', '@h']
    for h in hs:
        add('handlers', 'raise-continuable returns the handler value %s' % h, '(with-exception-handler %s (lambda () (list (@a) (raise-continuable (@x)) (@b))))' % h, RC, unordered=True)
        add('handlers', 'no exception %s' % h, '(with-exception-handler %s (lambda () (@x)))' % h, W)
        add('handlers', 'values of the thunk %s' % h, '(call-with-values (lambda () (with-exception-handler %s (lambda () (values (@x) (@y))))) list)' % h, W, unordered=True)
    add('handlers', 'nested, inner first', '(with-exception-handler (lambda (e) (@outer e)) (lambda () (with-exception-handler (lambda (e) (@inner e)) (lambda () (raise-continuable (@x))))))', RC)
    add('handlers', 'handler runs in the outer handler context', '(with-exception-handler (lambda (e) (@outer e)) (lambda () (with-exception-handler (lambda (e) (list (raise-continuable (@inner e)))) (lambda () (raise-continuable (@x))))))', RC)
    add('handlers', 'three levels', '(with-exception-handler (lambda (e) (@h1 e)) (lambda () (with-exception-handler (lambda (e) (raise-continuable (@h2 e))) (lambda () (with-exception-handler (lambda (e) (raise-continuable (@h3 e))) (lambda () (raise-continuable (@x))))))))', RC)
    add('handlers', 'the handler is reinstalled after it returns', '(with-exception-handler (lambda (e) (@h e)) (lambda () (list (raise-continuable (@x)) (raise-continuable (@y)))))', RC, unordered=True)
    add('handlers', 'the outer handler after the extent', '(with-exception-handler (lambda (e) (@o e)) (lambda () (with-exception-handler (lambda (e) (@i e)) (lambda () (@x))) (raise-continuable (@y))))', W)
    add('handlers', 'escape from a handler', '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k (@h e))) (lambda () (raise (@x)) (@never)))))', R)
    add('handlers', 'escape from nested extents', '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k (@h e))) (lambda () (dynamic-wind @b (lambda () (raise (@x))) @a) (@never)))))', R)
    add('handlers', 'handler in the dynamic environment of raise', '(define p (make-parameter (@i))) (with-exception-handler (lambda (e) (@h (p) e)) (lambda () (parameterize ((p (@v))) (raise-continuable (@x)))))', RC)
    add('handlers', 'restored after an escape', '(with-exception-handler (lambda (e) (@o e)) (lambda () (call/cc (lambda (k) (with-exception-handler (lambda (e) (@i e)) (lambda () (k 1))))) (raise-continuable (@y))))', W)
    add('handlers', 'restored after re-entry', '(define k #f) (define n 0) (with-exception-handler (lambda (e) (@o e)) (lambda () (with-exception-handler (lambda (e) (@i e)) (lambda () (call/cc (lambda (c) (set! k c))) (raise-continuable (@y)))) (raise-continuable (@z)) (set! n (+ n 1)) (if (< n 3) (k 1))))', W)
    add('handlers', 'uncaught raise', '(raise (@x))', R)
    add('handlers', 'uncaught raise-continuable', '(raise-continuable (@x))', RC)
    add('handlers', 'returning from the handler of raise is an error', '(with-exception-handler (lambda (e) (@h e)) (lambda () (raise (@x)) (@never)))', R)
    add('handlers', 'returning from the handler of raise raises in the outer handler', '(call/cc (lambda (k) (with-exception-handler (lambda (e) (@outer) (k 1)) (lambda () (with-exception-handler (lambda (e) (@h e)) (lambda () (raise (@x)) (@never)))))))', R)
    # errors signalled by primitives
    for i, e in enumerate(("(car '())", "(vector-ref (vector 1) 5)", "(error \"m\" (@x))", "(undefined-variable-x)", "(5 6)", "((lambda (x) x))", "(string-append \"a\" 'b)", "(+ 1 'a)")):
        add('errors', 'handled by a handler: %s' % e, '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k (@h))) (lambda () (list %s)))))' % e, W)
        add('errors', 'handled by guard: %s' % e, '(guard (e (#t (@h))) (@b) %s (@never))' % e, G)
        add('errors', 'passed on by guard: %s' % e, '(guard (e (#t (@outer))) (guard (e ((@t) (@inner))) %s))' % e, G)
    for n in range(4):
        irr = ' '.join('(@i%d)' % i for i in range(n))
        add('error objects', '%d irritants' % n, '(guard (e (#t (list (error-object? e) (error-object-message e) (error-object-irritants e)))) (error "message" %s))' % irr, ('(srfi 23)', 'error'), unordered=True)
    add('error objects', 'other objects', '(guard (e (#t (list (error-object? e) e))) (raise 5))', R)
    add('error objects', 'identity', "(define o (list 1)) (guard (e (#t (eq? e o))) (raise o))", R)
    # guard: clause grammar
    cl = {'t': '((@t%d e))', 'e': '((@t%d e) (@r%d e))', 'e2': '((@t%d e) (@q%d) (@r%d e))', '=>': '((@t%d e) => @f%d)', 'else': '(else (@z e))', 'else2': '(else (@y) (@z e))'}

    def clause(k, i):
        s = cl[k]
        return s.replace('%d', str(i))
    for n in range(0, 4):
        for ks in itertools.product(('t', 'e', 'e2', '=>') if n < 3 else ('t', 'e2', '=>'), repeat=n):
            for els in ((), ('else',), ('else2',)):
                if n == 3 and els == ('else2',) or not (ks or els):
                    continue
                cs = ' '.join(clause(k, i) for i, k in enumerate(ks + els))
                lab = ' '.join(ks + els)
                add('guard', lab + ', raise', '(@out (guard (e %s) (@b) (raise (@x)) (@never)))' % cs, G)
                add('guard', lab + ', raise-continuable in an outer handler', '(with-exception-handler (lambda (e) (@h e)) (lambda () (@out (guard (e %s) (@b) (@c (raise-continuable (@x)))))))' % cs, G)
                if n < 3:
                    add('guard', lab + ', within extents', '(guard (o (#t (@o o))) (dynamic-wind @b1 (lambda () (guard (e %s) (dynamic-wind @b2 (lambda () (raise (@x))) @a2))) @a1))' % cs, G)
    add('guard', 'no exception', '(@out (guard (e (#t (@never))) (@a) (@b)))', G)
    add('guard', 'values of the body', '(call-with-values (lambda () (guard (e (#t 1)) (values (@a) (@b)))) list)', G, unordered=True)
    add('guard', 'values of a clause', '(call-with-values (lambda () (guard (e (#t (values (@a) e))) (raise (@x)))) list)', G, unordered=True)
    add('guard', 're-raise keeps the payload', '(guard (o (#t (list o))) (guard (e ((@t e) (@r))) (raise (@x))))', G)
    add('guard', 'exception in a clause', '(guard (o (#t (@o o))) (guard (e (#t (raise (@y e)))) (raise (@x))))', G)
    add('guard', 'exception in a test', '(guard (o (#t (@o o))) (guard (e ((raise (@y e)) (@never))) (raise (@x))))', G)
    add('guard', 'clauses run in the dynamic environment of guard', '(define p (make-parameter (@i))) (guard (e ((@t (p)) (@r (p)))) (parameterize ((p (@v))) (raise (@x (p)))))', G)
    add('guard', 're-raise runs in the dynamic environment of raise', '(define p (make-parameter (@i))) (with-exception-handler (lambda (e) (@h (p) e)) (lambda () (guard (e (#f 1)) (parameterize ((p (@v))) (@u (raise-continuable (@x)))))))', G)
    add('guard', 'in a loop', '(let loop ((i 0)) (if (< i 3) (begin (guard (e ((@t e) (@r e)) (else (@z e))) (@b i) (raise (@x i))) (loop (+ i 1)))))', G)
    add('guard', 'variable scope', '(define e (@outer)) (guard (x ((@t e x) e)) (raise (@y e)))', G)


def promises(add):
    L, D, F, M = ('(srfi 45)', 'lazy'), ('(srfi 45)', 'delay'), ('(srfi 45)', 'force'), ('(srfi 45)', 'eager')
    ps = [('delay runs once', '(define p (delay (@x))) (list (force p) (force p) (force p))', D), ('not run before force', '(define p (delay (@x))) (@y) (force p)', D), ('never forced', '(define p (delay (@x))) (@y)', D),
          ('captured environment', '(define (f v) (delay (@x v))) (define p (f (@a))) (define q (f (@b))) (list (force p) (force q) (force p))', D), ('make-promise', '(list (force (make-promise (@x))) (promise? (make-promise 5)))', M),
          ('make-promise of a promise', '(define p (delay (@x))) (list (eq? p (make-promise p)) (force (make-promise p)))', M), ('delay-force', '(define p (delay-force (delay (@x)))) (list (force p) (force p))', L),
          ('delay-force chain', '(define p (delay-force (delay-force (delay-force (delay (@x)))))) (list (force p) (force p))', L), ('delay-force of a shared promise', '(define q (delay (@x))) (define p (delay-force (begin (@y) q))) (list (force p) (force q) (force p))', L),
          ('delay-force of make-promise', '(force (delay-force (make-promise (@x))))', L), ('nested delay', '(define p (delay (delay (@x)))) (force (force p))', D),
          ('promise?', "(list (promise? (delay 1)) (promise? (delay-force (delay 1))) (promise? 5) (promise? '()) (promise? car) (promise? (list 1 2)) (promise? (vector 1)))", ('(srfi 45)', 'promise?')),
          ('loop', '(define (loop n) (delay-force (if (< n 3) (begin (@s n) (loop (+ n 1))) (delay (@x n))))) (list (force (loop 0)))', L),
          ('stream', '(define (from n) (delay (cons (@x n) (from (+ n 1))))) (define s (from 0)) (define (take s k) (if (= k 0) \'() (let ((p (force s))) (cons (car p) (take (cdr p) (- k 1)))))) (list (take s 3) (take s 3))', D),
          ('re-entrant force', '(define n 0) (define p (delay (begin (set! n (+ n 1)) (if (> n 2) (@x n) (force p))))) (define a (force p)) (set! n 10) (list a (force p))', F),
          ('re-entrant force, first value wins', '(define x 5) (define p (delay (begin (set! x (+ x 1)) (if (> x 10) x (force p))))) (define a (force p)) (set! x 100) (list a (force p))', F),
          ('re-entrant force through a flag', '(define q (let ((first? #t)) (delay (if first? (begin (set! first? #f) (force q) (@second)) (@first))))) (list (force q) (force q))', F),
          ('exception while forcing', '(define n 0) (define p (delay (begin (set! n (+ n 1)) (if (< n 2) (raise (@x)) (@y))))) (list (guard (e (#t (@h e))) (force p)) (force p) (force p))', F),
          ('two promises depending on one', '(define a (delay (@x))) (define b (delay (@y (force a)))) (define c (delay (@z (force a)))) (list (force b) (force c) (force a))', D),
          ('delay-force does not force early', '(define p (delay-force (@never-forced))) (@y)', L), ('shared tail of delay-force', '(define r (delay (begin (@hi) 1))) (define s (delay-force r)) (define t (delay-force s)) (list (force t) (force r) (force s))', L),
          ('escape from force', '(define p (delay (begin (@a) (call/cc (lambda (k) (@b) (k (@c))))))) (list (force p) (force p))', F), ('internal definitions in make-promise argument', '(force (make-promise (let () (define x (@x)) (@y x))))', M)]
    for lab, s, ab in ps:
        add('promises', lab, s, ab, orders=True, unordered='list (force' in s)
    # every chain of up to three promises, under every sequence of forces
    first = ('(delay (@x))', '(delay (begin (@x) (@y)))', '(make-promise (@x))', '(delay-force (delay (@x)))', '(delay-force (begin (@x) (make-promise (@y))))')
    then = ('(delay-force %s)', '(delay-force (begin (@u%d) %s))', '(delay (@u%d (force %s)))', '(make-promise %s)')

    def link(t, i, prev):
        return t.replace('%d', str(i)) % prev
    for a in first:
        for n in range(1, 4):
            for f in itertools.product('p', repeat=n):
                add('chains', '%s, %d forces' % (a, n), '(define p %s) %s' % (a, ' '.join('(@f%d (force p))' % i for i in range(n))), F)
        for b in then:
            d = '(define p %s) (define q %s) ' % (a, link(b, 1, 'p'))
            for seq in itertools.product('pq', repeat=3):
                add('chains', '%s; %s; forces %s' % (a, b, ' '.join(seq)), d + ' '.join('(@f (force %s))' % x for x in seq), F)
            for c in then:
                for on in 'pq':
                    e = d + '(define r %s) ' % link(c, 2, on)
                    for seq in (('r', 'q', 'p'), ('r', 'p', 'r'), ('q', 'r', 'q'), ('p', 'r', 'q'), ('r', 'r', 'q'), ('q', 'p', 'r')):
                        add('chains', '%s; %s; %s of %s; forces %s' % (a, b, c, on, ' '.join(seq)), e + ' '.join('(@f (force %s))' % x for x in seq), F)
    # forces while being forced
    for kind in ('delay', 'delay-force'):
        w = (lambda x: '(delay %s)' % x) if kind == 'delay-force' else (lambda x: x)
        for n in range(1, 4):
            for inner in ('p', 'q'):
                d = '(define n 0) (define p (%s (begin (set! n (+ n 1)) (@n n) (if (< n %d) (begin (@g (force %s)) %s) %s)))) (define q (delay-force p)) ' % (kind, n + 1, inner, w('(@a n)'), w('(@b n)'))
                for seq in (('p', 'p'), ('q', 'p'), ('p', 'q')):
                    add('re-entrant', '%s, depth %d, through %s; forces %s' % (kind, n, inner, ' '.join(seq)), d + ' '.join('(@f (force %s))' % x for x in seq), F)


def records(add):
    A = ('(srfi 9)', 'define-record-type')
    fs = 'abcd'
    for n in range(5):
        names = fs[:n]
        for ctor in ([names, names[::-1]] + [names[:k] for k in range(n)] if n else ['']):
            spec = ' '.join('(%s get-%s set-%s!)' % (x, x, x) for x in names)
            args = ' '.join('(@%s)' % x for x in ctor)
            d = '(define-record-type thing (make-thing %s) thing? %s) ' % (' '.join(ctor), spec)
            lab = '%d fields, constructor (%s)' % (n, ' '.join(ctor))
            add('records', lab + ': accessors', d + '(define r (make-thing %s)) (list (thing? r) %s)' % (args, ' '.join('(get-%s r)' % x for x in ctor)), A, unordered=True)
            for m in names:
                seen = ''.join(x for x in names if x in ctor or x == m)
                add('records', lab + ': modify %s' % m, d + '(define r (make-thing %s)) (define q (make-thing %s)) (set-%s! r (@new)) (list %s %s)' % (args, args, m, ' '.join('(get-%s r)' % x for x in seen), ' '.join('(get-%s q)' % x for x in ctor)), A, unordered=True)
    two = '(define-record-type p (mk-p x y) p? (x px set-px!) (y py)) (define-record-type q (mk-q x y) q? (x qx set-qx!) (y qy)) '
    for lab, s in [('types are disjoint', '(define a (mk-p (@x) (@y))) (define b (mk-q (@x) (@y))) (list (p? a) (q? a) (p? b) (q? b))'),
                   ('predicates on other objects', "(list (p? 1) (p? '()) (p? '(x y)) (p? \"s\") (p? 'p) (p? car) (p? #t) (p? #\\a) (p? (vector)) (p? (vector 1 2 3)) (p? (vector 'record-marker 1 2)) (p? (vector '(record-marker) 1 2)))"),
                   ('accessor of another type', '(px (mk-q 1 2))'), ('modifier of another type', '(set-px! (mk-q 1 2) 3)'), ('accessor of a non-record', "(px 5)"), ('accessor of a vector', '(px (vector 1 2 3))'),
                   ('accessor of a list', "(px '(1 2))"), ('modifier of a non-record', "(set-px! '() 3)"), ('too few arguments', '(mk-p 1)'), ('too many arguments', '(mk-p 1 2 3)'),
                   ('identity', '(define a (mk-p (@x) (@y))) (define b (mk-p (car (list (px a))) (py a))) (list (eq? a a) (eq? a b) (eqv? a a))'),
                   ('same name twice', '(define r1 (mk-p 1 2)) (define-record-type p (mk-p2 x y) p2? (x px2) (y py2)) (list (p2? r1) (p? r1) (p? (mk-p2 1 2)))'),
                   ('records in records', '(define a (mk-p (mk-q (@x) (@y)) (@z))) (set-qx! (px a) (@w)) (list (qx (px a)) (qy (px a)) (py a))'),
                   ('through opaque procedures', '(@f px mk-p)'.replace('(@f px mk-p)', '(for-each (lambda (r) (@v (px r) (py r))) (map mk-p (list $a $b) (list $c $d)))')),
                   ('disjoint from the other types', "(define a (mk-p 1 2)) (list (pair? a) (null? a) (symbol? a) (string? a) (procedure? a) (number? a) (char? a) (boolean? a))"),
                   ('disjoint from vectors', "(vector? (mk-p 1 2))")]:
        add('records', lab, two + s, A, unordered=True)
    add('records', 'each evaluation is a new type', '(define (f) (define-record-type t (mk v) t? (v tv)) (list mk t? tv)) (define a (f)) (define b (f)) (define r ((car a) (@x))) (list ((cadr a) r) ((cadr b) r) ((car (cddr a)) r))', A)
    add('records', 'modifier of another generation', '(define (f) (define-record-type t (mk v) t? (v tv set-tv!)) (list mk t? tv set-tv!)) (define a (f)) (define b (f)) ((cadr (cdr (cdr b))) ((car a) (@x)) (@y))', A)
    add('records', 'accessor of another generation', '(define (f) (define-record-type t (mk v) t? (v tv)) (list mk t? tv)) (define a (f)) (define b (f)) ((car (cddr b)) ((car a) (@x)))', A)


def items(what):
    out = []

    def add(family, label, src, about, **o):
        out.append(Item(family, label, src, about[0], about[1], **o))
    what(add)
    return out
