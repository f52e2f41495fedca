"""C19: continuations, dynamic-wind and exit."""
import itertools
from . import schemes
from .schemes import Item

K = ('(meevax continuation)', 'call-with-current-continuation')
D = ('(meevax continuation)', 'dynamic-wind')


def items():
    out = []

    def add(family, label, src, about=K, **o):
        o.setdefault('seconds', 30)
        out.append(Item(family, label, src, about[0], about[1], **o))
    w = lambda i, body: '(dynamic-wind @b%d (lambda () %s) @a%d)' % (i, body, i)

    def nest(n, body, at=1, extra=True):
        for i in range(n, 0, -1):
            body = w(at + i - 1, '%s %s' % ('(@x%d)' % (at + i - 1) if extra else '', body))
        return body
    for n in range(1, 5):
        add('normal exit', 'depth %d' % n, '(list %s)' % nest(n, '(@body)'), D)
        add('normal exit', 'depth %d, sibling extents' % n, '(list %s %s)' % (nest(n, '(@body)'), nest(n, '(@body)', 11)), D, )
        # escapes from depth n caught at depth m
        for m in range(n):
            inner = nest(n - m, '(k (@v))', m + 1)
            add('escape', 'from depth %d to depth %d' % (n, m), '(@r %s)' % nest(m, '(@s (call/cc (lambda (k) %s (@never))))' % inner))
        add('escape', 'normal return through call/cc at depth %d' % n, '(@r %s)' % nest(n, '(@s (call/cc (lambda (k) (@v))))'))
    # escapes from the before and after thunks
    for part in ('before', 'body', 'after'):
        for depth in (0, 1, 2):
            p = {q: '@%s1' % q[0] for q in ('before', 'body', 'after')}
            p['body'] = '(lambda () (@body))'
            p[part] = '(lambda () (@in) (k (@v)) (@never))'
            add('escape', 'from the %s thunk, %d extents outside' % (part, depth), '(@r (call/cc (lambda (k) %s)))' % nest(depth, '(dynamic-wind %s %s %s)' % (p['before'], p['body'], p['after']), 5))
    # re-entry: a continuation captured at depth n is invoked from depth m in another set of extents
    pre = '(define k #f) (define n 0) '
    for n, m in itertools.product(range(4), range(4)):
        cap = nest(n, '(@s (call/cc (lambda (c) (set! k c) (@first))))')
        inv = nest(m, '(k (@again))', 11)
        add('re-entry', 'captured at depth %d, invoked at depth %d' % (n, m), pre + '(@r %s) (set! n (+ n 1)) (if (< n 3) %s) (@done)' % (cap, inv))
    # between extents that share outer extents
    for c, n, m in itertools.product((1, 2), range(1, 3), range(3)):
        cap = nest(n, '(@s (call/cc (lambda (c) (set! k c) (@first))))', 3)
        inv = nest(m, '(k (@again))', 11)
        add('common extents', 'common %d, captured at +%d, invoked at +%d' % (c, n, m), pre + '(@r %s) (@done)' % nest(c, '%s (set! n (+ n 1)) (if (< n 3) %s)' % (cap, inv)))
    # generators: alternation between two extents
    add('re-entry', 'coroutines', '''(define other #f) (define n 0)
(define (go x) (set! n (+ n 1)) (call/cc (lambda (c) (let ((o other)) (set! other c) (if o (o x) #f)))))
(dynamic-wind @b1 (lambda () (go (@p)) (@m1)) @a1)
(if (< n 2) (dynamic-wind @b2 (lambda () (go (@q)) (@m2)) @a2)) (@done)''')
    add('re-entry', 'the same extent twice', pre + '(dynamic-wind @b1 (lambda () (call/cc (lambda (c) (set! k c))) (@body)) @a1) (set! n (+ n 1)) (if (< n 4) (k 1)) (@done)')
    add('re-entry', 'within its own extent', pre + '(dynamic-wind @b1 (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (@body) (if (< n 3) (k 1))) @a1) (@done)')
    # effects of thunks that capture
    add('capture in thunks', 'continuation captured in before', pre + '(dynamic-wind (lambda () (call/cc (lambda (c) (set! k c))) (@b1)) @x1 @a1) (set! n (+ n 1)) (if (< n 3) (k 1)) (@done)')
    add('capture in thunks', 'continuation captured in after', pre + '(dynamic-wind @b1 @x1 (lambda () (call/cc (lambda (c) (set! k c))) (@a1))) (set! n (+ n 1)) (if (< n 3) (k 1)) (@done)')
    # a jump made by a thunk while another jump, or a return, winds through it
    for depth in (1, 2):
        for via in ('return', 'escape'):
            body = '(j 1)' if via == 'escape' else '(@x)'
            for i in range(depth):
                t = '(lambda () (@b{0}))', '(lambda () (@a{0}) (set! n (+ n 1)) (if (< n 3) (out 2)))' if i == 0 else '(lambda () (@a{0}))'
                body = '(dynamic-wind %s (lambda () %s) %s)' % (t[0].format(i), body, t[1].format(i))
            inner = '(call/cc (lambda (j) %s))' % body if via == 'escape' else body
            add('jumps from thunks', 'after leaves, %s through %d' % (via, depth), pre + '(call/cc (lambda (out) %s (@z)))' % inner)
            add('jumps from thunks', 'after leaves an outer extent, %s through %d' % (via, depth), pre + '(call/cc (lambda (out) (dynamic-wind @ob (lambda () %s (@z)) @oa)))' % inner)
            add('jumps from thunks', 'after leaves to within an outer extent, %s through %d' % (via, depth), pre + '(dynamic-wind @ob (lambda () (call/cc (lambda (out) %s (@z))) (@y)) @oa)' % inner)
            cap = inner.replace('(if (< n 3) (out 2))', '(call/cc (lambda (c) (set! k c)))')
            add('jumps from thunks', 'captured in after, %s through %d' % (via, depth), pre + cap + ' (set! n (+ n 1)) (if (< n 4) (k 1)) (@done)')
            add('jumps from thunks', 'captured in after within an extent, %s through %d' % (via, depth), pre + '(dynamic-wind @ob (lambda () %s) @oa)' % cap + ' (set! n (+ n 1)) (if (< n 4) (k 1)) (@done)')
    add('jumps from thunks', 'before leaves on re-entry', pre + '(define e #f) (dynamic-wind (lambda () (@b) (if (> n 0) (e 5))) (lambda () (call/cc (lambda (c) (set! k c))) (@x)) @a) (set! n (+ n 1)) (if (< n 3) (begin (call/cc (lambda (c) (set! e c) (k 1))) (@back) 1)) (@done)')
    add('jumps from thunks', 'before leaves an inner extent on re-entry', pre + '(define e #f) (dynamic-wind @ob (lambda () (dynamic-wind (lambda () (@b) (if (> n 0) (e 5))) (lambda () (call/cc (lambda (c) (set! k c))) (@x)) @a)) @oa) (set! n (+ n 1)) (if (< n 3) (begin (call/cc (lambda (c) (set! e c) (k 1))) (@back) 1)) (@done)')
    # the thunks run in the dynamic environment of the call of dynamic-wind
    for part in range(3):
        th = ['@b1', '(lambda () (@body))', '@a1']
        th[part] = '(lambda () (@see (p)))'
        add('thunks and parameters', ('before', 'thunk', 'after')[part], '(define p (make-parameter (@i))) (parameterize ((p (@v))) (dynamic-wind %s))' % ' '.join(th), D)
    add('thunks and parameters', 'escape restores the outer binding in after', '(define p (make-parameter (@i))) (call/cc (lambda (k) (dynamic-wind (lambda () (@b (p))) (lambda () (parameterize ((p (@v))) (@x (p)) (k 1))) (lambda () (@a (p)))))) (@end (p))', D)
    # values and call/cc basics
    basics = ['(call/cc (lambda (k) (@f k) 1))'.replace('(@f k)', '(@f 0)'), '(+ 1 (call/cc (lambda (k) (* 10 (k (@v))))))', '(call/cc call/cc)'.replace('(call/cc call/cc)', '(procedure? (call/cc (lambda (k) k)))'),
              '(let ((k (call/cc (lambda (c) c)))) (if (procedure? k) (k (@v)) (@r k)))', '(define r \'()) (let loop ((i 0)) (if (< i 3) (begin (call/cc (lambda (k) (if (@t i) (k 1)) (@b i))) (loop (+ i 1))))) (@end)',
              '(call-with-current-continuation (lambda (k) (k (@a))))', '(list (call/cc (lambda (k) (k (@a)))) (call/cc (lambda (k) (@b))))',
              '(define (f ret) (for-each (lambda (x) (if (@t x) (ret x))) (list $a $b $c)) (@none)) (call/cc f)',
              '(map (lambda (x) (call/cc (lambda (k) (if (@t x) (k (@y x)) (@z x))))) (list $a $b))',
              '(call/cc (lambda (k1) (call/cc (lambda (k2) (if (@t) (k1 (@a)) (k2 (@b))))) (@after)))',
              '(call-with-values (lambda () (call/cc (lambda (k) (k (@a))))) list)', '(define k2 #f) (define c 0) (define r (list (@a) (call/cc (lambda (k) (set! k2 k) (@b))) (@c))) (set! c (+ c 1)) (if (< c 3) (k2 (@d c))) r']
    for s in basics:
        add('continuations', s, s, unordered='map' in s)
    for n in range(4):
        vs = ' '.join('(@v%d)' % i for i in range(n))
        add('continuations', '%d values through a continuation' % n, '(call-with-values (lambda () (call/cc (lambda (k) (k %s)))) list)' % vs, unordered=True)
        add('continuations', '%d values through a continuation and an extent' % n, '(call-with-values (lambda () (call/cc (lambda (k) (dynamic-wind @b (lambda () (k %s)) @a)))) list)' % vs, unordered=True)
        add('continuations', '%d values through dynamic-wind' % n, '(call-with-values (lambda () (dynamic-wind @b (lambda () (values %s)) @a)) list)' % vs, D, unordered=True)
    # exit runs the outstanding after thunks, innermost first
    for n in range(4):
        for a in ('', '#t', '3', '(@s)'):
            add('exit', 'at depth %d, argument %s' % (n, a or 'none'), '%s (@never)' % nest(n, '(@x) (exit %s)' % a), ('(meevax continuation)', 'exit'))
    return out


def check(r, F):
    schemes.common_rules(r)
    r.rule('leaving an extent through a continuation runs its after thunk once, entering one runs its before thunk once, from the innermost out and the outermost in, and extents common to both ends are neither left nor entered')
    schemes.run(r, F, items())
    for fam, n in (('escape', 15), ('re-entry', 15), ('exit', 12), ('continuations', 12)):
        r.need_count(fam, n)
