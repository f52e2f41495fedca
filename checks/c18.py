"""C18: syntax-rules and the hygiene of macros."""
import itertools
from . import schemes
from .schemes import Item

SR = ('(srfi 149)', 'syntax-rules')


def items():
    out = []

    def add(family, label, src, lib='(srfi 149)', name='syntax-rules', **o):
        out.append(Item(family, label, src, lib, name, **o))

    def mac(rules, use, head='()'):
        return '(define-syntax m (syntax-rules %s %s)) %s' % (head, ' '.join('(%s %s)' % (p, t) for p, t in rules), use)
    # one pattern, every number of operands
    pats = [('(_)', "'()"), ('(_ a)', "'(a)"), ('(_ a b)', "'(b a a)"), ('(_ a ...)', "'(a ... end)"), ('(_ a ...)', "'(begin (a) ...)"), ('(_ a b ...)', "'((b ...) a (a b) ...)"),
            ('(_ a ... b)', "'(b (a ...))"), ('(_ a ... b c)', "'(c b a ...)"), ('(_ a b ... c)', "'((a c) b ...)"),
            ('(_ a . r)', "'(r a)"), ('(_ . r)', "'r"), ('(_ a b . r)', "'(r b a)"), ('(_ a ... . r)', "'((a ...) r)"), ('(_ _ a)', "'(a)"), ('(_ a ... _)', "'(a ...)"),
            ('(_ a ...)', "'(a ... a ...)"), ('(_ a ...)', "'((a a) ...)"), ('(_ a ...)', "'(a ... . tail)"), ('(_ a ...)', "'#(a ... x)"), ('(_ a ...)', "'(x #(a y) ...)")]
    args = ['(p)', 'q', '3', '"s"', 'r', '()']
    for p, t in pats:
        for n in range(5):
            add('flat patterns', '%s -> %s with %d operands' % (p, t, n), mac([(p, t)], '(m %s)' % ' '.join(args[:n])))
        add('flat patterns', '%s -> %s with a dotted use' % (p, t), mac([(p, t)], '(m x y . z)'))
    nested = [('(_ (a b) ...)', "'((b ...) (a ...))"), ('(_ (a b ...) ...)', "'((a ...) (b ...) ...)"), ('(_ (a b ...) ...)', "'((a b ... end) ...)"), ('(_ (a b ...) ...)', "'((a b) ... ...)"),
              ('(_ (a b ...) ...)', "'(b ... ...)"), ('(_ (a ...) (b ...))', "'((a b) ...)"), ('(_ (a ...) b ...)', "'((a ...) b ...)"), ('(_ ((a b ...) ...) ...)', "'(((b ...) ...) ...)"),
              ('(_ ((a b ...) ...) ...)', "'((a ... ...) b ... ... ...)"), ('(_ #(a b ...))', "'(a b ...)"), ('(_ #(a ... b))', "'#(b a ...)"), ('(_ (a ... b) ...)', "'((b a ...) ...)"),
              ('(_ (a b ... c d) ...)', "'((d c b ... a) ...)"), ('(_ (a . b) ...)', "'((b . a) ...)"), ('(_ (k a ...) ...)', "'((k a) ... ...)"), ('(_ x (a ...) ...)', "'((x a ...) ...)"),
              ('(_ x (a ...) ...)', "'((x a) ... ...)"), ('(_ ((a) ...) ...)', "'((a ...) ...)"), ('(_ (#(a ...) ...))', "'(#(a ... z) ...)")]
    uses = ['', '(1 2)', '(1 2) (3 4)', '(1 2 3)', '(1) (2 3) (4 5 6)', '()', '(1 2) (3 4 5)', '((1 2) (3 4))', '((1 2 3) (4)) ((5 6))', '(((1)))', '#(1 2 3)', '#()', '#(1)', '(1 . 2) (3 4)', 'x', 'x (1 2) (3)', '((1) (2)) () ((3))', '(#(1 2) #() #(3))', '(1 2) 3', '(1 2 3) (4 5 6)', '(1 2) (3 4) 5 6']
    for p, t in nested:
        for u in uses:
            if p == '(_ (a ...) (b ...))' and u not in ('(1 2) (3 4)', '(1 2 3) (4 5 6)', '(1 2)', '(1 2) 3'):
                continue            # sequences of different lengths in one template: not specified
            add('nested patterns', '%s -> %s on %s' % (p, t, u), mac([(p, t)], '(m %s)' % u))
    # literals and constants
    lit = [([('(_ else)', "'lit"), ('(_ a)', "'var")], '(else)', ['(m else)', '(m other)', '(let ((else 1)) (m else))', '(m 1)', '(define (f else) (m else)) (f 1)']),
           ([('(_ a => b)', "'(arrow a b)"), ('(_ a b c)', "'(three a b c)")], '(=>)', ['(m 1 => 2)', '(m 1 + 2)', '(let ((=> 0)) (m 1 => 2))', '(m => => =>)']),
           ([('(_ foo)', "'lit"), ('(_ a)', "'var")], '(foo)', ['(m foo)', '(let ((foo 1)) (m foo))', '(m bar)', '(define foo 1) (m foo)']),
           ([('(_ if a)', "'lit"), ('(_ b a)', "'var")], '(if)', ['(m if 1)', '(m iff 1)', '(let ((if list)) (m if 1))']),
           ([('(_ 1 a)', "'(one a)"), ('(_ "s" a)', "'(str a)"), ('(_ #\\c a)', "'(chr a)"), ('(_ #t a)', "'(true a)"), ('(_ () a)', "'(nil a)"), ('(_ a b)', "'(other a b)")], '()',
            ['(m 1 x)', '(m "s" x)', '(m #\\c x)', '(m #t x)', '(m () x)', '(m 2 x)', '(m "t" x)', '(m #\\d x)', '(m #f x)', '(m (1) x)', '(m 1)']),
           ([('(_ (a else ...) b)', "'lit")], '(else)', ['(m (1) 2)', '(m (1 else) 2)', '(m (1 else else) 2)', '(m (1 x) 2)']),
           ([('(_ a ...)', "'(a (... ...))")], '()', ['(m)', '(m 1 2)']), ([('(_ a)', "'((... ...) a)")], '()', ['(m 1)']), ([('(_ a b)', "(... '(a ... b ...))")], '()', ['(m 1 2)'])]
    for rules, lits, us in lit:
        for u in us:
            add('literals', '%s on %s' % (rules, u), mac(rules, u, lits))
    ce = [('(define-syntax m (syntax-rules ::: () ((_ a :::) (list \'a ::: \'...))))', ['(m)', '(m 1 2)']),
          ('(define-syntax m (syntax-rules ::: (x) ((_ x (a b :::) :::) \'((b ::: a) :::))))', ['(m x (1 2 3) (4))', '(m x)', '(m y)']),
          ('(define-syntax m (syntax-rules (...) ((_ ...) \'dots) ((_ a) \'other)))', ['(m ...)', '(m 1)'])]
    for d, us in ce:
        for u in us:
            add('ellipsis', '%s on %s' % (d, u), d + ' ' + u)
    # rule order, recursion, nesting, generated definitions
    rec = ["(define-syntax m (syntax-rules () ((_) '()) ((_ a) (list a)) ((_ a b ...) (cons a (m b ...))))) (m (@a) (@b) (@c))",
           "(define-syntax rev (syntax-rules () ((_ () r) 'r) ((_ (a . b) (r ...)) (rev b (a r ...))))) (rev (1 2 3) ())",
           "(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...)))))) (define t (@q)) (my-or (@a) t)",
           "(define-syntax swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp))))) (define tmp (@x)) (define other (@y)) (swap! tmp other) (list tmp other)",
           "(define-syntax while (syntax-rules () ((_ c b ...) (let lp () (if c (begin b ... (lp)) #f))))) (define lp (@l)) (while (@t) (@b lp))",
           "(define-syntax def (syntax-rules () ((_ n v) (define n v)))) (def x (@a)) (define y (@b x)) (list x y)",
           "(define-syntax def (syntax-rules () ((_ (n v) ...) (begin (define n v) ...)))) (def (x (@a)) (y (@b x))) (list x y)",
           "(define (f) (define-syntax def (syntax-rules () ((_ n v) (define n v)))) (def x (@a)) (def y (@b x)) (list x y)) (f)",
           "(define-syntax gen (syntax-rules () ((_ n) (define-syntax n (syntax-rules () ((_ x) (list 'n x (@g)))))))) (gen k) (k (@a))",
           "(define-syntax m (syntax-rules () ((_ (b e) ...) ((lambda (b ...) (list b ...)) e ...)))) (m (x (@a)) (y (@b)))",
           "(define-syntax m (syntax-rules () ((_ x) (let ((y 1)) (list x y))))) (define y (@y)) (m y)",
           "(let-syntax ((m (syntax-rules () ((_ x) (@m x))))) (m (@a)))", "(define x (@o)) (let-syntax ((m (syntax-rules () ((_) x)))) (let ((x 1)) (m)))",
           "(letrec-syntax ((ev (syntax-rules () ((_) #t) ((_ a . r) (od . r)))) (od (syntax-rules () ((_) #f) ((_ a . r) (ev . r))))) (list (ev a b) (od a b)))",
           "(define x (@o)) (define-syntax m (syntax-rules () ((_) x))) (define (f x) (m)) (f 1)",
           "(define-syntax m (syntax-rules () ((_ v e) (let ((v (@a))) e)))) (m z (@b z))",
           "(define-syntax m (syntax-rules () ((_ v) (lambda (v . r) (list v r))))) ((m r0) 1 2)",
           "(define-syntax a (syntax-rules () ((_ x) (b x x)))) (define-syntax b (syntax-rules () ((_ x y) (list x y (@e))))) (a (@d))",
           "(define-syntax m (syntax-rules () ((_ x ...) (n (x x) ...)))) (define-syntax n (syntax-rules () ((_ (a b) ...) '((a ...) (b ...))))) (m 1 2 3)",
           "(define-syntax be-like-begin (syntax-rules () ((be-like-begin name) (define-syntax name (syntax-rules () ((name expr (... ...)) (begin expr (... ...)))))))) (be-like-begin sequence) (sequence (@a) (@b) (@c))",
           "(define-syntax m (syntax-rules () ((_ n) (define (n) (helper))))) (define (helper) (@h)) (m go) (let ((helper 1)) (go))",
           "(define-syntax ten (syntax-rules () ((_) 10))) (define-syntax m (syntax-rules () ((_ x) (+ x (ten))))) (let ((ten 3)) (m ten))",
           "(define-syntax m (syntax-rules () ((_ x) (let loop ((i 0)) (if (< i 2) (begin x (loop (+ i 1))) i))))) (let ((loop 5) (i 7)) (m (@u loop i)))",
           "(define-syntax kw (syntax-rules () ((_ a) (cond (a => (lambda (x) (list x))) (else 'no))))) (let ((=> #f) (else #f) (x (@o))) (kw x))"]
    for src in rec:
        add('rules', src, src, force={'t': (3, False)})
    add('errors', 'no rule matches', "(define-syntax m (syntax-rules () ((_ a) 'one))) (m 1 2)")
    # hygiene of the standard forms: user variables named like anything an expansion may insert,
    # and procedures rebound locally, must not change the meaning of the form
    names = ['if', 'let', 'lambda', 'begin', 'define', 'set!', 'quote', 'cons', 'list', 'append', 'eqv?', 'memv', 'not', 'result', 'rec', 'it', 'temp', 'tmp', 'x', 'y', 'v', 'loop', 'args', 'call-with-values', 'dynamic-wind',
             'dynamic-bind', 'promise', 'lazy', 'make-promise', 'list->vector', 'vector', 'apply', 'map', 'letrec', 'cond', 'car', 'cdr', 'cadr', 'length', '=', 'error', 'raise-continuable', 'with-exception-handler',
             'call-with-current-continuation', 'condition', 'guard-k', 'handler-k', 'reraise', 'dummy', 'parameterize', 'make-record-type', 'record-constructor', 'values', 'or', 'and', 'else?', 'quasiquote', 'case-lambda', 'force', 'f', 'k', 'e', 'clause', 'rename', 'compare', 'form', 'body']
    forms = [('cond', '(scheme r4rs)', '(cond ((@t %s) => (lambda (q) (list q %s))) ((@u)) (else (@z %s)))'),
             ('case', '(scheme r4rs)', '(case (@k %s) ((a b) (@e %s)) ((1) => (lambda (q) (list q %s))) (else (@z %s)))'),
             ('and', '(scheme r4rs)', '(and (@a %s) (@b %s) %s)'), ('or', '(scheme r4rs)', '(or (@a %s) (@b %s) %s)'),
             ('when', '(scheme base)', '(when (@t %s) (@e %s))'), ('unless', '(scheme base)', '(unless (@t %s) (@e %s))'),
             ('do', '(scheme r4rs)', '(do ((n (@i %s) (@s n %s))) ((@t n) (@r %s)) (@c %s))'), ('do', '(scheme r4rs)', '(do ((n (@i %s) (@s n %s))) ((@t n)) (@c %s))'),
             ('named let', '(scheme r4rs)', '(let lp ((n (@i %s))) (if (@t n) (@r n %s) (lp (@s n %s))))'),
             ('let*', '(scheme r4rs)', '(let* ((a1 (@a %s)) (b1 (@b a1 %s))) (@c a1 b1 %s))'), ('letrec*', '(scheme base)', '(letrec* ((a1 (@a %s)) (b1 (@b a1 %s))) (@c a1 b1 %s))'),
             ('let-values', '(srfi 11)', '(let-values (((a1 b1) (@a %s)) (c1 (@c %s))) (@b a1 b1 c1 %s))'.replace('(@a %s)', '(values2 (@a %s) (@d))').replace('(@c %s)', '(values2 (@c %s))')),
             ('let*-values', '(srfi 11)', '(let*-values (((a1 . b1) (values2 (@a %s) (@d))) ((c1) (@e a1 %s))) (@b a1 b1 c1 %s))'),
             ('receive', '(srfi 8)', '(receive (a1 . b1) (values2 (@a %s) (@d)) (@b a1 b1 %s))'),
             ('quasiquote', '(scheme r4rs)', '`(1 ,(@a %s) ,@(list2 (@b %s)) #(x ,%s) `(y ,(z ,(@c %s))) . %s)'),
             ('delay', '(srfi 45)', '(force2 (delay (@a %s)))'), ('delay-force', '(srfi 45)', '(force2 (delay-force (mp (@a %s))))'),
             ('parameterize', '(srfi 39)', '(parameterize ((p0 (@a %s))) (@b (p0) %s))'),
             ('guard', '(srfi 34)', '(guard (g1 ((@t g1 %s) => (lambda (q) (@r q %s))) ((@u g1 %s)) (else (@z g1 %s))) (raise2 (@a %s)))'),
             ('guard', '(srfi 34)', '(guard (g1 ((@t g1 %s) (@r %s)) (else (@z g1 %s))) (@a %s))'),
             ('case-lambda', '(srfi 16)', '((case-lambda ((a1) (@a a1 %s)) ((a1 b1 . c1) (@b a1 b1 c1 %s))) (@d %s) (@e %s))'),
             ('rec', '(srfi 31)', '((rec (g1 n) (if (@t n %s) (@r g2 n) (g1 (@s n %s)))) (@i %s))'.replace('(@r g2 n)', '(@r n)')),
             ('define-values', '(scheme base)', '(let2 () (define-values (a1 b1 . c1) (values2 (@a %s) (@b) (@c))) (list2 a1 b1 c1 %s))'),
             ('define-record-type', '(srfi 9)', '(let2 () (define-record-type r1 (mk1 a1 b1) r1? (a1 get-a1 set-a1!) (b1 get-b1)) (define q (mk1 (@a %s) (@b))) (set-a1! q (@c %s)) (list2 (get-a1 q) (get-b1 q) (r1? q) (@u %s)))')]
    # the analysed forms use these aliases so that rebinding the standard names affects only the expansion
    pre = ('(define values2 values) (define list2 list) (define force2 force) (define mp make-promise) (define raise2 raise) (define p0 (make-parameter #f)) '
           '(define-syntax let2 (syntax-rules () ((_ . r) (let . r)))) ')
    for nm, lib, f in forms:
        for v in names:
            used = f % ((v,) * f.count('%s'))
            body_words = set(f.replace('(', ' ').replace(')', ' ').replace("'", ' ').replace('`', ' ').split())
            if v in body_words or v in ('list', 'lambda', 'define') and v in f:
                continue            # the template itself uses this name
            if v == 'quasiquote' and '`' in f:
                continue
            src = pre + '((lambda (%s) %s) (@own))' % (v, used)
            add('hygiene', '%s with a variable %s' % (nm, v), src, lib, nm, force={'t': (3, True)}, unordered=True)
        # operands that are free references to global procedures of the user's with the same names
        for v in ('list', 'cons', 'append', 'memv', 'eqv?', 'not', 'apply', 'call-with-values', 'dynamic-wind', 'map', 'force', 'promise', 'rec', 'result', 'error'):
            body_words = set(f.replace('(', ' ').replace(')', ' ').replace("'", ' ').replace('`', ' ').split())
            if v in body_words:
                continue
            used = f % ((v,) * f.count('%s'))
            add('hygiene', '%s with a local definition of %s' % (nm, v), pre + '((lambda () (define %s (@own)) %s))' % (v, used if not used.startswith('(let2') else used), lib, nm, force={'t': (3, True)}, unordered=True)
    return out


def check(r, F):
    schemes.common_rules(r)
    r.rule('a use of a macro expands by the first rule whose pattern matches; pattern variables are substituted position by position; identifiers a template inserts mean what they mean where the macro was defined, and identifiers of the use mean what they mean at the use')
    schemes.run(r, F, items())
    for fam, n in (('flat patterns', 100), ('nested patterns', 350), ('literals', 30), ('hygiene', 1000), ('rules', 20)):
        r.need_count(fam, n)
