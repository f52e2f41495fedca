"""C28: macro transformers written with er-, sc- and rsc-macro-transformer."""
from . import schemes
from .schemes import Item, IMP

LIB = '(meevax macro-transformer)'
IMPORTS = IMP + ' (scheme cxr) ' + LIB
NAMES = ['x', 'tmp', 'if', 'let', 'list', 'lambda', 'quote', 'else', 'form', 'rename', 'compare', 'use-env', 'mac-env', 'renames', 'it', 'f', 'assq', 'cons', 'cdr']


def items():
    out = []

    def add(family, label, src, want, name):
        out.append(Item(family, label, src, LIB, name, imports=IMPORTS, ref_src=want, unordered=True))

    # (transformer of one operand, expansion): the identifiers it inserts are own, the operands the user's
    def er(template, operands):
        return '(er-macro-transformer (lambda (form rename compare) (let (%s) %s)))' % (
            ' '.join('(%s (%s form))' % (o, acc) for o, acc in operands), template('(rename (quote %s))'))

    def sc(template, operands):
        return '(sc-macro-transformer (lambda (form use-env) (let (%s) %s)))' % (
            ' '.join('(%s (make-syntactic-closure use-env (quote ()) (%s form)))' % (o, acc) for o, acc in operands), template('(quote %s)'))

    def rsc(template, operands):
        return '(rsc-macro-transformer (lambda (form mac-env) (let (%s) %s)))' % (
            ' '.join('(%s (%s form))' % (o, acc) for o, acc in operands), template('(make-syntactic-closure mac-env (quote ()) (quote %s))'))
    kinds = (('er-macro-transformer', er), ('sc-macro-transformer', sc), ('rsc-macro-transformer', rsc))
    # the same inserted variable must be one identifier: bind the name it is referred to by
    swap = lambda q: ('(let ((v %s)) (list %s (list (list v a)) (list %s b v) (list %s v v)))' % (q % 'tmp', q % 'let', q % 'list', q % 'use'))
    either = lambda q: ('(let ((v %s)) (list %s (list (list v a)) (list %s v v b)))' % (q % 'tmp', q % 'let', q % 'if'))
    call = lambda q: '(list %s a b)' % (q % 'helper')
    for kname, k in kinds:
        ops = (('a', 'cadr'), ('b', 'caddr'))
        for tname, t, exp in (('bind', swap, '(let ((tmp0 %s)) (list0 %s tmp0) (use tmp0 tmp0))'), ('or', either, '(let ((tmp0 %s)) (if tmp0 tmp0 %s))'), ('call', call, '(helper %s %s)')):
            pre = '(define list0 list) (define use (lambda xs (@use))) (define (helper a b) (@help a b)) '
            m = k(t, ops)
            if tname == 'bind':
                m = m.replace("list0", "list")
            for v in NAMES + ['helper', 'use', 'm', 'a', 'b', 'v']:
                if v == 'm':
                    continue
                src = pre + '(define-syntax m %s) ((lambda (%s) (m (@p %s) (@q %s))) (@own))' % (m, v, v, v)
                want = pre + '((lambda (own) %s) (@own))' % (exp % ('(@p own)', '(@q own)'))
                add('global macro', '%s %s, variable %s' % (kname, tname, v), src, want, kname)
                src = pre + '((lambda (%s) (let-syntax ((m %s)) (m (@p %s) (@q %s)))) (@own))' % (v, m, v, v)
                if v in ('tmp', 'x', 'form', 'rename', 'compare', 'use-env', 'mac-env', 'renames', 'it', 'else', 'f', 'a', 'b', 'v'):
                    add('local macro', '%s %s, variable %s' % (kname, tname, v), src, want, kname)
            # a local variable of the macro definition that the use shadows
            for v in ('helper', 'w'):
                t2 = lambda q: '(list %s a b)' % (q % v)
                src = pre + '(let ((%s (lambda (a b) (@inner a b)))) (let-syntax ((m %s)) (let ((%s (@own))) (m (@p %s) (@q %s)))))' % (v, k(t2, ops), v, v, v)
                want = pre + '(let ((f0 (lambda (a b) (@inner a b)))) (let ((own (@own))) (f0 (@p own) (@q own))))'
                add('scope of the definition', '%s, variable %s, %s' % (kname, v, tname), src, want, kname)
        # nested uses: the identifiers of each expansion are its own
        m = k(either, ops)
        pre = '(define-syntax m %s) ' % m
        for depth, use, want in ((2, '(m (@p) (m (@q) (@r)))', '(let ((t1 (@p))) (if t1 t1 (let ((t2 (@q))) (if t2 t2 (@r)))))'), (2, '(m (m (@p) (@q)) (@r))', '(let ((t1 (let ((t2 (@p))) (if t2 t2 (@q))))) (if t1 t1 (@r)))'),
                                 (2, '(let ((tmp (@o))) (m (@p tmp) (let ((tmp (@i))) (m (@q tmp) tmp))))', '(let ((o (@o))) (let ((t1 (@p o))) (if t1 t1 (let ((i (@i))) (let ((t2 (@q i))) (if t2 t2 i))))))')):
            add('nested uses', '%s %s' % (kname, use), pre + use, want, kname)
        # quotation loses the closure
        q = k(lambda q: '(list %s (list %s a b))' % (q % 'quote', q % 'tmp'), ops)
        add('quotation', kname, '(define-syntax m %s) (m x (y "s" 1))' % q, "'(tmp x (y \"s\" 1))", kname)
        # definitions
        d = k(lambda q: '(list %s a (list %s (quote ()) b))' % (q % 'define', q % 'lambda'), ops)
        if kname != 'sc-macro-transformer':    # what defining a closed identifier does is not specified
            add('definitions', kname, '(define-syntax m %s) (let ((lambda 1)) (m g (@p)) (list (g) (g)))' % d, '(let ((z 1)) (define (g) (@p)) (list (g) (g)))', kname)
        # captured on purpose: the identifier of the macro is the user's
        if kname == 'rsc-macro-transformer':
            add('capture', kname, "(define-syntax m (rsc-macro-transformer (lambda (form env) (list (quote let) (list (list (quote self) 5)) (cadr form))))) (let ((self 1)) (m (@p self)))", '(@p 5)', kname)
        if kname == 'er-macro-transformer':
            add('capture', kname, "(define-syntax m (er-macro-transformer (lambda (form rename compare) (list (rename 'let) (list (list 'self 5)) (cadr form))))) (let ((self 1) (let 3)) (m (@p self)))", '(@p 5)', kname)
        if kname == 'sc-macro-transformer':
            add('capture', kname, "(define-syntax m (sc-macro-transformer (lambda (form env) (list 'call-with-current-continuation (list 'lambda '(self) (make-syntactic-closure env '(self) (cadr form))))))) (let ((self 1) (lambda 2)) (+ (m (self (@p))) 0))".replace('(+ (m (self (@p))) 0)', '(list (m (begin (self (@p)) (@never))))'),
                '(list (call-with-current-continuation (lambda (s) (begin (s (@p)) (@never)))))', kname)
            add('capture', kname + ' other operands', "(define-syntax m (sc-macro-transformer (lambda (form env) (list 'let (list (list 'self 5)) (list 'list (make-syntactic-closure env '(self) (cadr form)) (make-syntactic-closure env '() (caddr form))))))) (let ((self 1)) (m (@p self) (@q self)))", '(let ((self 1)) (list (@p 5) (@q 1)))', kname)
    # rename is a function; compare tells whether two identifiers mean the same at the use
    add('rename', 'twice the same', "(define-syntax m (er-macro-transformer (lambda (form rename compare) (list (rename 'quote) (list (eq? (rename 'a) (rename 'a)) (eqv? (rename 'a) (rename 'b)) (eq? (rename 'a) 'a) (identifier? (rename 'a)) (identifier? 'a) (identifier? 1) (identifier? \"a\") (identifier? '(a))))))) (m)",
        "'(#t #f #f #t #t #f #f #f)", 'er-macro-transformer')
    cmp = "(define-syntax m (er-macro-transformer (lambda (form rename compare) (if (compare (cadr form) (rename '%s)) (list (rename 'quote) 'same) (list (rename 'quote) 'other))))) "
    for n, free in (('else', True), ('if', True), ('list', True), ('cond', True), ('unbound-name', True)):
        d = cmp % n
        add('compare', '%s itself' % n, d + '(m %s)' % n, "'same", 'identifier=?')
        add('compare', '%s bound locally' % n, d + '(let ((%s 1)) (m %s))' % (n, n), "'other", 'identifier=?')
        add('compare', '%s of a procedure argument' % n, d + '((lambda (%s) (@see (m %s))) 1)' % (n, n), "(@see 'other)", 'identifier=?')
        add('compare', '%s with other local bindings' % n, d + '(let ((y 1)) (m %s))' % n, "'same", 'identifier=?')
        add('compare', 'another name for %s' % n, d + '(m zzz)', "'other", 'identifier=?')
        add('compare', '%s against a local other name' % n, d + '(let ((zzz 1)) (m zzz))', "'other", 'identifier=?')
        add('compare', '%s inserted by another macro' % n, d + "(define-syntax w (er-macro-transformer (lambda (form rename compare) (list (rename 'm) (rename '%s))))) (let ((%s 1)) (w))" % (n, n), "'same", 'identifier=?')
        if n not in ('if', 'list'):     # the transformer itself uses these
            add('compare', '%s of the definition' % n, "(let ((%s 1)) %s)" % (n, (d + '(m %s)' % n).replace('(define-syntax m ', '(let-syntax ((m ', 1).rstrip().replace('))))) (m', ')))))) (m', 1) + ')'), "'same", 'identifier=?')
    add('compare', 'two operands', "(define-syntax m (er-macro-transformer (lambda (form rename compare) (list (rename 'quote) (if (compare (cadr form) (caddr form)) 'same 'other))))) (list (m x x) (m x y) (let ((x 1)) (m x x)) (let ((x 1) (y 1)) (m x y)))", "'(same other same other)", 'identifier=?')
    return out


def check(r, F):
    schemes.common_rules(r)
    r.rule('an expansion means the program in which each inserted identifier refers to what it means where the macro is defined (or is a fresh variable when the expansion binds it) and each operand to what it means at the use')
    schemes.run(r, F, items())
    for fam, n in (('global macro', 150), ('local macro', 80), ('nested uses', 9), ('compare', 35), ('capture', 4)):
        r.need_count(fam, n)
