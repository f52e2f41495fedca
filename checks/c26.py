"""C26: port procedures use the given or the current port, and close what they open."""
from . import schemes
from .schemes import Item

IMP = '(scheme base) (scheme write) (scheme read) (scheme file) (scheme load) (scheme repl)'
BASE = '(scheme base)'
WHERE = {'read': '(scheme read)', 'write': '(scheme write)', 'display': '(scheme write)', 'write-simple': '(scheme write)', 'load': '(scheme r4rs)',
         'call-with-input-file': '(scheme r4rs)', 'call-with-output-file': '(scheme r4rs)', 'with-input-from-file': '(scheme r4rs)', 'with-output-to-file': '(scheme r4rs)'}
R4 = '(scheme r4rs)'


def items():
    out = []

    def add(family, label, src, name, imports=IMP, lib=None, **o):
        out.append(Item(family, label, src, lib or WHERE.get(name, BASE), name, imports=imports, oracle=('ports',), tree=True, **o))

    inputs = ['read-char', 'peek-char', 'char-ready?', 'read-line', 'read-u8', 'peek-u8', 'u8-ready?', 'read', 'read-string 3', 'read-string $k', 'read-bytevector 3', 'read-string 0']
    outputs = ['write-char $c', 'write-string "hello"', 'write-u8 $b', 'write-bytevector (bytevector 1 2 3)', 'newline', 'flush-output-port', 'write $x', 'write-simple $x',
               'write-string (string $c $d)', 'display "text"', 'display #\\a', "display 'sym", "display (list $a \"b\")", 'display 5', 'display (vector)', 'write "a"', "write '(a . b)", 'write #\\a']
    for kind, ops, cur in (('input', inputs, 'current-input-port'), ('output', outputs, 'current-output-port')):
        for op in ops:
            name = op.split()[0]
            add('port argument', '(%s port)' % op, '(%s $p)' % op, name)
            add('current port', '(%s)' % op, '(%s)' % op, name)
            add('current port', '(%s) within parameterize' % op, '(parameterize ((%s $p)) (%s) (@f))' % (cur, op), name)
            add('current port', '(%s) after parameterize' % op, '(parameterize ((%s $p)) (@f)) (%s)' % (cur, op), name)
            for other in {'current-input-port', 'current-output-port', 'current-error-port'} - {cur}:
                add('current port', '(%s) with another current port' % op, '(parameterize ((%s $p)) (%s) (@f))' % (other, op), name)
            add('current port', '(%s port) within parameterize' % op, '(parameterize ((%s $p)) (%s $q) (@f))' % (cur, op), name)
            add('port argument', '(%s (current-error-port))' % op if kind == 'output' else '(%s (current-input-port))' % op, '(%s (%s))' % (op, 'current-error-port' if kind == 'output' else 'current-input-port'), name)
    for op in ['read-char', 'peek-char', 'char-ready?', 'read', 'write-char $c', 'write $x', 'display "text"', 'display #\\a', "display 'sym", 'newline']:
        name = op.split()[0]
        add('r4rs', '(%s port)' % op, '(%s $p)' % op, name, imports=R4, lib=R4)
        add('r4rs', '(%s)' % op, '(%s)' % op, name, imports=R4, lib=R4)
    for lo in range(0, 4):
        add('ranges', 'write-string from %d' % lo, '(write-string "abc" $p %d)' % lo, 'write-string')
        add('ranges', 'write-bytevector from %d' % lo, '(write-bytevector (bytevector 1 2 3) $p %d)' % lo, 'write-bytevector')
        for hi in range(lo, 4):
            add('ranges', 'write-string %d to %d' % (lo, hi), '(write-string "abc" $p %d %d)' % (lo, hi), 'write-string')
            add('ranges', 'write-bytevector %d to %d' % (lo, hi), '(write-bytevector (bytevector 1 2 3) $p %d %d)' % (lo, hi), 'write-bytevector')
            add('ranges', 'read-bytevector! %d to %d' % (lo, hi), '(define v (bytevector 7 8 9)) (define n (read-bytevector! v $p %d %d)) (list n v)' % (lo, hi), 'read-bytevector!')
        add('ranges', 'read-bytevector! from %d' % lo, '(define v (bytevector 7 8 9)) (define n (read-bytevector! v $p %d)) (list n v)' % lo, 'read-bytevector!')
    add('ranges', 'read-bytevector! port', '(define v (bytevector 7 8 9)) (define n (read-bytevector! v $p)) (list n v)', 'read-bytevector!')
    add('ranges', 'read-bytevector!', '(define v (bytevector 7 8 9)) (define n (read-bytevector! v)) (list n v)', 'read-bytevector!')
    for op in ('open-input-string "abc"', 'open-output-string', 'open-input-bytevector (bytevector 1 2)', 'open-output-bytevector', 'open-input-file "n"', 'open-output-file "n"',
               'open-binary-input-file "n"', 'open-binary-output-file "n"', 'file-exists? "n"', 'delete-file "n"', 'get-output-string (open-output-string)', 'get-output-bytevector (open-output-bytevector)', 'eof-object',
               'current-input-port', 'current-output-port', 'current-error-port'):
        add('opening', op, '(%s)' % op, op.split()[0])
    for port in ('(open-input-string "abc")', '(open-output-string)', '(open-input-bytevector (bytevector 1))', '(open-output-bytevector)'):
        add('closing', 'close-port %s' % port, '(close-port %s)' % port, 'close-port')
        add('closing', 'close-%s-port %s' % ('input' if 'input' in port else 'output', port), '(close-%s-port %s)' % ('input' if 'input' in port else 'output', port), 'close-port')
        add('closing', '%s open?' % port, '(%s-port-open? %s)' % ('input' if 'input' in port else 'output', port), 'input-port-open?')
        for v in ('(@f p)', '(begin (@f p) (values))', '(begin (@f p) (values $a $b))', '(begin (@f p) (values $a $b $c))'):
            add('closing', 'call-with-port %s %s' % (port, v), '(call-with-values (lambda () (call-with-port %s (lambda (p) %s))) list)' % (port, v), 'call-with-port')
    for proc, arg, arity in (('call-with-input-file', 'read-char', 1), ('call-with-output-file', 'write-char $c', 1), ('with-input-from-file', 'read-char', 0), ('with-output-to-file', 'write-char $c', 0)):
        for imp in (IMP, R4):
            if imp == R4:
                forms = ['(%s "name" (lambda (%s) (begin (@f%s) (%s%s))))' % (proc, 'p' * arity, ' p' * arity, arg, ' p' * arity)]
            else:
                forms = ['(call-with-values (lambda () (%s "name" (lambda (%s) (begin (@f%s) (%s%s) %s)))) list)' % (proc, 'p' * arity, ' p' * arity, arg, ' p' * arity, v) for v in ('$a', '(values)', '(values $a $b)')]
                forms.append('(begin (%s "name" (lambda (%s) (begin (@f%s) (%s%s)))) (%s))' % (proc, 'p' * arity, ' p' * arity, arg, ' p' * arity, arg))
                forms.append('(call-with-current-continuation (lambda (k) (%s "name" (lambda (%s) (begin (@f) (k $r)))))) (%s)' % (proc, 'p' * arity, arg))
            for i, f in enumerate(forms):
                add('files', '%s %d of %s' % (proc, i, imp), f, proc, imports=imp, lib=R4)
    add('files', 'load', '(load "name")', 'load')
    add('files', 'load in an environment', '(load "name" $e)', 'load')
    return out


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, items())
    for fam, n in (('port argument', 50), ('current port', 120), ('ranges', 30), ('opening', 14), ('closing', 22), ('files', 20), ('r4rs', 18)):
        r.need_count(fam, n)
