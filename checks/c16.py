"""C16: the conditional, sequencing and iteration forms."""
import itertools
from . import schemes
from .schemes import Item


def clause(kind, i):
    return {'t': '((@t%d))' % i, 'e': '((@t%d) (@e%d))' % (i, i), 'e2': '((@t%d) (@e%d) (@g%d))' % (i, i, i),
            '=>': '((@t%d) => @f%d)' % (i, i), '=>x': '((@t%d) => (@p%d))' % (i, i)}[kind]


def items():
    out = []

    def add(family, label, src, lib, name, **o):
        out.append(Item(family, label, src, lib, name, tails=True, **o))
    B, R4 = '(scheme base)', '(scheme r4rs)'
    kinds = ('t', 'e', 'e2', '=>', '=>x')
    for n in (1, 2, 3):
        for ks in itertools.product(kinds if n < 3 else ('t', 'e2', '=>'), repeat=n):
            for els in ('', '(else (@z))', '(else (@y) (@z))'):
                if n == 3 and els == '(else (@y) (@z))':
                    continue
                lab = ' '.join(ks) + (' else%d' % els.count('@') if els else '')
                add('cond', lab, '(cond %s %s)' % (' '.join(clause(k, i) for i, k in enumerate(ks)), els), R4, 'cond')
    add('cond', 'else only', '(cond (else (@y) (@z)))', R4, 'cond')
    # case
    data = ['(a)', '(a b)', '()', '(1 #\\c)', '((x) "s")', '(#t a 2)', '(100000000000000000000)', '(b 1/2)']
    bodies = ['(@e%d)', '(@g%d) (@e%d)', '=> @f%d', '=> (@p%d)']
    keys = ['(@k)', "'a", "'b", '2', '#\\c', "'(x)", '#t', '#f', "'z", '100000000000000000000', '1/2']

    def cbody(b, i):
        return b.replace('%d', str(i))
    for key in keys:
        for d in data:
            for b in bodies:
                if key != '(@k)' and b not in (bodies[0], bodies[2]):
                    continue
                for els in ('', '(else (@z))', '(else => @h)', '(else (@y) (@z))'):
                    add('case', '%s %s %s %s' % (key, d, b, els), '(case %s (%s %s) %s)' % (key, d, cbody(b, 0), els), R4, 'case')
        for d, d2 in itertools.permutations(data, 2):
            for b, b2 in itertools.product((bodies[0], bodies[2]), repeat=2):
                add('case', '%s %s %s %s %s' % (key, d, b, d2, b2), '(case %s (%s %s) (%s %s) (else (@z)))' % (key, d, cbody(b, 0), d2, cbody(b2, 1)), R4, 'case')
    # and, or, when, unless
    for op in ('and', 'or'):
        for n in range(5):
            add(op, '%d operands' % n, '(%s %s)' % (op, ' '.join('(@t%d)' % i for i in range(n))), R4, op)
        for a in ('#t', '#f', "'()", '0', '"s"'):
            add(op, 'constant %s' % a, '(%s %s (@x) (@y))' % (op, a), R4, op)
            add(op, 'constant %s last' % a, '(%s (@x) %s)' % (op, a), R4, op)
    for op in ('when', 'unless'):
        for n in (1, 2, 3):
            add(op, '%d body expressions' % n, '(%s (@t) %s)' % (op, ' '.join('(@e%d)' % i for i in range(n))), B, op)
        for a in ('#t', '#f', "'()", '0'):
            add(op, 'constant %s' % a, '(%s %s (@e))' % (op, a), B, op)
    # sequencing
    for n in (1, 2, 3):
        es = ' '.join('(@e%d)' % i for i in range(n))
        add('begin', '%d expressions' % n, '(begin %s)' % es, '(meevax core)', 'begin')
        add('begin', '%d expressions in a body' % n, '((lambda () (begin %s)))' % es, '(meevax core)', 'begin')
    # iteration
    for nv in range(4):
        for steps in itertools.product((0, 1), repeat=nv):
            for res in range(3):
                for cmds in range(3):
                    vs = ['v%d' % i for i in range(nv)]
                    arg = ' '.join(vs)
                    specs = ' '.join('(%s (@i%d)%s)' % (v, i, ' (@s%d %s)' % (i, arg) if steps[i] else '') for i, v in enumerate(vs))
                    src = '(do (%s) ((@t %s) %s) %s)' % (specs, arg, ' '.join('(@r%d %s)' % (i, arg) for i in range(res)), ' '.join('(@c%d %s)' % (i, arg) for i in range(cmds)))
                    add('do', '%d variables, steps %s, %d results, %d commands' % (nv, ''.join(map(str, steps)) or '-', res, cmds), src, R4, 'do',
                        force={'t': (3, True)}, unordered=nv > 1)
    for nv in range(4):
        vs = ' '.join('v%d' % i for i in range(nv))
        for rec in range(3):
            call = '(loop %s)' % ' '.join('(@s%d %s)' % (i, vs) for i in range(nv))
            body = {0: '(@r %s)' % vs, 1: '(if (@t %s) (@r %s) %s)' % (vs, vs, call),
                    2: '(if (@t %s) (@r %s) (begin (@c %s) (@d %s)))' % (vs, vs, vs, call)}[rec]
            add('named let', '%d variables, body %d' % (nv, rec), '(let loop (%s) %s)' % (' '.join('(v%d (@i%d))' % (i, i) for i in range(nv)), body), R4, 'let',
                force={'t': (3, True)}, unordered=nv > 1)
    add('named let', 'loop variable as value', '(let loop ((v (@i))) (list (procedure? loop) v (@u loop2)) )'.replace('(@u loop2)', '(@u v)'), R4, 'let', unordered=True)
    add('named let', 'shadowed outer name', '(define loop @outer) (let loop ((v (loop 1))) (@b v))', R4, 'let')
    return out


def check(r, F):
    schemes.common_rules(r)
    r.rule('a call in a tail position of one of these forms is made with the continuation of the form')
    its = items()
    schemes.run(r, F, its)
    for fam, n in (('cond', 90), ('case', 400), ('do', 60), ('named let', 10), ('and', 10), ('or', 10), ('when', 5), ('unless', 5)):
        r.need_count(fam, n)
