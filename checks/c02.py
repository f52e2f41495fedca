"""C02: the code emitted for every core form is its specified instruction sequence."""
from engine.interp import *
from engine.kernel import Kernel, tn, NS
from engine.facts import AnalysisError
from .common import where

ENV = 'meevax::syntactic_environment'
I_ = 'meevax::instruction::'


class Gen(Kernel):
    """Interprets the code generator; compilation of sub-forms stays symbolic:
    ('GEN', form, bound variables, tail?, code that follows)."""
    max_recur = 6
    top = None

    def reset(self):
        super().reset()
        self.order = []
        self.nth = 0

    # Code under construction may be completed after it was handed on: every
    # pair that is allocated is an object of its own (its serial number is the
    # fourth field), and settled() reads what the pairs finally contain.
    def make(self, t, vals, node):
        x = super().make(t, vals, node)
        if x[0] == 'cons' and len(x) == 3:
            self.nth += 1
            return x + (('#', self.nth),)
        return x

    def settled(self, t, store, open_=()):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'cons':
            if len(t) == 3:
                return ('cons', self.settled(t[1], store, open_), self.settled(t[2], store, open_))
            if t in open_:
                return ('cyclic',)
            o = open_ + (t,)
            return ('cons', self.settled(store.get(('car', t), t[1]), store, o), self.settled(store.get(('cdr', t), t[2]), store, o))
        if t[0] == 'append' and len(t) == 3:
            return self.concat(self.settled(t[1], store, open_), self.settled(t[2], store, open_))
        return tuple(self.settled(x, store, open_) for x in t)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == ENV + '::generate' and self.stack and self.top != 'generate':
            vals = [self.rv(ev(i)) for i in range(len(args))]
            vals = self.fill(fn, vals)
            t = ('GEN', vals[0], vals[1], vals[3], vals[2])
            self.order.append(('GEN', vals[0]))
            return t
        if q == ENV + '::generate' and self.top == 'generate' and len(self.stack) > 1:
            vals = self.fill(fn, [self.rv(ev(i)) for i in range(len(args))])
            return ('GEN', vals[0], vals[1], vals[3], vals[2])
        if q == ENV + '::identify':
            vals = [self.rv(ev(i)) for i in range(len(args))]
            return ('ID', vals[0], vals[1])
        if q == 'meevax::dynamic_environment::execute':
            vals = [self.rv(ev(i)) for i in range(len(args))]
            self.order.append(('RUN', vals[0]))
            return ('RUN', vals[0])
        if q == 'meevax::append' and len(args) == 2:
            a, b = self.rv(ev(0)), self.rv(ev(1))
            return self.concat(a, b)
        if q == '(indirect)' or (q is None and 'callee' in n):
            callee = self.rvn(n['callee'])
            if isinstance(callee, tuple) and callee and callee[0] == 'mem' and callee[2] in ('generate', 'expand'):
                return ('VIA', callee) + tuple(self.rv(ev(i)) for i in range(len(args)))
        return super().call_hook(n, q, fn, obj, args, ev)

    def fill(self, fn, vals):
        while len(vals) < len(fn['params']):
            p = fn['params'][len(vals)]
            vals.append(self.rv(self.ev(p['def'])))
        return vals

    def concat(self, a, b):
        """Code a followed by code b (labels of a end where b starts)."""
        if a == NULL:
            return b
        if b == NULL:
            return a
        if isinstance(a, tuple) and a:
            if a[0] == 'cons':
                c = ('cons', self.load(LV(('car', a))), self.concat(self.load(LV(('cdr', a))), b))
                if len(a) == 4:
                    self.nth += 1
                    c += (('#', self.nth),)
                return c
            if a[0] == 'GEN' and a[3] == FALSE:
                return a[:4] + (self.concat(a[4], b),)
        return ('append', a, b)

    def obj_eq(self, a, b, ne):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ID' and y[0] == 'global' and y[1] == 'g:meevax::f':
                pass
        return super().obj_eq(a, b, ne)

    def truthy(self, x):
        if isinstance(x, tuple) and x and x[0] in ('GEN', 'ID'):
            return TRUE
        return super().truthy(x)

    def decide_hook(self, term):
        if isinstance(term, tuple) and term and term[0] == 'is' and term[1] == 'absolute':
            for (t, c) in self.known.items():
                if isinstance(t, tuple) and t and t[0] == 'isalso' and t[2] == term[2] and t[1] == 'absolute' and not c:
                    return False
        if term == ('is', 'pair', D):
            return False
        if isinstance(term, tuple) and term and term[0] in ('truthy',) and term[1] == ('v', 'scopes'):
            return self.scopes
        return super().decide_hook(term)
    scopes = None


def imm(F, name):
    vals = dict((n, int(v)) for n, v in F.enums['meevax::instruction']['vals'])
    return ('imm', 'instruction', ('enum', I_ + name, vals[name]))


UNSPECIFIED = ('global', 'g:meevax::unspecified')


class Spec:
    """Builds expected code."""

    def __init__(self, F):
        self.F = F

    def seq(self, *xs):
        """instruction/operand..., continuation"""
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = ('cons', imm(self.F, 'secd_' + x) if isinstance(x, str) else x, r)
        return r

    def code(self, *xs):
        return self.seq(*xs, NULL)

    def gen(self, form, bv, k, tail=False):
        return ('GEN', form, bv, TRUE if tail else FALSE, k)


def lst(*xs, end=NULL):
    r = end
    for x in reversed(xs):
        r = ('cons', x, r)
    return r


A, B, C, D, K, BV = (('v', x) for x in ('A', 'B', 'C', 'D', 'k', 'scopes'))
RET = None


def operands(S, args, last, bv, k):
    """Operands are evaluated from the last to the first and consed up."""
    for a in args:
        k = S.gen(a, bv, S.seq('cons', k))
    return S.gen(last, bv, k)


def call(S, ops, last, bv, k, tail):
    f, rest = ops[0], ops[1:]
    c = S.gen(f, bv, S.code('tail_call') if tail else S.seq('call', k))
    return operands(S, rest, last, bv, c)


def body(S, forms, bv):
    k = S.code('return')
    r = None
    for i, x in enumerate(reversed(forms)):
        r = S.gen(x, bv, k, True) if i == 0 else S.gen(x, bv, S.seq('drop', r))
    return r


def lam(S, formals, forms, bv, k):
    return S.seq('load_closure', body(S, forms, ('cons', formals, bv)), k)


def table(S):
    """form name -> [(label, operands of the form, bv is toplevel, tail -> {case: expected})]"""
    ret = S.code('return')

    def k_(tail):
        return ret if tail else K
    T = {}
    T['quote'] = [('datum', lst(A), lambda t: {('closure', A): S.seq('load_constant', ('mem', ('as', 'syntactic_closure', A), 'form'), k_(t)), None: S.seq('load_constant', A, k_(t))})]
    T['quote-syntax'] = [('datum', lst(A), lambda t: {None: S.seq('load_constant', A, k_(t))})]
    T['if'] = []

    def if_(alt):
        def go(t):
            if t:
                els = S.gen(C, BV, ret, True) if alt else S.code('load_constant', UNSPECIFIED, 'return')
                return {None: S.gen(A, BV, S.code('tail_select', S.gen(B, BV, ret, True), els))}
            els = S.gen(C, BV, S.code('join')) if alt else S.code('load_constant', UNSPECIFIED, 'join')
            return {None: S.gen(A, BV, S.seq('select', S.gen(B, BV, S.code('join')), els, K))}
        return go
    T['if'] = [('two-armed', lst(A, B, C), if_(True)), ('one-armed', lst(A, B), if_(False))]
    T['lambda'] = [('body of %d' % n, ('cons', A, lst(*[B, C, D][:n])), lambda t, n=n: {None: lam(S, A, [B, C, D][:n], BV, k_(t))}) for n in (1, 2, 3)]

    def seq_(xs):
        def go(t):
            r = S.gen(xs[-1], BV, k_(t), t)
            for x in reversed(xs[:-1]):
                r = S.gen(x, BV, S.seq('drop', r))
            return {None: r}
        return go
    T['begin'] = [('of %d' % n, lst(*[A, B, C][:n]), seq_([A, B, C][:n])) for n in (1, 2, 3)]
    id_ = ('ID', A, BV)
    T['set!'] = [('assignment', lst(A, B), lambda t: {('relative', id_): S.gen(B, BV, S.seq('store_relative', id_, k_(t))),
                                                     ('variadic', id_): S.gen(B, BV, S.seq('store_variadic', id_, k_(t))),
                                                     None: S.gen(B, BV, S.seq('store_absolute', id_, k_(t)))})]
    T['define'] = [('with value', lst(A, B), lambda t: {'nested': 'error', None: S.gen(B, BV, S.seq('store_absolute', id_, k_(t)))}),
                   ('without value', lst(A), lambda t: {'nested': 'error', None: S.gen(UNSPECIFIED, BV, S.seq('store_absolute', id_, k_(t)))})]

    def letrec(n):
        vs = [('v', 'x%d' % i) for i in range(n)]
        es = [('v', 'e%d' % i) for i in range(n)]
        formals = lst(*vs)
        form = ('cons', lst(*[lst(v, e) for v, e in zip(vs, es)]), lst(B, C))

        def go(t):
            ext = ('cons', formals, BV)
            k = S.code('tail_letrec') if t else S.seq('letrec', K)
            k = lam(S, formals, [B, C], BV, k)
            return {None: S.seq('dummy', operands(S, es, NULL, ext, k))}
        return ('%d bindings' % n, form, go)
    T['letrec'] = [letrec(n) for n in (0, 1, 2)]
    T['define-syntax'] = [('keyword', lst(A, B), lambda t: {None: S.seq('load_constant', UNSPECIFIED, k_(t))})]
    T['current'] = [('register', lst(A), lambda t: {None: S.seq('current', A, k_(t))})]
    T['install'] = [('register', lst(A, B), lambda t: {None: S.gen(B, BV, S.seq('install', A, k_(t)))})]
    return T


def core_table(F):
    """name -> (expander function, generator function) of the core forms."""
    fs = F.by_q.get('meevax::core_syntactic_environment', [])
    if len(fs) != 1:
        raise AnalysisError('the table of core forms was not found')

    class T(Kernel):
        max_recur = 40

        def __init__(self, F):
            super().__init__(F)
            self.found = {}

        def call_hook(self, n, q, fn, obj, args, ev):
            if q == 'meevax::make' and tn((n.get('ta') or ['?'])[0]) == 'syntax':
                vals = [self.rv(ev(i)) for i in range(len(args))]
                nm = vals[0]
                while isinstance(nm, tuple) and nm and nm[0] == 'make':
                    nm = nm[2]
                self.found.setdefault(nm, []).append(tuple(vals[1:]))
                return ('make', 'syntax') + tuple(vals)
            return super().call_hook(n, q, fn, obj, args, ev)

        def may_inline(self, f, depth):
            return depth == 0 or 'lambda' in f or f['q'].startswith('meevax::cons') or 'pair.hpp' in f['file'] or 'list.hpp' in f['file']
    t = T(F)
    ps = t.explore(lambda: t.call_fn(fs[0], None, []))
    out = {}
    for nm, vs in t.found.items():
        v = vs[0]
        if nm[0] == 'str' and len(v) == 2:
            out[nm[1]] = tuple(x[1] if isinstance(x, tuple) and x and x[0] == 'fn' else None for x in v)
    return out, ps


def explore_orders(g, thunk):
    """Paths for left-to-right and right-to-left evaluation of C++ call arguments."""
    res = []
    for rtl in (False, True):
        g.rtl = rtl

        def go():
            p = g.path
            try:
                return g.settled(g.rv(thunk()), g.store)
            finally:
                p.order = list(g.order)
                p.settled = {k: g.settled(v, g.store) for k, v in g.store.items() if k[0] == 'cdr' and len(k[1]) < 4}
        for p in g.explore(go):
            res.append((rtl, p))
    g.rtl = False
    return res


def case_of(p, cases):
    for key in cases:
        if isinstance(key, tuple):
            t = ('is', 'syntactic_closure' if key[0] == 'closure' else key[0], key[1])
            for c, v, _ in p.conds:
                if c == t and v:
                    return key
    return None


def uncond(t):
    return t


def check(r, F):
    r.rule('for every core form, operand shape and tail context the emitted code equals, as a term over the code of its sub-forms, the specified instruction sequence; operands of every instruction match what its handler consumes')
    S = Spec(F)
    T = table(S)
    core, _ = core_table(F)
    for name in list(T) + ['call-with-current-continuation!', 'include', 'let-syntax', 'letrec-syntax', 'conditional-expand', 'include-case-insensitive']:
        r.need(name in core, 'core form %s is not in the table of core forms (%s)' % (name, sorted(core)))
    n_paths = 0
    for name, shapes in sorted(T.items()):
        fn = F.fns.get(core[name][1] or '')
        r.need(fn is not None, 'generator of %s not resolved' % name)
        for label, form, want in shapes:
            for tail in (False, True):
                g = Gen(F)
                k = S.code('return') if tail else K
                args = [LV(('v', 'gen')), form, BV, k, I(int(tail))]
                for nested in (False, True):
                    if name not in ('define', 'define-syntax') and nested:
                        continue
                    g.scopes = nested if name == 'define' else None
                    cases = want(tail)
                    seen = set()
                    for rtl, p in explore_orders(g, lambda: g.call_fn(fn, None, args)):
                        n_paths += 1
                        inst = '%s/%s/%s%s' % (name, label, 'tail' if tail else 'nontail', '/nested' if nested else '')
                        c = 'nested' if name == 'define' and nested else case_of(p, cases)
                        exp = cases.get(c, cases[None])
                        seen.add(c)
                        if exp == 'error':
                            r.check(p.outcome[0] == 'throw', 'emitted', inst, where(fn), 'a definition inside a procedure body position must be rejected')
                            continue
                        got = p.outcome[1] if p.outcome[0] == 'return' else p.outcome[:2]
                        r.check(got == exp, 'emitted', inst + (':%s' % c[0] if c else ''), where(fn), '(%s ...) must compile to\n  %s\nbut compiles to\n  %s' % (name, show(exp), show(got)))
                        if name == 'begin':
                            order = [x[1] for x in p.order]
                            r.check(order == sorted(order, key=repr), 'order', inst, where(fn), 'the forms of a sequence must be compiled first to last (definitions take effect for the rest): compiled in order %s when C++ evaluates arguments %s' % ([show(x) for x in order], 'right to left' if rtl else 'left to right'))
                        if name == 'define-syntax':
                            cell = ('cdr', ('ID', A, NULL))
                            v = p.settled.get(cell)
                            okk = isinstance(v, tuple) and v[:2] == ('make', 'transformer') and v[2] == ('RUN', S.gen(B, BV, S.code('stop'))) and isinstance(v[3], tuple) and v[3][:3] == ('make', 'syntactic_environment', BV)
                            r.check(okk, 'transformer', inst, where(fn), 'define-syntax must bind the keyword to a transformer made from the evaluated specification and the environment of the definition; the binding is %s' % (show(v) if v else None))
                    for c in cases:
                        if c not in ('nested',) and not (name == 'define' and nested):
                            r.check(c in seen, 'covered', '%s/%s/%s:%s' % (name, label, 'tail' if tail else 'nontail', c[0] if c else 'else'), where(fn), 'case not distinguished by the generator')
    # procedure calls: the generator of last resort, reached through generate()
    gens = [f for f in F.by_q.get(ENV + '::generate', [])]
    r.need(len(gens) == 1, 'syntactic_environment::generate not found')
    fn = gens[0]
    for label, ops, last in (('no operand', [A], NULL), ('one operand', [A, B], NULL), ('two operands', [A, B, C], NULL), ('dotted operands', [A, B], D), ('only dotted', [A], D)):
        for tail in (False, True):
            g = Gen(F)
            g.top = 'generate'
            k = S.code('return') if tail else K
            form = lst(*ops, end=last)
            for rtl, p in explore_orders(g, lambda: g.call_fn(fn, LV(('v', 'gen')), [form, BV, k, I(int(tail))])):
                n_paths += 1
                inst = 'call/%s/%s' % (label, 'tail' if tail else 'nontail')
                pos = {t for t, c, _ in p.conds if c}
                ident = ('isalso', 'identifier', A) in pos
                idt = ('ID', A, BV)
                if ident and ('is', 'syntax', ('cdr', idt)) in pos and (('is', 'absolute', idt) in pos or ('isalso', 'absolute', idt) in pos):
                    want = ('VIA', ('mem', ('as', 'syntax', ('cdr', idt)), 'generate'), ('v', 'gen'), lst(*ops[1:], end=last), BV, k, I(int(tail)))
                    got = p.outcome[1] if p.outcome[0] == 'return' else p.outcome
                    r.check(got == want, 'dispatch', inst + '/syntax', where(fn), 'a form headed by a core keyword must be compiled by that keyword\'s generator with the form\'s operands, scopes, continuation and tail position; got %s' % show(got))
                    continue
                exp = call(S, ops, last, BV, k, tail)
                got = p.outcome[1] if p.outcome[0] == 'return' else p.outcome
                r.check(got == exp, 'emitted', inst, where(fn), 'a procedure call must compile to\n  %s\nbut compiles to\n  %s' % (show(exp), show(got)))
    # atoms
    for tail in (False, True):
        g = Gen(F)
        g.top = 'generate'
        k = S.code('return') if tail else K
        idt = ('ID', A, BV)
        seen = set()
        for rtl, p in explore_orders(g, lambda: g.call_fn(fn, LV(('v', 'gen')), [A, BV, k, I(int(tail))])):
            n_paths += 1
            pos = {t for t, c, _ in p.conds if c}
            if ('is', 'pair', A) in pos:
                continue
            if ('isalso', 'identifier', A) in pos:
                kind = 'relative' if ('is', 'relative', idt) in pos else 'variadic' if ('is', 'variadic', idt) in pos else 'absolute'
                exp = S.seq('load_' + kind, idt, k)
            else:
                kind = 'constant'
                exp = S.seq('load_constant', A, k)
            seen.add(kind)
            got = p.outcome[1] if p.outcome[0] == 'return' else p.outcome
            r.check(got == exp, 'emitted', 'atom/%s/%s' % (kind, 'tail' if tail else 'nontail'), where(fn), 'a %s reference must compile to %s, got %s' % (kind, show(exp), show(got)))
        r.check(seen == {'relative', 'variadic', 'absolute', 'constant'}, 'covered', 'atom/%s' % tail, where(fn), 'not every kind of reference is distinguished: %s' % sorted(seen))
    # call-with-current-continuation!: the captured code is what follows the form
    fn = F.fns.get(core['call-with-current-continuation!'][1] or '')
    r.need(fn is not None, 'generator of call-with-current-continuation! not resolved')
    for tail in (False, True):
        g = Gen(F)
        k = S.code('return') if tail else K
        for rtl, p in explore_orders(g, lambda: g.call_fn(fn, None, [LV(('v', 'gen')), lst(A), BV, k, I(int(tail))])):
            n_paths += 1
            exps = [S.seq('load_continuation', k, S.gen(A, BV, S.code('tail_call'), t)) for t in (False, True)]
            got = p.outcome[1] if p.outcome[0] == 'return' else p.outcome
            r.check(got in exps, 'emitted', 'call/cc/%s' % ('tail' if tail else 'nontail'), where(fn), 'capturing a continuation must save the code that follows the form and call the receiver in tail position; got %s' % show(got))
    r.need_count('emitted', 50)
    r.analysed = {'core forms': len(core), 'generator paths': n_paths}
