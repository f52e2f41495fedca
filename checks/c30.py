"""C30: the compiler gives every identifier the binding that its place in the
program, or in the macro that introduced it, selects."""
import itertools
import multiprocessing
import os
import re
import time
from engine.interp import *
from engine.interp import NULL
from .names import *
from .common import where

ENV = 'meevax::syntactic_environment'


class Comp(Names):
    """Interprets the compiler; a macro transformer is a template, expanded by
    renaming in the environment the transformer was made in."""
    max_paths = 8
    max_unroll = 60
    max_recur = 60
    max_depth = 900
    time_limit = 30

    def setup(self):
        super().setup()
        self.core = None
        self.nalias = 0

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'meevax::core_syntactic_environment':
            if self.core is None:
                self.core = LV(('core-environment',))
                v = self.copy_value(self.call_fn(fn, None, [], n))
                self.store[self.core.key] = v
            return self.core
        if q == 'meevax::environment::environment' or q == 'meevax::interaction_environment':
            return LV(('interaction',))
        if q == 'meevax::dynamic_environment::execute' and args:
            return self.run_spec(self.rv(ev(0)))
        if q == 'meevax::transformer::transform':
            form, use = self.rv(ev(0)), self.rv(ev(1))
            t = obj
            a = self.load(self.cell(t.key, 'car') or LV(('car', t.key)))
            e = self.load(self.cell(t.key, 'cdr') or LV(('cdr', t.key)))
            return self.expand_template(a, e, form, use)
        if q is None and 'callee' in n or q == '(indirect)':
            c = self.rvn(n['callee'])
            while isinstance(c, tuple) and c and c[0] == 'init' and len(c) == 3:
                c = self.rv(c[2])
            if isinstance(c, tuple) and c and c[0] == 'fn' and c[1] in self.F.fns:
                return self.call_fn(self.F.fns[c[1]], None, [ev(i) for i in range(len(args))], n)
        return super().call_hook(n, q, fn, obj, args, ev)

    def run_spec(self, code):
        while code != NULL:
            x = self.car_(code)
            if isinstance(x, tuple) and x and x[0] == 'imm' and x[1] == 'int':
                return self.obj('template%d' % x[2][1], 'closure')
            code = self.cdr_(code)
        raise Stop('transformer specification')

    def expand_template(self, closure, env, form, use=None):
        if not (isinstance(closure, tuple) and str(closure[1]).startswith('template')):
            raise Stop('transformer %s' % (closure,))
        t = self.templates[int(closure[1][8:])]
        ops = []
        x = self.cdr_(form)
        while x != NULL:
            ops.append(self.car_(x))
            x = self.cdr_(x)
        names = {}
        if isinstance(t, list) and t and t[0] == 'closed':
            # sc-macro-transformer: the form is closed in the definition's environment, the operands in the use's
            def close(y):
                if isinstance(y, str) and re.fullmatch(r'\$\d(:.*)?', y):
                    k, _, free = y[1:].partition(':')
                    return self.closure(use, self.datum([free] if free else []), ops[int(k)])
                if isinstance(y, list):
                    r = NULL
                    for z in reversed(y):
                        r = self.new_pair(close(z), r)
                    return r
                return self.datum(y)
            return self.closure(env, NULL, close(t[1]))

        def build(y):
            if isinstance(y, str):
                if y.startswith('%'):
                    if y not in names:
                        names[y] = self.alias(env, y[1:])
                    return names[y]
                if y.startswith('$'):
                    return ops[int(y[1:])]
                return self.sym(y)
            if isinstance(y, (list, Dot)):
                r = build(y.end) if isinstance(y, Dot) else NULL
                for z in reversed(y.items if isinstance(y, Dot) else y):
                    r = self.new_pair(build(z), r)
                return r
            return self.datum(y)
        return self.closure(use, NULL, build(t))

    def alias(self, env, name):
        return self.closure(env, NULL, self.sym(name))

    def closure(self, env, free, form):
        self.nalias += 1
        v = self.obj('closure%d' % self.nalias, 'syntactic_closure')
        b = ('as', 'syntactic_closure', v)
        self.store[('mem', b, 'syntactic_environment')] = env
        self.store[('mem', b, 'free_names')] = free
        self.store[('mem', b, 'form')] = form
        self.store[('mem', b, 'de_bruijn_level')] = I(0)
        return v

    def load(self, lv):
        # an object that is not a pair has null as its (unused) car and cdr
        key = lv.key
        if key[0] in ('car', 'cdr') and key not in self.store and self.dyntype(key[1]) in ('symbol', 'syntactic_closure'):
            return NULL
        return super().load(lv)

    # ---- reading code ----------------------------------------------------------
    def code(self, v, depth=0):
        out = []
        if depth > 40:
            raise Stop('depth')
        while v != NULL:
            x = self.car_(v)
            v = self.cdr_(v)
            if not (isinstance(x, tuple) and x[0] == 'imm' and x[1] == 'instruction'):
                raise Stop('not an instruction: %s' % (x,))
            name = x[2]
            name = name[1] if isinstance(name, tuple) and name[0] in ('int', 'enum') else name
            name = self.opname(name)
            if name in ('load_closure', 'load_continuation'):
                out.append((name, self.code(self.car_(v), depth + 1)))
                v = self.cdr_(v)
            elif name in ('select', 'tail_select'):
                a = self.car_(v)
                v = self.cdr_(v)
                b = self.car_(v)
                v = self.cdr_(v)
                out.append((name, self.code(a, depth + 1), self.code(b, depth + 1)))
            elif name in ('load_relative', 'load_variadic', 'store_relative', 'store_variadic'):
                i = self.car_(v)
                v = self.cdr_(v)
                want = 'relative' if 'relative' in name else 'variadic'
                out.append((name, self.show(self.car_(i)), self.show(self.cdr_(i)), self.dyntype(i) == want))
            elif name in ('load_absolute', 'store_absolute'):
                i = self.car_(v)
                v = self.cdr_(v)
                out.append((name, self.ident(i)))
            elif name in ('load_constant', 'current', 'install'):
                out.append((name, self.const(self.car_(v))))
                v = self.cdr_(v)
            else:
                out.append((name,))
        return out

    def opname(self, x):
        if isinstance(x, str):
            return x.rpartition('::')[2].replace('secd_', '')
        if not hasattr(Comp, 'OPS'):
            e = next(e for k, e in self.F.enums.items() if k.endswith('instruction'))
            Comp.OPS = {int(c['v']): c['n'] for c in (e['consts'] if isinstance(e, dict) else e)}
        return Comp.OPS[x].replace('secd_', '')

    def ident(self, i):
        return self.show(self.car_(self.copy_value(i)))

    def const(self, v):
        v = self.copy_value(v)
        if isinstance(v, tuple) and v and v[0] == 'global':
            return v[1].rpartition(':')[2]
        return self.show(v)


# ---- the tree an instruction list computes ---------------------------------------
class Malformed(Exception):
    pass


def seq(stmts, e):
    """Statements before a value, hoisted out of the places evaluated first."""
    out = []
    for x in list(stmts) + [e]:
        out += list(x[1]) + [x[2]] if x[0] == 'seq' else [x]
    return ('seq', tuple(out[:-1]), out[-1]) if len(out) > 1 else out[0]


def if_(t, a, b):
    return seq(t[1], ('if', t[2], a, b)) if t[0] == 'seq' else ('if', t, a, b)


def set_(loc, e):
    return seq(e[1], ('set', loc, e[2])) if e[0] == 'seq' else ('set', loc, e)


def tree(code, stack=None, ends=('return', 'stop', 'join')):
    """The expression an instruction list evaluates (its value is on top at the end)."""
    st = list(stack or [])
    base = len(st)
    pend = {}

    def pop(h=None):
        """The top; statements before it belong to it when the result goes further down."""
        if len(st) <= base - 0 and not st:
            raise Malformed('stack underflow')
        v = st.pop()
        if h is not None and len(st) != h and len(st) in pend:
            v = seq(pend.pop(len(st)), v)
        return v

    def finish(i, v):
        if i != len(code):
            raise Malformed('code after the end')
        if len(st) != base:
            raise Malformed('%d values left' % (len(st) - base))
        return seq(pend.pop(base, ()), v)
    i = 0
    while i < len(code):
        op = code[i]
        i += 1
        k = op[0]
        h = len(st)
        if k == 'load_constant':
            st.append(('const', op[1]))
        elif k == 'load_absolute':
            st.append(('global', op[1]))
        elif k in ('load_relative', 'load_variadic', 'store_relative', 'store_variadic'):
            if not op[3]:
                raise Malformed('%s of an identity of another kind' % k)
            loc = ('local', op[1], op[2], k[-8:])
            if k.startswith('load'):
                st.append(loc)
            else:
                st.append(set_(loc, pop()))
        elif k == 'store_absolute':
            st.append(set_(('global', op[1]), pop()))
        elif k == 'load_closure':
            st.append(('lambda', tree(op[1], ends=('return',))))
        elif k == 'load_continuation':
            st.append(('rest', tree(op[1], ends=ends, stack=[('hole',)]) if False else op[1]))
        elif k == 'cons':
            a = pop(h - 2)
            b = pop()
            st.append(('cons', a, b))
        elif k in ('call', 'tail_call'):
            f = pop(h - 2)
            a = pop()
            if a[0] == 'rest':
                if k != 'tail_call' or i != len(code):
                    raise Malformed('a continuation passed by %s' % k)
                st.append(('callcc', f))
                code, i = a[1], 0
                continue
            st.append(('call', f, a))
            if k == 'tail_call':
                if 'return' not in ends:
                    raise Malformed('a tail call that is not last')
                return finish(i, st.pop())
        elif k == 'dummy':
            st.append(('dummy',))
        elif k in ('letrec', 'tail_letrec'):
            f = pop(h - 3)
            a = pop(h - 3)
            if pop() != ('dummy',):
                raise Malformed('no dummy frame')
            st.append(('letrec', a, f))
            if k == 'tail_letrec':
                if 'return' not in ends:
                    raise Malformed('a tail call that is not last')
                return finish(i, st.pop())
        elif k == 'select':
            st.append(if_(pop(), tree(op[1], ends=('join',)), tree(op[2], ends=('join',))))
        elif k == 'tail_select':
            if 'return' not in ends:
                raise Malformed('a tail select that is not last')
            return finish(i, if_(pop(), tree(op[1], ends=('return',)), tree(op[2], ends=('return',))))
        elif k == 'drop':
            v = pop()
            pend.setdefault(len(st), []).append(v)
        elif k in ('return', 'stop', 'join'):
            if k not in ends:
                raise Malformed('%s where the code must end with %s' % (k, ' or '.join(ends)))
            return finish(i, pop())
        else:
            raise Malformed('instruction %s' % k)
    raise Malformed('the code does not end')


# ---- the reference ------------------------------------------------------------------
def read_all(text):
    toks = re.findall(r"[()']|[^\s()']+", text)
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "'":
            return ['quote', rd()]
        if t == '(':
            out = []
            while toks[pos] != ')':
                if toks[pos] == '.':
                    pos += 1
                    end = rd()
                    pos += 1
                    return Dot(out, end)
                out.append(rd())
            pos += 1
            return out
        return int(t) if re.fullmatch(r'-?\d+', t) else t
    out = []
    while pos < len(toks):
        out.append(rd())
    return out


def text(x):
    if isinstance(x, Dot):
        return '(%s . %s)' % (' '.join(map(text, x.items)), text(x.end))
    if isinstance(x, list):
        return '(%s)' % ' '.join(map(text, x))
    return str(x)


UNSPECIFIED = ('const', 'unspecified')
KEYWORDS = ('begin', 'if', 'lambda', 'letrec', 'quote', 'set!', 'define', 'call-with-current-continuation!', 'body')


class Ref:
    """Compiles a program in which no name is a macro's: lexical scoping, one frame
    per procedure, internal definitions as assignments in order in a frame of their own."""

    def lookup(self, x, env):
        for i, (names, rest) in enumerate(env):
            if x in names:
                return ('local', str(i), str(names.index(x)), 'relative')
            if x == rest:
                return ('local', str(i), str(len(names)), 'variadic')
        return ('global', x)

    def c(self, x, env):
        if isinstance(x, int):
            return ('const', str(x))
        if isinstance(x, str):
            return self.lookup(x, env)
        h = x[0] if isinstance(x, list) and x else None
        if isinstance(h, str) and h in KEYWORDS and self.lookup(h, env)[0] == 'global':
            return getattr(self, 'k_' + re.sub(r'\W.*', '', h))(x, env)
        f = self.c(h, env)
        return ('call', f, self.args(x[1:], env))

    def args(self, xs, env):
        r = ('const', '()')
        for y in reversed(xs):
            r = ('cons', self.c(y, env), r)
        return r

    def frame(self, formals):
        if isinstance(formals, Dot):
            return (list(formals.items), formals.end)
        if isinstance(formals, list):
            return (list(formals), None)
        return ([], formals)

    def k_lambda(self, x, env):
        return ('lambda', self.body(x[2:], [self.frame(x[1])] + env))

    def defined(self, xs, env):
        """[(variable, expression)] and the rest, begin spliced."""
        xs = list(xs)
        defs = []
        while xs and isinstance(xs[0], list) and xs[0] and isinstance(xs[0][0], str):
            h = xs[0][0]
            if self.lookup(h, env)[0] != 'global':
                break
            if h == 'begin':
                xs[:1] = xs[0][1:]
            elif h == 'define':
                d = xs.pop(0)
                if isinstance(d[1], list):
                    defs.append((d[1][0], ['lambda', d[1][1:]] + d[2:]))
                elif isinstance(d[1], Dot):
                    rest = d[1].items[1:]
                    defs.append((d[1].items[0], ['lambda', Dot(rest, d[1].end) if rest else d[1].end] + d[2:]))
                else:
                    defs.append((d[1], d[2]))
            elif h == 'slot':      # the place of a macro in the frame
                defs.append((xs.pop(0)[1], None))
            else:
                break
        return defs, xs

    def body(self, xs, env):
        defs, rest = self.defined(xs, env)
        if defs:
            inner = [([d[0] for d in defs], None)] + env
            stm = [set_(self.lookup(v, inner), self.c(e, inner)) for v, e in defs if e is not None]
            r = ('const', '()')
            for d in defs:
                r = ('cons', ('const', '()'), r)
            return ('call', ('lambda', self.seqs(rest, inner, stm)), r)
        return self.seqs(rest, env)

    def seqs(self, xs, env, stm=()):
        ys = list(stm) + [self.c(y, env) for y in xs]
        if not ys:
            return UNSPECIFIED
        return seq(ys[:-1], ys[-1])

    def k_begin(self, x, env):
        return self.seqs(x[1:], env)

    def k_if(self, x, env):
        return if_(*[self.c(y, env) for y in x[1:]], *([UNSPECIFIED] if len(x) == 3 else []))

    def k_quote(self, x, env):
        return ('const', text(x[1]))

    def k_set(self, x, env):
        return set_(self.lookup(x[1], env), self.c(x[2], env))

    def k_define(self, x, env):
        (v, e), = self.defined([x], env)[0]
        return set_(('global', v), self.c(e, env))

    def k_call(self, x, env):
        return ('callcc', self.c(x[1], env))

    def k_letrec(self, x, env):
        inner = [([b[0] for b in x[1]], None)] + env
        return ('letrec', self.args([b[1] for b in x[1]], inner), ('lambda', self.body(x[2:], inner)))


# ---- judging --------------------------------------------------------------------------
GLOBALS = ['f', 'g', 'h', 'x', 'y', 'z', 'tmp', 'list', 'other']


class Item:
    def __init__(self, family, label, src, ref=None, templates=(), fn='compile'):
        self.family, self.label, self.src, self.ref, self.templates, self.fn = family, label, src, ref or src, templates, fn


def compiled(F, item):
    """The outcomes of compiling every form of the program in turn in one environment."""
    comp = [f for f in F.by_q[ENV + '::compile'] if f.get('body')]
    coref = [f for f in F.by_q['meevax::core_syntactic_environment'] if f.get('body')]
    if len(comp) != 1 or len(coref) != 1:
        raise Malformed('no compiler')

    def go(k):
        k.templates = [read_all(t)[0] for t in item.templates]
        k.core = LV(('core-environment',))
        k.store[k.core.key] = k.copy_value(k.call_fn(coref[0], None, []))
        e = k.obj('top', 'syntactic_environment')
        k.store[('car', e)] = NULL
        r = k.load(LV(('cdr', k.store[k.core.key])))
        for g in GLOBALS:
            r = k.new_pair(k.identity(g, k.obj('val:' + g, 'procedure')), r)
        k.store[('cdr', e)] = r
        out = []
        for n, form in enumerate(read_all(item.src)):
            a = LV(('arg', 'form%d' % n))
            k.store[a.key] = k.datum(form)
            out.append(k.code(k.copy_value(k.call_fn(comp[0], LV(('as', 'syntactic_environment', e)), [a]))))
        return out
    return explore(F, go, Comp)[1]


def judge(i):
    F, items = _state['F'], _state['items']
    it = items[i]
    if time.time() > _state['deadline']:
        return 'skip', 'time bound'
    want = [Ref().c(x, []) if not (isinstance(x, list) and x and x[0] == 'slot') else UNSPECIFIED for x in read_all(it.ref)]
    try:
        outs = compiled(F, it)
    except RecursionError:
        return 'skip', 'recursion'
    except Exception as x:      # a defect of the analyser is never an alarm
        return 'skip', 'analyser: %s: %s' % (type(x).__name__, x)
    for o in outs:
        if o.kind == 'stop':
            return 'skip', o.why or 'stop'
    for o in outs:
        if o.kind == 'throw':
            return 'bad', 'the compiler raises an error (%s)' % o.type
        try:
            got = [tree(c) for c in o.value]
        except Malformed as x:
            return 'bad', 'the code is malformed: %s\n%s' % (x, o.value)
        for a, b in zip(got, want):
            if a != b:
                return 'bad', 'the code computes %s\nthe program means    %s' % (render(a), render(b))
    return 'ok', ''


def render(t):
    k = t[0]
    if k in ('const', 'global'):
        return t[1] if k == 'global' else "'" + t[1]
    if k == 'local':
        return '<%s,%s%s>' % (t[1], t[2], '' if t[3] == 'relative' else '...')
    if k == 'lambda':
        return '(lambda %s)' % render(t[1])
    if k == 'seq':
        return '(begin %s)' % ' '.join(render(x) for x in list(t[1]) + [t[2]])
    if k == 'set':
        return '(set! %s %s)' % (render(t[1]), render(t[2]))
    if k == 'cons' or k == 'call':
        return '(%s . %s)' % (render(t[1]), render(t[2]))
    return '(%s)' % ' '.join([k] + [render(x) for x in t[1:]])


_state = {}


def run(r, F, items, jobs=8, budget=600):
    w = where(next(f for f in F.by_q[ENV + '::compile'] if f.get('body')))
    _state.update(F=F, items=items, deadline=time.time() + budget)
    n = min(jobs, os.cpu_count() or 1)
    if n > 1 and len(items) > 4:
        with multiprocessing.get_context('fork').Pool(n) as p:
            res = p.map(judge, range(len(items)), chunksize=1)
    else:
        res = [judge(i) for i in range(len(items))]
    for it, (what, t) in zip(items, res):
        if what == 'ok':
            r.ok(it.family, it.label, w)
        elif what == 'bad':
            r.bad(it.family, it.label, w, '%s%s\n%s' % (it.src, ''.join('\n  (T %d) = %s' % x for x in enumerate(it.templates)), t))
        else:
            r.skip(it.family, it.label, w, t)
    r.analysed['programs compiled'] = len(items)


def items():
    out = []
    add = lambda *a, **k: out.append(Item(*a, **k))
    # variables of nested procedures
    shapes = ['(a)', '(a b)', '(b . a)', 'a', '()', '(b a . c)']
    for p, q in itertools.product(shapes, repeat=2):
        add('variables', '%s %s' % (p, q), '(lambda %s (f a b c) (lambda %s (set! a b) (set! b 1) (f a b c)))' % (p, q))
    for p, q, s in itertools.product(['(a)', '(b . a)', 'c'], ['(b)', 'a', '(c a)'], ['(a b)', '(a . c)', '()', 'b']):
        add('variables', '%s %s %s' % (p, q, s), '(lambda %s (lambda %s (lambda %s (set! c a) (f a b c))))' % (p, q, s))
    for kw in ('if', 'lambda', 'quote', 'set!', 'begin', 'letrec', 'define', 'let-syntax', 'define-syntax'):
        for p in ('(%s)', '%s', '(a . %s)'):
            add('keywords as variables', '%s %s' % (kw, p), '(lambda %s (%s a 1 2) (f %s))' % (p % kw, kw, kw))
        add('keywords as variables', '%s of two procedures' % kw, '(lambda (%s) (lambda (%s) (f (%s a b 1) %s)))' % (kw, kw, kw, kw))
        add('keywords as variables', '%s bound by letrec' % kw, '(letrec ((%s f)) (letrec ((%s (lambda (a) (%s a 1)))) (%s 1 2)))' % (kw, kw, kw, kw))
        add('keywords as variables', '%s of a procedure around' % kw, '(lambda (%s) (lambda (b) (f (%s a b))))' % (kw, kw))
    for t in ('(f (if a b c) (if a b))', '(if (if a b c) (f a) (f b))', "(f '(a b) 'c '())", '(begin (f a) (f b) (lambda () (f c)))', '(f (begin (set! x 1) x) (begin (g) (h)))', '(begin)', '(lambda ())',
              '(if (begin (f) (g)) 1 2)', '(set! x (if a 1 2))', '((lambda (a) (f a)) (g a))', '((f a) (g b))', '(define x (lambda () x))', '(define (x a . b) (x a b))', '(define (x . a) (f x a))', '(define x (f x))',
              "(lambda () (if (f) (g) (h)))", '(lambda () (if (f) (if (g) 1 (h)) (begin (f) (g))))', '(lambda () (begin (f) (if x 1)))', "((if x f g) 1)"):
        add('expressions', t, t)
    for ctx in ('%s', '(f %s)', '(lambda (k) %s)', '(lambda (k) (f %s) 1)', '(if %s 1 2)', '(lambda () (if %s 1 2))', '(lambda () (if x %s 2))', '(begin %s (g))'):
        for op in ('f', '(g)', '(lambda (k) (k 1))', '(if x f g)', '(lambda k (f k))'):
            t = ctx % ('(call-with-current-continuation! %s)' % op)
            add('continuations', t, t)
    for ctx in ('%s', '(f %s)', '(lambda (z) %s)', '(lambda z (f %s) 1)'):
        for t in ('(letrec ((a (lambda () (b))) (b (lambda (x) (a x)))) (f a b))', '(letrec ((a 1)) a)', '(letrec ((x (lambda x (f x z)))) (define y (x)) (y x))', '(letrec () (f z))', '(letrec ((z (lambda (y) (z y)))) (z 1) (z 2))'):
            add('letrec', ctx % t, ctx % t)
    for p in ('(a)', 'a', '(b . a)', '()'):
        for b in ('(define y 3) (f a y)', '(define (y) (a y)) (define (h2 b) (y)) (f y h2)', '(begin (define y a) (define (z2 . w) (y w))) (z2 y b)', '(define a 1) (f a b)', '(define y (lambda (a) (define y a) (f y b))) (y a)', '(begin) (define y a) (begin (f y) (g)) y',
                  '(define x 1) (set! x a) (set! a x) (lambda () (define a x) (f a))', '(define (f a) (f a)) (f b)', '(define (y . b) (f a b)) (define b y) (set! b 1) b', '(f a) (begin (g) (h)) b', '(define y 1) (lambda (y) (f y a))', '(define a b)'):
            add('internal definitions', '%s %s' % (p, b), '(lambda %s %s)' % (p, b))
    out += macros()
    return out


# macro: name -> (template, expansion with %name for what the macro inserts, its own binders)
MACROS = {
    'binds a variable': ('((%lambda (%tmp) (%g %tmp $0)) $1)', '((%lambda (tmp1) (%g tmp1 $0)) $1)'),
    'binds a rest variable': ('((%lambda %tmp (%g %tmp $0)) $1)', '((%lambda tmp1 (%g tmp1 $0)) $1)'),
    'binds and assigns': ('((%lambda (%x %tmp) (%set! %tmp $0) (%set! %x %tmp) (%g %tmp %x)) $1 $0)', '((%lambda (x1 tmp1) (%set! tmp1 $0) (%set! x1 tmp1) (%g tmp1 x1)) $1 $0)'),
    'refers to a free variable': ('(%if (%g $0) (%x $1) %tmp)', '(%if (%g $0) (%x $1) %tmp)'),
    'assigns a free variable': ('(%set! %x (%g $0 $1))', '(%set! %x (%g $0 $1))'),
    'assigns its operand': ('(%set! $0 (%g $1 %tmp))', '(%set! $0 (%g $1 %tmp))'),
    'nests procedures': ('(%lambda (%tmp) (%lambda (%x . %tmp) (%g %tmp %x $0)) (%g %tmp $1))', '(%lambda (tmp1) (%lambda (x2 . tmp2) (%g tmp2 x2 $0)) (%g tmp1 $1))'),
    'binds by letrec': ('(%letrec ((%tmp (%lambda (%x) (%tmp %x $0)))) (%g %tmp $1))', '(%letrec ((tmp1 (%lambda (x1) (tmp1 x1 $0)))) (%g tmp1 $1))'),
    'defines inside': ('(%lambda () (%define %tmp $0) (%define (%x . %y) (%g %tmp %y $1)) (%x %tmp))', '(%lambda () (%define tmp1 $0) (%define (x1 . y1) (%g tmp1 y1 $1)) (x1 tmp1))'),
    'nests uses': ('(%m2 (%m2 $0 %x) ((%lambda (%x) (%m2 %x $1)) $0))', '(%if (%if $0 tmpA) 0)'),
    'catches a continuation': ('(%call-with-current-continuation! (%lambda (%tmp) (%tmp $0 $1 %x)))', '(%call-with-current-continuation! (%lambda (tmp1) (tmp1 $0 $1 %x)))'),
}
USER = ['tmp', 'g', 'x', 'if', 'lambda', 'set!', 'list', 'm2', 'letrec', 'define', 'quote', 'begin', 'call-with-current-continuation!']


def fill(template, names, operands):
    t = re.sub(r'%([^\s()]+)', lambda m: names.get(m.group(1), m.group(1)), template)
    return re.sub(r'\$(\d)', lambda m: operands[int(m.group(1))], t)


def macros():
    out = []
    add = lambda *a, **k: out.append(Item(*a, **k))
    for name, (t, want) in MACROS.items():
        if name == 'nests uses':
            continue
        for v in USER:
            # how the user's program binds v
            for bname, user, ref in (('a variable', '(lambda (%s) @)' % v, '(lambda (own) @)'), ('a rest variable', '(lambda %s @)' % v, '(lambda own @)')):
                ops, rops = [v, '(h %s)' % v], ['own', '(h own)']
                e = fill(want, {}, rops)
                if bname == 'a variable' or v in ('tmp', 'g', 'x', 'if'):
                    add('global macros', '%s, %s %s' % (name, bname, v), '(define-syntax m (T 0)) ' + user.replace('@', '(m %s %s)' % tuple(ops)),
                        "'unspecified " + ref.replace('@', e), [t])
                if v in ('tmp', 'g', 'x', 'if', 'lambda') and bname == 'a variable':
                    for form in ('let-syntax', 'letrec-syntax'):
                        add('local macros', '%s by %s, %s %s' % (name, form, bname, v), '(%s ((m (T 0))) %s)' % (form, user.replace('@', '(m %s %s)' % tuple(ops))),
                            "((lambda (m) %s))" % ref.replace('@', e), [t])
                        if v == 'lambda':
                            continue
                        # the definition sees the user's variable
                        inner = fill(want, {v: 'own'}, rops)
                        add('local macros', '%s by %s inside of %s %s' % (name, form, bname, v), user.replace('@', '(%s ((m (T 0))) (m %s %s))' % (form, ops[0], ops[1])),
                            ref.replace('@', "((lambda (m) %s))" % inner), [t])
                        # ... and the use a second one of the same name
                        add('local macros', '%s by %s between two %s' % (name, form, v), user.replace('@', '(%s ((m (T 0))) (lambda (%s) (m %s %s)))' % (form, v, ops[0], ops[1])),
                            ref.replace('@', "((lambda (m) (lambda (own2) %s)))" % fill(want, {v: 'own'}, ['own2', '(h own2)'])), [t])
            if v in ('tmp', 'g', 'x', 'if'):
                # internal definitions
                inner = fill(want, {v: 'own'}, ['own', '(h own)'])
                add('internal macros', '%s, variable %s around' % (name, v), '(lambda (%s) (define-syntax m (T 0)) (m %s (h %s)))' % (v, v, v), '(lambda (own) (slot m) %s)' % inner, [t])
                add('internal macros', '%s, variable %s defined after it' % (name, v), '(lambda () (define-syntax m (T 0)) (define %s 1) (m %s (h %s)))' % (v, v, v), '(lambda () (slot m) (define own 1) %s)' % inner, [t])
                add('internal macros', '%s, variable %s defined before it' % (name, v), '(lambda () (define %s 1) (define-syntax m (T 0)) (m %s (h %s)))' % (v, v, v), '(lambda () (define own 1) (slot m) %s)' % inner, [t])
                add('internal macros', '%s, variable %s in a procedure inside' % (name, v), '(lambda () (define-syntax m (T 0)) (lambda (%s) (m %s (h %s))))' % (v, v, v), '(lambda () (slot m) (lambda (own) %s))' % fill(want, {}, ['own', '(h own)']), [t])
                if name == 'assigns its operand':
                    continue
                # the user's letrec and internal definitions
                add('global macros', '%s, letrec %s' % (name, v), '(define-syntax m (T 0)) (letrec ((%s (lambda () (m %s 1)))) (m 2 %s))' % (v, v, v), "'unspecified (letrec ((own (lambda () %s))) %s)" % (fill(want, {}, ['own', '1']), fill(want, {}, ['2', 'own'])), [t])
                add('global macros', '%s, internal definition of %s' % (name, v), '(define-syntax m (T 0)) (lambda () (define %s 1) (m %s (h %s)))' % (v, v, v), "'unspecified (lambda () (define own 1) %s)" % fill(want, {}, ['own', '(h own)']), [t])
                # a use inside a use; a use as an operand of another
                e1 = fill(want, {}, ['own', '1'])
                want2 = re.sub(r'\b([a-z]+)([12])\b(?=[\s().])', r'\g<1>\g<2>n', want)
                add('nested uses', '%s, variable %s' % (name, v), '(define-syntax m (T 0)) (lambda (%s) (m %s (m %s 1)))' % (v, v, v), "'unspecified (lambda (own) %s)" % fill(want2, {}, ['own', e1]), [t])
                add('nested uses', '%s, variable %s, under a binding' % (name, v), '(define-syntax m (T 0)) (lambda (%s) (m %s (lambda (%s) (m %s 1))))' % (v, v, v, v),
                    "'unspecified (lambda (own) %s)" % fill(want2, {}, ['own', '(lambda (own3) %s)' % fill(want, {}, ['own3', '1'])]), [t])
    out += more_macros()
    return out


def more_macros():
    out = []
    add = lambda *a, **k: out.append(Item(*a, **k))
    D = '(define-syntax m (T 0)) '
    U = "'unspecified "
    # a local variable hides a macro, a macro hides a variable or another macro
    for v, ref in (('(lambda (m) (m 1 2))', '(lambda (m) (m 1 2))'), ('(lambda m (f m) (m 1))', '(lambda m (f m) (m 1))'), ('(lambda () (define (m a b) (f a)) (m 1 2))', '(lambda () (define (m a b) (f a)) (m 1 2))'),
                   ('(letrec ((m f)) (m 1 2))', '(letrec ((m f)) (m 1 2))'), ('(lambda (a) (m 1 a) (lambda (m) (m 1 a)))', '(lambda (a) (g 1 a) (lambda (m) (m 1 a)))'),
                   ('(let-syntax ((m (T 1))) (m 1 2))', '((lambda (m) (h 2)))'), ('(let-syntax ((n (T 2))) (n 1))', '((lambda (n) (g 1 x)))'), ('(lambda () (define-syntax m (T 1)) (m 1 2))', '(lambda () (slot m) (h 2))'),
                   ('(let-syntax ((n (T 2))) (lambda (m) (n m)))', '((lambda (n) (lambda (m) (g m x))))'), ('(let-syntax ((n (T 2))) (let-syntax ((m (T 1))) (n 1)))', '((lambda (n) ((lambda (m) (g 1 x)))))'),
                   ('(let-syntax ((f (T 1))) (f 1 2))', '((lambda (f) (h 2)))'), ('(lambda (f) (let-syntax ((f (T 1))) (f f f)))', None), ('(letrec-syntax ((f (T 1)) (n (T 3))) (n 7))', '((lambda (f n) (h 7)))'), ('(let-syntax ((f (T 1)) (n (T 3))) (n 7))', '((lambda (f1 n) (f 1 7)))'),
                   ('(letrec-syntax ((f (T 1))) (lambda (h) (f 1 h)))', '((lambda (f) (lambda (own) (h own))))'), ('(lambda () (define-syntax f (T 1)) (define-syntax n (T 3)) (n 7))', '(lambda () (slot f) (slot n) (h 7))'),
                   ('(lambda () (define-syntax n (T 3)) (define-syntax f (T 1)) (n 7))', '(lambda () (slot n) (slot f) (h 7))'), ('(lambda () (define-syntax n (T 3)) (define (f . a) (g a)) (n 7))', '(lambda () (slot n) (define (f . a) (g a)) (f 1 7))'),
                   ('(set! m 1)', None), ('(let-syntax () (f x))', '((lambda () (f x)))'), ('(let-syntax ((n (T 2))) (define y (n 1)) (f y))', '((lambda (n) (define y (g 1 x)) (f y)))')):
        if ref:
            add('hidden macros', v, D + v, U + ref, ['(%g $0 $1)', '(%h $1)', '(%m $0 %x)', '(%f 1 $0)'])
    # expansions into definitions
    for v in ('tmp', 'x', 'g', 'y'):
        add('macros that define', 'an internal variable %s' % v, D + '(lambda (a) (m %s a) (f %s a))' % (v, v), U + '(lambda (a) (define own a) (f own a))', ['(%define $0 $1)'])
        add('macros that define', 'an internal procedure %s' % v, D + '(lambda (a) (m %s a) (f %s a))' % (v, v), U + '(lambda (a) (define (own . b) (g own b a)) (f own a))', ['(%define ($0 . %b) (%g $0 %b $1))'] if v != 'g' else ['(%define ($0 . %b) (%g %g %b $1))'][:0] or ['(%define ($0 . %b) (%list $0 %b $1))'])
        out[-1].ref = out[-1].ref if v != 'g' else U + '(lambda (a) (define (own . b) (list own b a)) (f own a))'
        add('macros that define', 'two, %s and its own' % v, D + '(lambda (a) (m %s a) (f %s a))' % (v, v), U + '(lambda (a) (define t1 a) (define (own) (h t1)) (f own a))', ['(%begin (%define %tmp $1) (%define ($0) (%h %tmp)))'])
        add('macros that define', 'its own twice, %s' % v, D + '(lambda (a) (m %s a) (m z 2) (f %s z a))' % (v, v), U + '(lambda (a) (define t1 a) (define (own) (h t1)) (define t2 2) (define (z) (h t2)) (f own z a))', ['(%begin (%define %tmp $1) (%define ($0) (%h %tmp)))'])
        add('macros that define', 'its own next to the variable %s' % v, D + '(lambda (a) (define %s 1) (m b a) (f b %s a))' % (v, v), U + '(lambda (a) (define own 1) (define t1 a) (define (b) (h t1)) (f b own a))', ['(%begin (%define %tmp $1) (%define ($0) (%h %tmp)))'])
        add('macros that define', 'a global %s' % v, D + '(m %s (f a)) %s' % (v, v), U + '(define %s (f a)) %s' % (v, v), ['(%define $0 $1)'])
        add('macros that define', 'a global procedure %s' % v, D + '(m %s a) (f %s)' % (v, v), U + '(define (%s) (list a)) (f %s)' % (v, v), ['(%define ($0) (%list $1))'])
        add('macros that define', 'a macro for %s' % v, D + '(lambda (%s) (m n %s) (n %s))' % (v, v, v), U + '(lambda (own) (slot n) (list own own))' if v != 'y' else U + '(lambda (own) (slot n) (list own own))', ['(%define-syntax $0 (T 1))', '(%list $0 $0)'])
        add('macros that define', 'a global macro for %s' % v, D + '(m n) (lambda (%s) (n %s))' % (v, v), U + U + '(lambda (own) (list own own))', ['(%define-syntax $0 (T 1))', '(%list $0 $0)'])
        add('macros that define', 'a local macro around %s' % v, D + '(lambda (%s) (m %s))' % (v, v), U + '(lambda (own) ((lambda (n) (list own own))))', ['(%let-syntax ((%n (T 1))) (%n $0))', '(%list $0 $0)'])
        add('macros that define', 'a local macro under its own binding of tmp, %s' % v, D + '(lambda (%s) (m %s))' % (v, v), U + '(lambda (own) ((lambda (t1) ((lambda (n) (list own t1)))) 1))', ['((%lambda (%tmp) (%let-syntax ((%n (T 1))) (%n $0 %tmp))) 1)', '(%list $0 $1)'])
    for s, ref, t in (('(lambda () (m (define a 1) (define b a)) (f a b))', '(lambda () (define a 1) (define b a) (f a b))', '(%begin $0 $1)'), ('(lambda () (m (f) (g)) (h))', '(lambda () (f) (g) (h))', '(%begin $0 $1)'), ('(begin (m (define a 1) (define b a)) (f a b))', '(begin (define a 1) (define b a) (f a b))', '(%begin $0 $1)'),
                      ('(lambda () (m define begin) (f 1))', '(lambda () (define own 1) (f 1))', '(%define $0 1)'), ('(lambda () (m a 1) a)', '(lambda () (define a 1) a)', '($2 $0 $1)'), ('(if (m a 1) (m 2 3))', '(if (list a 1) (list 2 3))', '(%list $0 $1)'),
                      ('(set! x (m x 1))', '(set! x (list x 1))', '(%list $0 $1)'), ('((m f 1) (m g 2))', '((list f 1) (list g 2))', '(%list $0 $1)'), ('(letrec ((a (m a 1))) (m a 2))', '(letrec ((a (list a 1))) (list a 2))', '(%list $0 $1)'),
                      ('(define a (m a 1))', '(define a (list a 1))', '(%list $0 $1)'), ('(call-with-current-continuation! (m a 1))', '(call-with-current-continuation! (list a 1))', '(%list $0 $1)'), ('(lambda (a) (m a (define b 1)) b)', '(lambda (a) (list a 5) b)', None),
                      ("(quote (m a))", "(quote (m a))", '(%list $0)'), ("(f '(m 1) (m '(m 2) 'm))", "(f '(m 1) (list '(m 2) 'm))", '(%list $0 $1)'), ('(lambda (a) (m a 1) (m 2 a))', '(lambda (a) (list a 1) (list 2 a))', '(%list $0 $1)')):
        if t and '$2' not in t:
            add('places of uses', s, D + s, U + ref, [t])
    # identifiers that are not defined yet
    for k, (s, ref, t) in enumerate((
            ('(lambda () (m 1 2))', '(lambda () (late 1 2))', '(%late $0 $1)'), ('(m 1 2)', '(late 1 2)', '(%late $0 $1)'), ('(lambda () (m 1 2) (m 3 4))', '(lambda () (late 1 2) (late 3 4))', '(%late $0 $1)'),
            ('(define (late a) (f a)) (m late 2)', '(define (late a) (f a)) (late late 2)', '(%late $0 $1)'), ('(lambda () (m 1 2)) (define late 1) (m 3 4)', '(lambda () (late 1 2)) (define late 1) (late 3 4)', '(%late $0 $1)'),
            ('(lambda (late) (m late 2))', '(lambda (own) (late own 2))', '(%late $0 $1)'), ('(lambda () (define late 1) (m late 2))', '(lambda () (define own 1) (late own 2))', '(%late $0 $1)'),
            ('(m late later)', '((lambda (t1) (f t1 late)) later)', '((%lambda (%late) (%f %late $0)) $1)'), ('(lambda (x) (m late later))', '(lambda (x) ((lambda (t1) (f t1 late)) later))', '((%lambda (%late) (%f %late $0)) $1)'),
            ('(lambda () (m late 1) late)', '(lambda () (set! late 1) late)', '(%set! $0 $1)'), ('(lambda () (m late 1) late)', '(lambda () (set! later late) late)', '(%set! %later $0)'), ('(lambda () late (m late 1))', '(lambda () late (if late2 late 1))', '(%if %late2 $0 $1)'),
            ('(lambda () (m 1 2) late)', '(lambda () late late)', '%late'), ('(f (m 1 2))', '(f late)', '%late'), ('(lambda (late) (m 1 2))', '(lambda (own) late)', '%late'), ('(lambda (x) (m 1 2) x)', '(lambda (own) x own)', '%x'), ('(lambda () (define x 1) (m 1 2) x)', '(lambda () (define own 1) x own)', '%x'),
            ('(lambda (x) (m x 2))', '(lambda (own) own)', '$0'), ('(lambda () (m x 2) late)', '(lambda () x late)', '$0'), ('((lambda (x) ((lambda (x) (m x 2)) 2)) 1)', '((lambda (o1) ((lambda (o2) o2) 2)) 1)', '$0'), ('(lambda (x) (let-syntax ((n (T 0))) (lambda (x) (n x 1))))', '(lambda (o1) ((lambda (n) (lambda (o2) o2))))', '$0'))):
        add('late definitions', '%s by %s' % (s, t), D + s, U + ref, [t])
    # sc-macro-transformer: closed forms
    for v in ('tmp', 'g', 'x', 'y'):
        add('closed forms', 'binds a variable, %s' % v, D + '(lambda (%s) (m %s (h %s)))' % (v, v, v), U + '(lambda (own) ((lambda (t1) (g t1 own)) (h own)))', ['(closed ((lambda (tmp) (g tmp $0)) $1))'])
        add('closed forms', 'conditional, %s' % v, D + '(lambda (%s if lambda) (m %s (h %s)))' % (v, v, v), U + '(lambda (own i l) (lambda (b) (if own (h own) x)))', ['(closed (lambda (b) (if $0 $1 x)))'])
        add('closed forms', 'capture on purpose, %s' % v, D + '(lambda (%s) (m (f self %s) %s))' % (v, v, v) if v != 'y' else D + '(lambda (self) (m (f self y) self))', U + ('(lambda (own) ((lambda (s1) (g (f s1 own))) own))' if v != 'y' else '(lambda (own) ((lambda (s1) (g (f s1 y))) own))'), ['(closed ((lambda (self) (g $0:self)) $1))'])
        add('closed forms', 'operand under two bindings, %s' % v, D + '(lambda (%s) (m (lambda (b) (f b %s)) b))' % (v, v), U + '(lambda (own) (lambda (t1) (lambda (b1) (g t1 b1 (lambda (b) (f b own)) b))))', ['(closed (lambda (tmp) (lambda (b) (g tmp b $0 $1))))'])
        add('closed forms', 'nested uses, %s' % v, D + '(lambda (%s) (m %s (m %s 1)))' % (v, v, v), U + '(lambda (own) ((lambda (t1) (g t1 own)) ((lambda (t2) (g t2 own)) 1)))', ['(closed ((lambda (tmp) (g tmp $0)) $1))'])
        add('closed forms', 'local macro, %s' % v, '(lambda (%s) (let-syntax ((m (T 0))) (lambda (%s) (m %s 1))))' % (v, v, v), '(lambda (own1) ((lambda (m) (lambda (own) ((lambda (t1) (%s t1 own %s)) 1)))))' % ('own1' if v == 'g' else 'g', 'own1' if v == 'x' else 'x'), ['(closed ((lambda (tmp) (g tmp $0 x)) $1))'])
        add('closed forms', 'internal macro, %s' % v, '(lambda (%s) (define-syntax m (T 0)) (define b 2) (lambda (b) (m %s b)))' % (v, v), '(lambda (own1) (slot m) (define b 2) (lambda (b3) ((lambda (t1) (%s t1 own1 b)) b3)))' % ('own1' if v == 'g' else 'g'), ['(closed ((lambda (tmp) (g tmp $0 b)) $1))'])
    return out


def check(r, F):
    r.rule('the code emitted for a program computes the expression of the program after every macro use is replaced and every identifier is resolved by lexical scope: the macro\'s identifiers where the macro is defined, its binders apart from the user\'s, the user\'s where the use is')
    r.assume('macro transformers are templates that rename identifiers in the environment of their definition; how syntax-rules and the others build such forms is decided by C27 and C28')
    run(r, F, items())
