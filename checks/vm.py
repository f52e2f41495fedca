"""Abstract machine: transition of every instruction, as terms over s, e, c, d."""
from engine.interp import *
from engine.kernel import Kernel, tn
from engine import sexp
from .common import where, AnalysisError

EXEC = 'meevax::dynamic_environment::execute'
ENUM = 'meevax::instruction'

# The machine's transition table (the one documented at each handler).
# (condition, s, e, c, d, {written cell: value})
SPEC = {
    'secd_load_absolute': [(None, '(cons (cdr (cadr c)) s)', 'e', '(cddr c)', 'd', {})],
    'secd_load_relative': [(None, '(cons (car (tail (car (tail e (int (car (cadr c))))) (int (cdr (cadr c))))) s)', 'e', '(cddr c)', 'd', {})],
    'secd_load_variadic': [(None, '(cons (tail (car (tail e (int (car (cadr c))))) (int (cdr (cadr c)))) s)', 'e', '(cddr c)', 'd', {})],
    'secd_load_constant': [(None, '(cons (cadr c) s)', 'e', '(cddr c)', 'd', {})],
    'secd_load_closure': [(None, '(cons (make closure (cadr c) e) s)', 'e', '(cddr c)', 'd', {})],
    'secd_load_continuation': [(None, '(cons (list (make continuation s (cons* e (cadr c) d))) s)', 'e', '(cddr c)', 'd', {})],
    'secd_current': [(None, '(cons (idx (mem this a) (int (cadr c))) s)', 'e', '(cddr c)', 'd', {})],
    'secd_select': [('true', '(cdr s)', 'e', '(cadr c)', '(cons (cdddr c) d)', {}),
                    ('false', '(cdr s)', 'e', '(caddr c)', '(cons (cdddr c) d)', {})],
    'secd_tail_select': [('true', '(cdr s)', 'e', '(cadr c)', 'd', {}),
                         ('false', '(cdr s)', 'e', '(caddr c)', 'd', {})],
    'secd_join': [(None, 's', 'e', '(car d)', '(cdr d)', {})],
    'secd_call': [('closure', 'null', '(cons (cadr s) (cdr (car s)))', '(car (car s))', '(cons* (cddr s) e (cdr c) d)', {}),
                  ('procedure', '(cons (applied) (cddr s))', 'e', '(cdr c)', 'd', {}),
                  ('continuation', '(cons (car (cadr s)) (car (car s)))', '(cadr (car s))', '(caddr (car s))', '(cdddr (car s))', {}),
                  ('other', 'error', '', '', '', {})],
    'secd_tail_call': [('closure', 'null', '(cons (cadr s) (cdr (car s)))', '(car (car s))', 'd', {}),
                       ('procedure', '(cons (applied) (car d))', '(cadr d)', '(caddr d)', '(cdddr d)', {}),
                       ('continuation', '(cons (car (cadr s)) (car (car s)))', '(cadr (car s))', '(caddr (car s))', '(cdddr (car s))', {}),
                       ('other', 'error', '', '', '', {})],
    'secd_dummy': [(None, 's', '(cons null e)', '(cdr c)', 'd', {})],
    'secd_letrec': [(None, 'null', '(cdr (car s))', '(car (car s))', '(cons* (cddr s) (cdr e) (cdr c) d)', {'(car (cdr (car s)))': '(cadr s)'})],
    'secd_tail_letrec': [(None, 'null', '(cdr (car s))', '(car (car s))', 'd', {'(car (cdr (car s)))': '(cadr s)'})],
    'secd_return': [(None, '(cons (car s) (car d))', '(cadr d)', '(caddr d)', '(cdddr d)', {})],
    'secd_cons': [(None, '(cons (cons (car s) (cadr s)) (cddr s))', 'e', '(cdr c)', 'd', {})],
    'secd_drop': [(None, '(cdr s)', 'e', '(cdr c)', 'd', {})],
    'secd_store_absolute': [(None, 's', 'e', '(cddr c)', 'd', {'(cdr (cadr c))': '(car s)'})],
    'secd_store_relative': [(None, 's', 'e', '(cddr c)', 'd', {'(car (tail (car (tail e (int (car (cadr c))))) (int (cdr (cadr c)))))': '(car s)'})],
    'secd_store_variadic': [(None, 's', 'e', '(cddr c)', 'd', {'(tail (car (tail e (int (car (cadr c))))) (int (cdr (cadr c))))': '(car s)'})],
    'secd_install': [(None, 's', 'e', '(cddr c)', 'd', {'(idx (mem this a) (int (cadr c)))': '(car s)'})],
    'secd_stop': [(None, 'result:(car s)', '', '', '', {})],
}

# Registers that are non-empty when an instruction starts (its documented input shape).
SHAPE = {
    'secd_tail_letrec': ['e'], 'secd_letrec': ['e'],
}


class VM(Kernel):
    op = None
    ops = None

    def reset(self):
        super().reset()
        self.dispatched = 0
        self.root_ids = None
        self.alloc_roots = []

    def may_inline(self, f, depth):
        if f['q'] in (EXEC, 'meevax::dynamic_environment::apply'):
            return depth == 0
        return True

    def as_(self, x, t, n):
        if t == 'instruction':
            if x == ('car', ('v', 'c')) and not self.dispatched:
                self.dispatched = 1
                return ('enum', ENUM + '::' + self.op, self.ops[self.op])
            if self.dispatched:
                raise Stop('next')
        return super().as_(x, t, n)

    def s_try(self, s):
        self.ex(s['s'])

    def roots_snapshot(self):
        if not self.frames:
            return None
        return None

    def on_alloc(self, node):
        super().on_alloc(node)
        # values of all live local objects (the roots) at this allocation
        live = []
        for fr in self.frames:
            for d, lv in fr['vars'].items():
                k = lv.key
                if k[0] in ('var',) and k in self.store:
                    live.append(self.store[k])
        self.alloc_roots.append((live, node))

    def note_deref(self, x, node):
        self.reads.append((x, self.allocs, node))


def norm(vm, t):
    """Normal form: integer casts dropped, 'tail' of constants expanded."""
    if isinstance(t, LV):
        return t
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'icast':
        return norm(vm, t[2])
    r = tuple(norm(vm, x) if isinstance(x, tuple) else x for x in t)
    if r and r[0] in ('car', 'cdr', 'tail'):
        if len(r) == 3 and r[0] == 'tail':
            return vm.simplify(r)
        return Kernel.simplify(vm, r)
    return r


def materialize(store, t, depth=0):
    """Reads term t through the cell writes of the path."""
    if depth > 12 or not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'cons':
        return ('cons', materialize(store, t[1], depth + 1), materialize(store, t[2], depth + 1))
    a, d = store.get(('car', t)), store.get(('cdr', t))
    if a is not None or d is not None:
        a = a if a is not None else ('car', t)
        d = d if d is not None else ('cdr', t)
        return ('cons', materialize(store, a, depth + 1), materialize(store, d, depth + 1))
    return t


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def kind_of(path):
    callee = ('car', ('v', 's'))
    for t, c, _ in path.conds:
        if isinstance(t, tuple) and t[0] in ('is', 'isalso') and t[2] == callee and c:
            return t[1]
    return 'other'


def sel_of(path):
    for t, c, _ in path.conds:
        if isinstance(t, tuple) and t[0] == '==' and ('car', ('v', 's')) in t[1:]:
            other = [x for x in t[1:] if x != ('car', ('v', 's'))]
            if other and other[0] in (('global', 'g:meevax::f'), ('imm', 'bool', ('int', 0))):
                return 'false' if c else 'true'
    return None


def locate(F):
    fns = [f for f in F.by_q.get(EXEC, []) if len(f['params']) == 4]
    if len(fns) != 1:
        raise AnalysisError('the machine (%s with four registers) was not found' % EXEC)
    en = F.enums.get(ENUM)
    if not en:
        raise AnalysisError('the instruction enumeration was not found')
    return fns[0], {n: int(v) for n, v in en['vals']}


def paths_of(F, op, fn, ops):
    vm = VM(F)
    vm.op = op
    vm.ops = ops

    def go():
        return vm.call_fn(fn, LV(('v', 'this')), [('v', x) for x in 'secd'])
    ps = vm.explore_with(go) if hasattr(vm, 'explore_with') else explore_keep(vm, go)
    return vm, ps


def explore_keep(vm, go):
    """explore(), keeping resets/reads/allocations with every path."""
    out = []
    orig = vm.reset

    def thunk():
        p = vm.path
        try:
            return go()
        finally:
            p.resets = vm.resets
            p.reads = vm.reads
            p.alloc_roots = vm.alloc_roots
    return vm.explore(thunk)


def registers(fn, p):
    regs = {}
    for name, prm in zip('secd', fn['params']):
        for k, v in p.store.items():
            if k[0] == 'var' and k[1] == 1 and k[2] == prm['d']:
                regs[name] = v
    return regs


def expect(vm, text):
    return norm(vm, sexp.parse(text, {x: ('v', x) for x in ('s', 'e', 'c', 'd', 'this')} | {'a': 'a'}, vm.simplify))
