"""C01: every machine instruction performs exactly its documented transition."""
from .vm import *


def heap_writes(p):
    return {k: v for k, v in p.store.items() if k[0] in ('car', 'cdr', 'tail', 'idx') or (k[0] == 'mem' and contains(k, ('v', 'this')))}


def applied_ok(t, proc, args):
    """Term of the result of calling primitive proc on args."""
    return isinstance(t, tuple) and t and t[0] == 'call' and contains(t, proc) and contains(t, args)


def match(vm, exp, got):
    """Structural equality; (applied) matches the call of the primitive at the top of the stack."""
    if exp == ('applied',):
        return applied_ok(got, ('car', ('v', 's')), ('car', ('cdr', ('v', 's'))))
    if exp == got:
        return True
    if isinstance(exp, tuple) and isinstance(got, tuple) and len(exp) == len(got) and exp and exp[0] == got[0]:
        return all(match(vm, a, b) if isinstance(a, tuple) else a == b for a, b in zip(exp[1:], got[1:]))
    return False


def check(r, F):
    r.rule('for every instruction and every branch of its handler, the registers s, e, c, d and the cells written at the end of the handler equal, as terms over the registers at its start, the documented transition')
    fn, ops = locate(F)
    r.assume('head/tail address list elements; distinct symbolic cells do not alias')
    n_paths = 0
    inlined = set()
    for op, alts in SPEC.items():
        r.need(op in ops, 'instruction %s no longer exists' % op)
        vm, ps = paths_of(F, op, fn, ops)
        inlined |= vm.inlined
        seen = set()
        for p in ps:
            n_paths += 1
            alt = None
            w = where(fn)
            if len(alts) == 1:
                alt = alts[0]
                key = op
            elif alts[0][0] in ('true', 'false'):
                k = sel_of(p)
                key = '%s/%s' % (op, k)
                alt = next((a for a in alts if a[0] == k), None)
                if alt is None:
                    r.bad('branch', op, w, 'the branch taken by %s does not depend on whether the tested value is #f: condition %s' % (op, [(show(t), c) for t, c, _ in p.conds]))
                    continue
            else:
                k = kind_of(p)
                key = '%s/%s' % (op, k)
                alt = next((a for a in alts if a[0] == k), None)
                if alt is None:
                    r.bad('callee', '%s/%s' % (op, k), w, '%s treats a %s as applicable' % (op, k))
                    continue
            seen.add(alt[0])
            if alt[1] == 'error':
                okk = p.outcome[0] == 'throw' and vm.catches('meevax::kernel::error', p.outcome[1])
                r.check(okk, 'inapplicable', key, w, 'applying an object that is not a closure, primitive or continuation must raise an error; this path ends with %s' % (p.outcome[:2],))
                continue
            if alt[1].startswith('result:'):
                got = norm(vm, vm_value(p))
                exp = expect(vm, alt[1][7:])
                r.check(p.outcome[0] == 'return' and match(vm, exp, got), 'transition', key, w, '%s must return %s, but returns %s' % (op, show(exp), show(got)))
                continue
            if p.outcome[0] == 'throw' or (p.outcome[0] == 'stop' and p.outcome[1] not in ('next',)) or p.outcome[0] == 'return':
                r.bad('transition', key, w, '%s: a path of the handler ends with %s instead of continuing with the next instruction (conditions %s)' % (op, p.outcome[:2], [(show(t), c) for t, c, _ in p.conds]))
                continue
            regs = registers(fn, p)
            writes = {norm(vm, k): norm(vm, v) for k, v in heap_writes(p).items()}
            # writes to the top stack cell are part of the value of s
            store = {norm(vm, k): norm(vm, v) for k, v in p.store.items() if k[0] in ('car', 'cdr')}
            bad = []
            for i, reg in enumerate('secd'):
                exp = expect(vm, alt[1 + i])
                got = norm(vm, regs.get(reg))
                if reg == 's':
                    top = {k: v for k, v in store.items() if k[1] == ('v', 's')}
                    if top and got == ('v', 's'):
                        got = materialize(top, got)
                        for k in top:
                            writes.pop(k, None)
                if not match(vm, exp, got):
                    bad.append('register %s is %s, expected %s' % (reg, show(got), show(exp)))
            want = {expect(vm, k): expect(vm, v) for k, v in alt[5].items()}
            for k, v in want.items():
                if k not in writes:
                    bad.append('cell %s is not written' % show(k))
                elif not match(vm, v, writes[k]):
                    bad.append('cell %s is set to %s, expected %s' % (show(k), show(writes[k]), show(v)))
            for k, v in writes.items():
                if k not in want:
                    bad.append('cell %s is modified (set to %s); it may be shared with closures or captured continuations' % (show(k), show(v)))
            r.check(not bad, 'transition', key, w, '%s: %s' % (key, '; '.join(bad)))
        for a in alts:
            r.check(a[0] in seen, 'covered', '%s/%s' % (op, a[0]), where(fn), '%s has no path for the case "%s"' % (op, a[0]))
    # apply: (f xs) applied by the machine
    ap = [f for f in F.by_q.get('meevax::dynamic_environment::apply', []) if len(f['params']) == 2]
    r.need(len(ap) == 1, 'dynamic_environment::apply was not found')
    vm = VM(F)
    vm.ops = ops
    vm.op = 'secd_stop'
    ps = explore_keep(vm, lambda: vm.call_fn(ap[0], LV(('v', 'this')), [('v', 'f'), ('v', 'xs')]))
    for p in ps:
        v = norm(vm, p.outcome[1]) if p.outcome[0] == 'return' else None
        okk = isinstance(v, tuple) and v and v[0] == 'call' and v[1] == EXEC and len(v) >= 7
        if okk:
            s, e, c, d = v[-4:]
            okk = s == ('cons', ('v', 'f'), ('cons', ('v', 'xs'), NULL)) and e == NULL and d == NULL and instrs(c) == ['secd_call', 'secd_stop']
        r.check(okk, 'apply', 'apply', where(ap[0]), 'apply must run (call stop) on the stack (f xs): %s' % show(v))
    # lemma: tail(x, k) is k-fold cdr
    for f in F.by_q.get('meevax::tail', []):
        for k in range(0, 4):
            vm = VM(F)
            vm.plain_tail = True
            vm.max_recur = 8
            ps = vm.explore(lambda: vm.rv(vm.call_fn(f, None, [LV(('x0',)), ('int', k)])))
            exp = ('x0',)
            for _ in range(k):
                exp = ('cdr', exp)
            r.check(all(p.outcome[0] == 'return' and norm(vm, vm.rv(p.outcome[1])) == exp for p in ps), 'tail', 'tail/%s/%d' % (f['params'][0]['t'], k), where(f), 'tail(x, %d) must be the %d-fold cdr, got %s' % (k, k, [show(p.outcome[1]) for p in ps]))
    r.need_count('transition', 25)
    r.need_count('tail', 4)
    r.analysed = {'instructions': len(SPEC), 'handler paths': n_paths, 'functions inlined': len(inlined)}


def vm_value(p):
    return p.outcome[1] if p.outcome[0] == 'return' else None


def instrs(c):
    out = []
    while isinstance(c, tuple) and c and c[0] == 'cons':
        x = c[1]
        if isinstance(x, tuple) and x[0] == 'imm' and isinstance(x[2], tuple) and x[2][0] == 'enum':
            out.append(x[2][1].split('::')[-1])
        else:
            out.append(show(x))
        c = c[2]
    return out if c == NULL else out + ['...']
