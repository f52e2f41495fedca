"""C05: every live reference is registered with the collector exactly once, and
every allocated datum is known to it with its full extent."""
from engine.interp import *
from engine.interp import Interp
from engine.bits import const
from engine import facts as ef
from .c07 import NB, word, SELF, PAIR, INSN, CLS
from .common import where
from . import vm as V

OBJ = 'meevax::object'
SET = 'meevax::pointer_set::'


class Reg(NB):
    """Tagged words plus the registry of references."""

    def reset(self):
        self.registry = set()
        self.faults = []
        self.events = []

    def deref(self, p, node=None):
        return super().deref(p, node)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q and q.startswith(SET) and q.rsplit('::', 1)[-1] in ('insert', 'erase', 'contains') and len(args) == 1:
            m = q.rsplit('::', 1)[-1]
            k = obj.key if isinstance(obj, LV) else obj
            a = self.rv(ev(0))
            name = (k, a)
            self.events.append((m, name, n))
            if m == 'contains':
                return I(int(name in self.registry))
            if m == 'insert':
                if name in self.registry:
                    self.faults.append(('registered twice', n))
                self.registry.add(name)
            else:
                if name not in self.registry:
                    self.faults.append(('unregistered although it is not registered', n))
                self.registry.discard(name)
            return UNSPEC
        if q == 'std::identity::operator()':
            return ev(0)
        if q in ('std::exchange',) and len(args) == 2:
            lv = ev(0)
            old = self.rv(lv)
            self.assign(lv, self.rv(ev(1)), n)
            return old
        return super().call_hook(n, q, fn, obj, args, ev)

    def run_inits(self, fn, this):
        for i in fn.get('inits') or []:
            n = i.get('init')
            if 'member' not in i and n and n['k'] == 'ctor' and n.get('copy') and len(n['a']) == 1:
                src = self.ev(n['a'][0])
                self.store[('mem', this.key, 'data')] = self.rv(self.load(LV(('mem', src.key, 'data')))) if isinstance(src, LV) else UNDEF
                continue
            if 'member' not in i and n and n['k'] == 'ctor':
                self.construct(n, this)
            elif 'member' in i:
                self.init_storage(LV(('mem', this.key, i['member'])), n, None)


def words():
    """(label, heap reference?, word) for every kind, from the layout C07 establishes."""
    sig = {'bool': 0x7ff9, 'int': 0x7ffa, 'float': 0x7ffb, 'character': 0x7ffc, 'instruction': 0x7ffd, 'pair': 0x7ffe, 'null': 0x7fff}
    for k, s in sig.items():
        if k == 'character':
            continue
        w = {'bool': 1, 'int': 32, 'float': 32, 'instruction': 32, 'pair': 48, 'null': 0}[k]
        top = const(s << 48, 64)[1]
        yield k, k == 'pair', w, top
    yield 'double', False, 63, (0,) * 52 + (0,) + (0,) * 11


def make_word(name, w, top, k):
    if k == 'double':
        bs = word(name, 64)[1]
        return ('bits', bs[:62] + (0,) + bs[63:])
    return ('bits', tuple(('b', name, i) for i in range(w)) + top[w:])


def check(r, F):
    r.rule('typestate of a reference (registered with the collector or not): every constructor, the destructor, both assignments and every instantiated reset are evaluated for every kind of old and new word; afterwards the reference is registered exactly when its word is a heap reference, nothing is registered twice and nothing unregistered is removed')
    r.rule('a reset that asserts its old or new value to be a heap reference is used by the machine only where that value is a fresh datum, has been dereferenced before, or is the code of the next instruction')
    r.rule('every constructor of an allocated datum records the address and the size of the complete object; allocation enters the datum into the collector after the point where a collection may start and before a reference to it is returned')
    r.rule('in every transition of the machine, a datum read after an allocation is reachable at that allocation from a register or a reference held by a live variable')
    r.assume('a defaulted copy of the tagged word copies its bits; object lifetimes follow the C++ rules (a temporary lives to the end of its full expression)')
    M = Reg(F)
    # the words the current constructors actually build
    from .c07 import inputs, strip
    sample = []
    ctors = {}
    for fn in F.by_q.get(CLS + '::nan_boxing_pointer', []):
        ps = fn['params']
        if len(ps) == 1 and not is_ref(ps[0]['t']):
            ctors[strip(ps[0]['t'])] = fn
    for kind, case, val, bits in inputs():
        fn = ctors.get(kind)
        if fn is None or (kind == 'double' and 'bit' in case and 'bit 0' not in case and 'bit 10' not in case):
            continue

        def build():
            M.call_fn(fn, LV(SELF), [val])
            return M.as_word(M.rv(M.load(LV(('mem', SELF, 'data')))), 64)
        ps = M.explore(build)
        if len(ps) == 1 and ps[0].outcome[0] == 'return' and ps[0].outcome[1]:
            sample.append(('%s, %s' % (strip(kind), case), kind == PAIR, ps[0].outcome[1], kind, val))
    r.need(len(sample) >= 6 and any(s[1] for s in sample), 'the tagged words could not be built')
    objects = ('global', 'g:meevax::objects')
    me = (objects, ('addr', SELF))
    cleared = ('global', 'g:meevax::cleared')

    def renamed(w, name):
        return ('bits', tuple((b[0], name + b[1], b[2]) if isinstance(b, tuple) else b for b in w[1]))

    def ref(M, key, w, heap):
        M.store[('mem', key, 'data')] = w
        if heap:
            M.registry.add((objects, ('addr', key)))

    def judge(family, inst, fn, thunk, expect_heap):
        at = where(fn)

        def go():
            M.store[cleared] = I(0)
            thunk()
            return M.rv(M.load(LV(('mem', SELF, 'data')))), me in M.registry, list(M.faults), {k for k in M.registry if k != me}
        try:
            ps = M.explore(go)
        except (TooManyPaths, ef.AnalysisError) as e:
            r.skip(family, inst, at, str(e)[:100])
            return
        for p in ps:
            if p.outcome[0] != 'return':
                r.skip(family, inst, at, 'path ends with %s %s' % (p.outcome[0], str(p.outcome[1])[:80]))
                continue
            w, reg, faults, others = p.outcome[1]
            msgs = []
            for f, n in faults:
                msgs.append('the reference is %s (line %s)' % (f, n.get('l')))
            if expect_heap is not None and reg != expect_heap:
                msgs.append('afterwards the reference is %sregistered although it %s a heap reference' % ('' if reg else 'not ', 'holds' if expect_heap else 'does not hold'))
            r.check(not msgs, family, inst, at, '; '.join(msgs))

    sub = [s for s in sample]
    # constructors
    for fn in F.by_q.get(OBJ + '::object', []):
        ps = fn['params']
        if len(ps) == 1 and is_ref(ps[0]['t']) and bare(ps[0]['t']) == 'meevax::kernel::object':
            for lab, heap, w, kind, val in sub:
                def t():
                    ref(M, ('obj', 'y'), renamed(w, 'n'), heap)
                    M.call_fn(fn, LV(SELF), [LV(('obj', 'y'))])
                judge('construct', 'copy of ' + lab, fn, t, heap)
        else:
            k = strip(ps[0]['t']) if ps else 'std::nullptr_t'
            for lab, heap, w, kind, val in sub:
                if kind != k:
                    continue

                def t():
                    a = val
                    if is_ref(ps[0]['t']):
                        M.store[('obj', 'arg')] = val
                        a = LV(('obj', 'arg'))
                    M.call_fn(fn, LV(SELF), [a])
                judge('construct', lab, fn, t, heap)
    for fn in F.by_q.get(OBJ + '::~object', []):
        for lab, heap, w, kind, val in sub:
            def t():
                ref(M, SELF, w, heap)
                M.call_fn(fn, LV(SELF), [])
            judge('destroy', lab, fn, t, False)
    for name in ('operator=', 'reset'):
        for fn in F.by_q.get(OBJ + '::' + name, []):
            ta = [x.rsplit('::', 1)[-1] for x in fn.get('ta') or []]
            pre = ta[0] if ta else 'identity'
            post = ta[1] if len(ta) > 1 else 'identity'
            ps = fn['params']
            to_null = bool(ps) and bare(ps[0]['t']) == 'std::nullptr_t'
            tag = name + ('<%s>' % ', '.join(ta) if ta else '') + ('(null)' if to_null else '')
            for lab, heap, w, kind, val in sub:
                if (pre == 'truthy' and not heap) or (pre == 'falsy' and heap):
                    continue
                for lab2, heap2, w2, kind2, val2 in (sub if not to_null else [('null', False, None, None, None)]):
                    if (post == 'truthy' and not heap2) or (post == 'falsy' and heap2):
                        continue

                    def t():
                        ref(M, SELF, renamed(w, 'o'), heap)
                        if to_null:
                            M.call_fn(fn, LV(SELF), [NULL])
                        else:
                            ref(M, ('obj', 'y'), renamed(w2, 'n'), heap2)
                            M.call_fn(fn, LV(SELF), [LV(('obj', 'y'))])
                    judge('assign', '%s from %s to %s' % (tag, lab, lab2), fn, t, heap2)
                if not to_null and not (post == 'truthy' and not heap):
                    def t():
                        ref(M, SELF, w, heap)
                        M.call_fn(fn, LV(SELF), [LV(SELF)])
                    judge('assign', '%s from itself holding %s' % (tag, lab), fn, t, heap)
    allocation(F, r)
    claims(F, r)
    r.analysed['functions inlined'] = len(M.inlined)
    r.need_count('construct', 8)
    r.need_count('assign', 100)
    r.need_count('destroy', 6)
    r.need_count('extent', 20)
    r.need_count('allocate', 20)


class Alloc(Interp):
    max_recur, max_depth, max_paths, max_unroll = 2, 20, 64, 2

    def reset(self):
        self.events = []

    def e_cast(self, n):
        if n['c'] in ('UncheckedDerivedToBase', 'DerivedToBase') and bare(n['t']).endswith('*'):
            v = self.rv(self.ev(n['e']))
            if isinstance(v, tuple) and v and v[0] == 'addr':
                return v
        return super().e_cast(n)

    def e_new(self, n):
        i = n.get('init')
        obj = ('obj', 'new')
        for a in (i or {}).get('a', []):
            self.ev(a)
        self.events.append(('new', n))
        if i and i['k'] == 'ctor':
            fn = self.F.fns.get(i['f'])
            self.made = (fn, i)
        return ('addr', obj)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q in ('meevax::request', 'meevax::collect'):
            for i in range(len(args)):
                ev(i)
            self.events.append(('collect', n))
            return UNSPEC
        if q == 'meevax::insert' and len(args) == 1 or (q == SET + 'insert' and len(args) == 1):
            a = self.rv(ev(0))
            self.events.append(('enter', a, n))
            return UNSPEC
        return super().call_hook(n, q, fn, obj, args, ev)

    def ctor_hook(self, n, cls, args, ev):
        if bare(n['t']) == 'meevax::kernel::object' and len(args) == 1:
            v = self.rv(ev(0))
            if v == ('addr', ('obj', 'new')):
                self.events.append(('reference', n))
                return ('ref', v)
            return ('ref', v)
        return None


class Extent(Interp):
    """Evaluates what a constructor records as the extent of its datum."""
    max_recur, max_depth, max_paths, max_unroll = 2, 8, 16, 2

    def e_cast(self, n):
        if n['c'] in ('UncheckedDerivedToBase', 'DerivedToBase') and bare(n['t']).endswith('*'):
            v = self.rv(self.ev(n['e']))
            if isinstance(v, tuple) and v and v[0] in ('addr', 'part'):
                return ('part', bare(n['t']), v)
        return super().e_cast(n)

    def deref(self, p, node=None):
        p = self.rv(p)
        while isinstance(p, tuple) and p and p[0] == 'part':
            p = p[2]
        return super().deref(p, node)

    def run_inits(self, fn, this):
        pass


def allocation(F, r):
    sizes = {}
    E = Extent(F)
    seen = set()
    for fn in F.by_q.get('meevax::binder::binder', []):
        cls = fn.get('cls', '')
        inst = '%s(%s)' % (cls.replace('meevax::kernel::', '').replace('meevax::memory::', ''), ', '.join(p['t'].replace('meevax::kernel::', '') for p in fn['params']))
        if not (fn.get('body') or {}).get('s'):
            if fn['params'] and 'binder' in fn['params'][0]['t']:
                continue

        def go():
            E.call_fn(fn, LV(SELF), [('v', 'a%d' % i) for i in range(len(fn['params']))])
            return E.rv(E.load(LV(('mem', SELF, 'base')))), E.rv(E.load(LV(('mem', SELF, 'size'))))
        try:
            ps = E.explore(go)
        except TooManyPaths:
            r.skip('extent', inst, where(fn), 'too many paths')
            continue
        for p in ps:
            if p.outcome[0] != 'return':
                continue
            base, size = p.outcome[1]
            msgs = []
            if base != ('addr', SELF):
                msgs.append('the recorded address is %s, not that of the complete object' % (('the subobject of class ' + base[1].replace(' *', '')) if isinstance(base, tuple) and base[0] == 'part' else show(base)))
            own = own_size(fn, cls)
            if not is_int(size):
                msgs.append('the recorded size is %s' % show(size))
            elif not full_size(fn, cls, size[1], F):
                msgs.append('the recorded size %d is not the size of the complete object' % size[1])
            r.check(not msgs, 'extent', inst, where(fn), '; '.join(msgs))
    A = Alloc(F)
    for fn in F.by_q.get('meevax::make', []):
        if not fn.get('ta'):
            continue
        A.made = None
        t = fn['ta'][0].replace('meevax::kernel::', '')
        inst = 'make<%s>(%s)' % (t, ', '.join(x.replace('meevax::kernel::', '') for x in fn['ta'][2:]))

        def go():
            v = A.call_fn(fn, None, [LV(('obj', 'arg%d' % i)) for i in range(len(fn['params']))])
            return v, list(A.events)
        try:
            ps = A.explore(go)
        except TooManyPaths:
            r.skip('allocate', inst, where(fn), 'too many paths')
            continue
        for p in ps:
            if p.outcome[0] != 'return':
                continue
            v, evs = p.outcome[1]
            names = [e[0] for e in evs]
            if 'new' not in names:
                continue
            msgs = []
            i = names.index('new')
            entered = [e for e in evs if e[0] == 'enter' and e[1] in (('addr', ('obj', 'new')),)]
            if len(entered) != 1:
                msgs.append('the datum is entered into the collector %d times' % len(entered))
            if 'reference' in names:
                j = names.index('reference')
                if 'collect' in names[i:j]:
                    msgs.append('a collection may start after the datum exists and before a reference to it does')
                if entered and 'enter' in names and names.index('enter') > j and 'collect' in names[j:names.index('enter')]:
                    msgs.append('a collection may start before the datum is entered')
            if v != ('ref', ('addr', ('obj', 'new'))):
                msgs.append('the result is %s, not a reference to the datum' % show(v))
            if 'collect' not in names:
                msgs.append('no collection is ever requested on this allocation')
            r.check(not msgs, 'allocate', inst, where(fn), '; '.join(msgs))


def own_size(fn, cls):
    return None


def full_size(fn, cls, size, F):
    """size must be what the compiler computed for the class itself: the
    constructor's sizeof operand names the class it belongs to."""
    import json

    def find(n, of, out):
        if isinstance(n, dict):
            if n.get('k') == 'sizeof':
                out.append((n.get('of'), int(n['cv']) if 'cv' in n else None))
            for v in n.values():
                find(v, of, out)
        elif isinstance(n, list):
            for v in n:
                find(v, of, out)
        return out
    ss = find(fn.get('body'), cls, [])
    rec = F.classes.get(cls)
    if rec and rec.get('size') is not None:
        return rec['size'] == size
    return any(bare(of or '') == bare(cls) and cv == size for of, cv in ss)


def claims(F, r):
    fn, ops = V.locate(F)
    n = 0
    for op in ops:
        vm, paths = V.paths_of(F, op, fn, ops)
        spec = V.SPEC.get(op)
        codes = {V.norm(vm, V.expect(vm, row[3])) for row in spec if row[3]} if spec else set()
        seen = set()
        for p in paths:
            for pre, post, key, old, new, node in p.resets:
                for side, claim, v in (('old', pre, old), ('new', post, new)):
                    claim = claim.rsplit('::', 1)[-1]
                    if claim not in ('truthy', 'falsy'):
                        continue
                    v = V.norm(vm, v)
                    inst = '%s: %s value %s at a reset' % (op, side, show(v))
                    if (inst, claim) in seen:
                        continue
                    seen.add((inst, claim))
                    h = vm.heap_term(v)
                    shape = isinstance(v, tuple) and len(v) == 2 and v[0] == 'v' and v[1] in V.SHAPE.get(op, ())
                    if claim == 'truthy':
                        ok = h is True or (h is None and (any(V.norm(vm, x[0]) == v for x in p.reads) or v in codes or shape))
                    else:
                        ok = h is False
                    n += 1
                    r.check(ok, 'claim', inst, where(fn, node), 'the reset asserts that the %s value %s is %s a heap reference, which nothing on the path establishes: the registration of the reference is %s'
                            % (side, show(v), 'always' if claim == 'truthy' else 'never', 'wrong when it is not'))
            live(F, r, vm, fn, op, p)
    r.analysed['asserted resets'] = n


def atoms(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'v' and t[1] in ('s', 'e', 'c', 'd'):
            out.add(t[1])
        else:
            for x in t:
                atoms(x, out)
    return out


def reachable(t, roots):
    """t is a part of a live value or built from nothing but such parts."""
    if not isinstance(t, tuple) or not t:
        return True
    if t in roots:
        return True
    if t[0] in ('car', 'cdr', 'tail', 'pairof', 'as'):
        return any(reachable(x, roots) for x in t[1:] if isinstance(x, tuple) and x and x[0] not in ('int', 'str') and not isinstance(x, str)) if t[0] != 'as' else reachable(t[2], roots)
    if len(t) == 2 and t[0] == 'v' and t[1] in ('s', 'e', 'c', 'd'):
        return False
    return True


def parts(t, out):
    """Values held by a live value (fields of fresh data)."""
    if isinstance(t, tuple) and t:
        out.add(t)
        if t[0] in ('cons', 'make', 'list', 'struct'):
            for x in t[1:]:
                if isinstance(x, tuple):
                    parts(x, out)
    return out


def live(F, r, vm, fn, op, p):
    bad = set()
    for k, (vals, node) in enumerate(p.alloc_roots):
        roots = set()
        for v in vals:
            parts(v, roots)
        # cells written on the path
        for x in p.reads:
            if x[1] > k and not reachable(x[0], roots):
                bad.add((show(x[0]), node.get('l') if node else 0, x[2].get('l') if isinstance(x[2], dict) else 0))
    inst = '%s: path %s' % (op, V.kind_of(p) if 'call' in op else 'any')
    r.check(not bad, 'live', inst, where(fn), '; '.join('%s is read at line %s but nothing live holds it at the allocation at line %s' % (b[0], b[2], b[1]) for b in sorted(bad)))
