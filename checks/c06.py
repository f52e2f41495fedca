"""C06: a collection frees exactly the data no root reaches."""
import itertools
from engine.interp import *
from engine.interp import Interp
from engine import facts as ef
from .common import where

SET = 'meevax::pointer_set::'
IT = 'meevax::pointer_set::const_iterator::'
NB = 'meevax::nan_boxing_pointer::'
DATA = ('global', 'g:meevax::data')
OBJS = ('global', 'g:meevax::objects')
SIZE = ('global', 'g:meevax::size')
CAP = ('global', 'g:meevax::capacity')


class World:
    """Data: name -> (base, size, pair address); references: address -> datum name."""

    def __init__(self, data, refs, order):
        self.data, self.refs, self.order = data, refs, order
        self.at = {p: n for n, (b, s, p) in data.items()}


class GC(Interp):
    max_recur, max_depth, max_paths, max_unroll = 3, 20, 32, 64
    world = None

    def reset(self):
        w = self.world
        self.sets = {DATA: set(w.at), OBJS: set(w.refs)}
        self.deleted = []
        self.faults = []
        self.store[SIZE] = I(1000)
        self.store[CAP] = I(0)

    # pointers are positions of the layout
    def deref(self, p, node=None):
        p = self.rv(p)
        if is_int(p):
            return LV(('at', p[1]))
        if isinstance(p, tuple) and p and p[0] == 'addr':
            return LV(p[1])
        return super().deref(p, node)

    def set_of(self, obj):
        k = obj.key if isinstance(obj, LV) else obj
        if k in self.sets:
            return k
        v = self.store.get(k)
        if isinstance(v, tuple) and v and v[0] == 'pset':
            return v
        return None

    def load_default(self, k):
        if k[0] == 'mem' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'at':
            a = k[1][1]
            if a in self.world.at:
                if a in self.deleted:
                    self.faults.append('a freed datum is read')
                b, s, p = self.world.data[self.world.at[a]]
                if k[2] == 'base':
                    return I(b)
                if k[2] == 'size':
                    return I(s)
        if k[0] == 'global' and k[1].endswith('::cleared'):
            return I(0)
        return super().load_default(k)

    def refer(self, lv):
        """Pair address a reference at a layout position holds."""
        k = lv.key if isinstance(lv, LV) else lv
        if isinstance(k, tuple) and k[0] == 'at' and k[1] in self.world.refs:
            a = k[1]
            owner = [n for n, (b, s, p) in self.world.data.items() if b <= a < b + s]
            if owner and self.world.data[owner[0]][2] in self.deleted:
                self.faults.append('a reference inside a freed datum is read')
            if a not in self.sets[OBJS]:
                self.faults.append('a destroyed reference is read')
            return I(self.world.data[self.world.refs[a]][2])
        return None

    def call_hook(self, n, q, fn, obj, args, ev):
        if not q:
            return None
        if q.startswith(IT) and obj is not None:
            m = q[len(IT):]
            v = self.rv(obj)
            if isinstance(v, tuple) and v and v[0] == 'it':
                s = self.sets[v[1]]
                if m == 'operator bool':
                    return I(int(v[2] is not None))
                if m == 'operator*':
                    if v[2] is None:
                        raise Stop('dereference of an end iterator')
                    return I(v[2])
                if m in ('operator++', 'operator--'):
                    if m == 'operator++':
                        c = [x for x in s if v[2] is not None and x > v[2]]
                        nxt = min(c) if c else None
                    else:
                        c = [x for x in s if v[2] is None or x < v[2]]
                        nxt = max(c) if c else None
                    w = ('it', v[1], nxt)
                    self.assign(obj, w, n)
                    return obj if isinstance(obj, LV) else w
        if q in ('meevax::operator==', 'meevax::operator!=') and len(args) == 2:
            a, b = self.rv(ev(0)), self.rv(ev(1))
            if all(isinstance(x, tuple) and x and x[0] == 'it' for x in (a, b)):
                return I(int((a == b) == q.endswith('==')))
        if q.startswith(SET) and obj is not None:
            m = q[len(SET):]
            k = self.set_of(obj)
            if k is not None:
                s = self.sets[k]
                if m in ('insert', 'erase', 'contains', 'lower_bound'):
                    a = self.rv(ev(0))
                    if not is_int(a):
                        raise Stop('address %s is not part of the layout' % show(a))
                    a = a[1]
                    if m == 'contains':
                        return I(int(a in s))
                    if m == 'insert':
                        if a in s:
                            self.faults.append('a pointer is inserted twice')
                        s.add(a)
                        return UNSPEC
                    if m == 'erase':
                        if a not in s:
                            self.faults.append('a pointer that is not in the set is erased')
                        s.discard(a)
                        return UNSPEC
                    c = [x for x in s if x >= a]
                    return ('it', k, min(c) if c else None)
                if m == 'begin':
                    return ('it', k, min(s) if s else None)
                if m == 'end':
                    return ('it', k, None)
                if m == 'size':
                    return I(len(s))
                if m == 'empty':
                    return I(int(not s))
                if m == 'swap':
                    o = self.set_of(ev(0))
                    if o is not None:
                        self.sets[k], self.sets[o] = self.sets[o], self.sets[k]
                        return UNSPEC
        if q.startswith(NB) or q.startswith('meevax::object::'):
            m = q.rsplit('::', 1)[-1]
            t = obj
            if isinstance(t, LV):
                r = self.refer(t)
                if r is not None:
                    if m in ('unsafe_get', 'get', 'operator->'):
                        return r
                    if m == 'operator bool':
                        return I(1)
                    if m == 'operator*':
                        return LV(('at', r[1]))
        if q == 'std::exchange' and len(args) == 2:
            lv = ev(0)
            old = self.rv(lv)
            self.assign(lv, self.rv(ev(1)), n)
            return old
        if q in ('std::max', 'std::min') and len(args) == 2:
            a, b = self.rv(ev(0)), self.rv(ev(1))
            if is_int(a) and is_int(b):
                return I((max if q == 'std::max' else min)(a[1], b[1]))
        if q == 'std::for_each' and len(args) == 3:
            a, b, f = self.rv(ev(0)), self.rv(ev(1)), self.rv(ev(2))
            if a[0] == 'it' and b[0] == 'it':
                while a[2] != b[2]:
                    if a[2] is None:
                        raise Stop('range runs past the end')
                    self.call_lambda(f, [I(a[2])], n)
                    c = [x for x in self.sets[a[1]] if x > a[2]]
                    a = ('it', a[1], min(c) if c else None)
                return f
        if q.startswith(('std::vector::', 'std::deque::', 'std::stack::')) and obj is not None:
            m = q.rsplit('::', 1)[-1]
            if isinstance(obj, LV):
                v = self.store.get(obj.key)
                v = v if isinstance(v, tuple) and v and v[0] == 'array' else ('array', ())
                xs = v[1]
                if m in ('clear',):
                    self.assign(obj, ('array', ()), n)
                    return UNSPEC
                if m in ('push_back', 'emplace_back', 'push', 'push_front'):
                    x = self.rv(ev(0))
                    self.assign(obj, ('array', xs + (x,) if m != 'push_front' else (x,) + xs), n)
                    return UNSPEC
                if m in ('pop_back', 'pop', 'pop_front'):
                    if not xs:
                        raise Stop('pop of an empty container')
                    self.assign(obj, ('array', xs[:-1] if m != 'pop_front' else xs[1:]), n)
                    return UNSPEC
                if m in ('back', 'top', 'front'):
                    if not xs:
                        raise Stop('access to an empty container')
                    return xs[-1] if m != 'front' else xs[0]
                if m == 'empty':
                    return I(int(not xs))
                if m == 'size':
                    return I(len(xs))
                if m == 'reserve':
                    return UNSPEC
        return None

    def ctor_hook(self, n, cls, args, ev):
        t = bare(n['t'])
        if 'const_iterator' in t and len(args) == 1:
            return self.rv(ev(0))
        if t.startswith('meevax::memory::pointer_set<') and 'const_iterator' not in t and not args:
            self.fresh_n += 1
            k = ('pset', self.fresh_n)
            self.sets[k] = set()
            return k
        if t.startswith(('std::vector<', 'std::deque<', 'std::stack<')) and not args:
            return ('array', ())
        return None

    def other_cast(self, n, v):
        return v

    def int_cast(self, n, v):
        return v

    def s_rfor(self, s):
        r = self.ev(s['range'])
        k = self.set_of(r) if isinstance(r, LV) else None
        if k is None:
            return super().s_rfor(s)
        last = None
        while True:
            c = [x for x in self.sets[k] if last is None or x > last]
            if not c:
                return
            last = min(c)
            lv = LV(('var', self.frames[-1]['id'], s['var']['d']))
            self.declare(s['var']['d'], lv)
            self.store[lv.key] = I(last)
            try:
                self.ex(s['s'])
            except Break:
                return
            except Continue:
                continue

    def e_delete(self, n):
        p = self.rvn(n['e'])
        if is_int(p):
            a = p[1]
            if a not in self.world.at:
                self.faults.append('something that is not a datum is deleted')
            elif a in self.deleted:
                self.faults.append('datum %s is deleted twice' % self.world.at[a])
            else:
                self.deleted.append(a)
                b, s, pa = self.world.data[self.world.at[a]]
                for x in [x for x in self.sets[OBJS] if b <= x < b + s]:
                    self.sets[OBJS].discard(x)
        return UNSPEC


def layouts():
    """Order types of two data and one reference address."""
    # a datum occupies [base, base + size); its pair address lies inside it
    for n in (0, 1, 2):
        for shape in itertools.product(range(3), repeat=n):   # pair at the start, inside, at the last word
            data, pos = {}, 10
            marks = [0]
            for i, sh in enumerate(shape):
                base, size = pos, 4
                data['D%d' % i] = (base, size, base + (0, 2, 3)[sh])
                marks += [base - 1, base, base + 1, base + 2, base + 3, base + 4]
                pos += 5
            for adj in ((False, True) if n == 2 else (False,)):
                if adj:
                    b, s, p = data['D1']
                    data = dict(data, D1=(b - 1, s, p - 1))
                    m2 = marks + [x - 1 for x in marks]
                else:
                    m2 = marks + [pos + 3]
                for x in sorted(set(m2)):
                    yield shape, adj, data, x


def heaps(bound):
    """Reference graphs: k data with two references each, and roots."""
    for k in range(0, bound + 1):
        names = ['D%d' % i for i in range(k)]
        opts = [None] + names
        per = itertools.product(itertools.product(opts, repeat=2), repeat=k)
        for fields in per:
            for roots in ([()] + [(a,) for a in names] + [(a, b) for a in names for b in names if a <= b] if k < 3 else [()] + [(a,) for a in names] + [('D0', 'D2')]):
                yield names, fields, roots


def build(names, fields, roots, flip):
    data, refs = {}, {}
    pos = 100
    order = list(reversed(names)) if flip else list(names)
    for n in order:
        data[n] = (pos, 8, pos + (4 if flip else 0))
        for j, t in enumerate(fields[names.index(n)]):
            if t is not None:
                refs[pos + 1 + 2 * j] = t
        pos += 8 if flip else 16
    low = 10
    for i, t in enumerate(roots):
        refs[low if i == 0 else pos + 50 + i] = t
        low += 1
    return World(data, refs, order)


def reach(names, fields, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [t for t in fields[names.index(x)] if t is not None]
    return seen


def check(r, F):
    r.rule('the root test is evaluated for every order type of up to two data (own address at the start, inside or at the end of the datum; data adjacent or apart) and one reference address: it is false exactly when the address lies inside a datum')
    r.rule('a collection is evaluated on every reference graph of up to two data with two references each and up to two roots, and of three data with their roots, in both address orders: afterwards the collector knows exactly the data reachable from the roots, exactly the others have been deleted, each once, nothing freed is read, the recorded size is that of the survivors, and the next collection after the roots are gone frees those too')
    r.rule('clearing the collector deletes every datum once and leaves none')
    r.assume('the registry of references and the set of data are ordered sets with the interface of pointer_set (insert, erase, contains, lower_bound, iteration in address order); deleting a datum destroys the references inside it')
    g = GC(F)

    def fn_of(q, n):
        fs = [f for f in F.by_q.get(q, []) if len(f['params']) == n]
        return fs[0] if len(fs) == 1 else None
    root, coll, clear = fn_of('meevax::is_root', 1), fn_of('meevax::collect', 0), fn_of('meevax::clear', 0)
    r.need(root and coll, 'the collector was not found')
    for shape, adj, data, x in layouts():
        owner = [n for n, (b, s, p) in data.items() if b <= x < b + s]
        g.world = World(data, {}, None)
        inst = '%d data%s, pairs at %s, reference at %s' % (len(data), ' adjacent' if adj else '', list(shape), place(data, x))
        ps = g.explore(lambda: g.boolean(g.rv(g.call_fn(root, None, [I(x)]))))
        for p in ps:
            if p.outcome[0] != 'return':
                r.skip('root', inst, where(root), '%s %s' % (p.outcome[0], str(p.outcome[1])[:80]))
                continue
            v = p.outcome[1]
            if not is_int(v):
                r.skip('root', inst, where(root), 'result %s' % show(v))
                continue
            r.check(v[1] == int(not owner), 'root', inst, where(root), 'a reference at %s is %staken for a root' % (place(data, x), '' if v[1] else 'not '))
    n = 0
    import os
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    for names, fields, roots in heaps(3):
        k = len(names)
        if k == 3 and not deep and hash_(fields) % 5:
            continue
        for flip in (False, True):
            w = build(names, fields, roots, flip)
            g.world = w
            inst = 'data %s, roots %s%s' % (', '.join('%s->(%s %s)' % ((nm,) + tuple(t or '-' for t in f)) for nm, f in zip(names, fields)) or 'none', list(roots), ', reversed' if flip else '')

            def go():
                g.call_fn(coll, None, [])
                first = list(g.deleted), set(g.sets[DATA]), list(g.faults), g.store.get(SIZE)
                # the roots go away: the next collection frees the rest
                for a in [a for a in g.sets[OBJS] if not any(b <= a < b + s for b, s, _ in w.data.values())]:
                    g.sets[OBJS].discard(a)
                g.call_fn(coll, None, [])
                return first + (set(g.deleted), list(g.faults))
            ps = g.explore(go)
            n += 1
            live = {w.data[x][2] for x in reach(names, fields, roots)}
            for p in ps:
                if p.outcome[0] != 'return':
                    r.skip('collect', inst, where(coll), '%s %s' % (p.outcome[0], str(p.outcome[1])[:80]))
                    continue
                dele, kept, faults, size, later, faults2 = p.outcome[1]
                msgs = list(faults)
                if not faults and faults2:
                    msgs.append('in the collection after the roots are gone: ' + faults2[0])
                if later != set(w.at):
                    msgs.append('in the collection after the roots are gone, %d data remain' % (len(w.at) - len(later)))
                name = lambda s: sorted(w.at.get(a, '?') for a in s)
                lost = live & set(dele)
                if lost:
                    msgs.append('%s are reachable from the roots but freed' % name(lost))
                leak = set(w.at) - live - set(dele)
                if leak:
                    msgs.append('%s are unreachable but not freed' % name(leak))
                if kept != set(w.at) - set(dele):
                    msgs.append('the collector knows %s, alive are %s' % (name(kept), name(set(w.at) - set(dele))))
                if not msgs and is_int(size) and size[1] != sum(w.data[x][1] for x in w.data if w.data[x][2] in live):
                    msgs.append('the recorded size is %d' % size[1])
                r.check(not msgs, 'collect', inst, where(coll), '; '.join(msgs))
    if clear:
        for names, fields, roots in heaps(2):
            w = build(names, fields, roots, False)
            g.world = w
            inst = 'data %s' % (', '.join('%s->(%s %s)' % ((nm,) + tuple(t or '-' for t in f)) for nm, f in zip(names, fields)) or 'none')

            def go():
                g.call_fn(clear, None, [])
                return set(g.deleted), set(g.sets[DATA]), list(g.faults)
            for p in g.explore(go):
                if p.outcome[0] != 'return':
                    r.skip('clear', inst, where(clear), str(p.outcome[1])[:80])
                    continue
                dele, left, faults = p.outcome[1]
                msgs = list(faults)
                if dele != set(w.at):
                    msgs.append('%d of %d data are deleted' % (len(dele), len(w.at)))
                if left:
                    msgs.append('%d data are still known' % len(left))
                r.check(not msgs, 'clear', inst, where(clear), '; '.join(msgs))
    threshold(F, r, g)
    r.analysed['heaps'] = n
    r.analysed['functions inlined'] = len(g.inlined)
    r.need_count('root', 100)
    r.need_count('collect', 300)


def hash_(fields):
    h = 0
    for f in fields:
        for t in f:
            h = h * 5 + (0 if t is None else int(t[1:]) + 1)
    return h * 7919 % 1009


def place(data, x):
    for n, (b, s, p) in data.items():
        if b <= x < b + s:
            return 'offset %d of %s' % (x - b, n) + (' (its last word)' if x == b + s - 1 else '')
    below = [n for n, (b, s, p) in data.items() if b + s <= x]
    return 'outside, above %d data' % len(below) + (' (just past the end of one)' if any(b + s == x for b, s, p in data.values()) else '')


def threshold(F, r, g):
    fs = [f for f in F.by_q.get('meevax::request', []) if len(f['params']) == 1]
    if len(fs) != 1:
        return
    fn = fs[0]
    for size, cap, n in ((0, 100, 1000), (99, 100, 500), (500, 100, 10)):
        g.world = World({}, {}, None)
        calls = []

        class G2(GC):
            def call_hook(self, nn, q, f, obj, args, ev):
                if q == 'meevax::collect':
                    calls.append(1)
                    return UNSPEC
                return super().call_hook(nn, q, f, obj, args, ev)
        h = G2(F)
        h.world = g.world

        def go():
            del calls[:]
            h.store[SIZE], h.store[CAP] = I(size), I(cap)
            h.call_fn(fn, None, [I(n)])
            return len(calls)
        for p in h.explore(go):
            if p.outcome[0] != 'return':
                r.skip('request', '%d+%d of %d' % (size, n, cap), where(fn), str(p.outcome[1])[:80])
                continue
            want = int(size + n > cap)
            r.check(p.outcome[1] == want, 'request', '%d in use, %d requested, capacity %d' % (size, n, cap), where(fn), 'a collection is %sstarted' % ('' if p.outcome[1] else 'not '))
