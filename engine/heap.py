"""Object identities, standard containers, iterators and algorithms.

The abstract store holds every allocated object under an identity of its own
('cell', n, type); the contents of standard containers are sequences of
abstract values of a given length ("shape"), and iterators are positions in
them.  Element values are unconstrained terms.  Standard algorithms are given
their specified meaning on iterator ranges, so a hand-written loop and the
corresponding algorithm have the same abstract effect.
"""
from .interp import *
from .interp import Interp, LV, NULL, I, is_int, Stop, bare, Throw, Break, Continue, is_ref, UNSPEC, UNDEF
from .kernel import Kernel, tn, NS, PAIR

CONTAINERS = ('std::vector<', 'std::deque<', 'std::basic_string<', 'std::__cxx11::basic_string<', 'std::valarray<', 'std::array<', 'std::initializer_list<', 'std::list<', 'std::basic_string_view<')
CLASSES = ('std::vector', 'std::deque', 'std::basic_string', 'std::valarray', 'std::array', 'std::initializer_list', 'std::basic_string_view')
FUNCTORS = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}


def is_container_type(t):
    return bare(t).startswith(CONTAINERS)


class Oob(Stop):
    pass


class Heap(Kernel):
    max_recur = 14
    max_paths = 4000
    max_unroll = 12
    max_depth = 200

    def reset(self):
        super().reset()
        self.types = {}
        self.ncell = 0
        self.oob = []
        self.setup()

    def setup(self):
        pass

    def global_value(self, k):
        g = self.F.vars.get(k[1])
        if g:
            v = g['v']
            init = v.get('init')
            if bare(v['t']) == NS + 'object' and v['t'].startswith('const') and isinstance(init, dict) and init.get('k') == 'call' and init.get('q') == 'meevax::make':
                t = tn((init.get('ta') or ['?'])[0])
                if t in ('bool', 'int', 'float', 'double', 'character', 'instruction'):
                    return self.rv(self.ev(init))
                self.types[k] = t
                return k
        return super().global_value(k)

    # ---- objects --------------------------------------------------------------
    def new_cell(self, t):
        self.ncell += 1
        c = ('cell', self.ncell, t)
        return c

    def obj(self, name, t):
        """An object of the environment with known type."""
        v = ('v', name)
        self.types[v] = t
        return v

    def pair(self, name, a, d):
        v = self.obj(name, 'pair')
        self.store[('car', v)] = a
        self.store[('cdr', v)] = d
        return v

    def list(self, name, xs, end=NULL):
        r = end
        for i in range(len(xs) - 1, -1, -1):
            r = self.pair('%s.%d' % (name, i), xs[i], r)
        return r

    def seq_obj(self, name, t, field, elems):
        v = self.obj(name, t)
        self.store[('mem', ('as', t, v), field)] = ('seq', tuple(elems))
        return v

    def dyntype(self, x):
        if isinstance(x, tuple) and x:
            if x in self.types:
                return self.types[x]
            if x[0] == 'cell':
                return x[2]
            if x == NULL:
                return 'null'
            if x[0] == 'cons':
                return 'pair'
            if x[0] in ('make', 'imm'):
                return tn(x[1])
        return None

    def heap_term(self, x):
        t = self.dyntype(x)
        if t is None:
            return super().heap_term(x)
        if t in ('null', 'bool', 'int', 'float', 'character', 'instruction', 'heap-double'):
            return False
        if t == 'double':
            return False
        return True

    def type_is(self, t, x):
        d = self.dyntype(x)
        if d is None:
            return None
        if d == 'null':
            return t in ('std::nullptr_t', 'nullptr_t')
        return t == d

    def is_also(self, x, t, n):
        d = self.dyntype(x)
        if d is not None:
            if d in ('null', 'bool', 'int', 'float', 'double', 'character', 'instruction'):
                return I(0)
            return I(int(self.derives(NS + d, t)))
        return super().is_also(x, t, n)

    def as_(self, x, t, n):
        d = self.dyntype(x)
        if t == 'pair':
            if d is not None and not (d == 'pair' or self.heap_term(x)):
                self.oob.append(('pair of ' + d, n))
                raise Stop('not a pair')
            return LV(('pairof', x))
        if t in ('bool', 'int', 'float', 'double', 'character', 'instruction'):
            if isinstance(x, tuple) and x and x[0] == 'imm' and tn(x[1]) == t:
                return x[2]
            return ('as', t, x)
        if d is not None and d != t:
            if d in ('null', 'bool', 'int', 'float', 'double', 'character', 'instruction') or not self.derives(NS + d, t):
                raise Throw('std::runtime_error', ('conversion', d, t), n)
            return LV(('as', d, x))
        return LV(('as', t, x))

    def make(self, t, vals, node):
        t = tn(t)
        if t in ('bool', 'int', 'float', 'double', 'character', 'instruction'):
            return ('imm', t, vals[0] if vals else ('zero', t))
        self.on_alloc(node)
        if t == 'pair':
            vals = [self.as_object(v) for v in vals]
            c = self.new_cell('pair')
            self.store[('car', c)] = vals[0] if vals else NULL
            self.store[('cdr', c)] = vals[1] if len(vals) > 1 else NULL
            return c
        return None

    def cell(self, key, which):
        k = key
        if k[0] == 'pairof':
            return LV((which, k[1]))
        if k[0] == 'as':
            return LV((which, k[2]))
        if k[0] == 'tmpobj' and tn(k[2]) in ('pair', 'complex'):
            return LV(('mem', k, 'first' if which == 'car' else 'second'))
        return None

    def make_object(self, n, fn, t, args):
        """make<T>(args) for a class T: runs the constructor found in the body of make."""
        self.on_alloc(n)
        short = tn(t)
        c = self.new_cell(short)
        ctor = self.find_new_ctor(fn)
        if ctor is None:
            return None
        self.call_fn(ctor, LV(('as', short, c)), args, n)
        return c

    def find_new_ctor(self, fn):
        if fn is None:
            return None
        cache = self.F.__dict__.setdefault('_newctor', {})
        if fn['key'] not in cache:
            r = None
            todo = [fn['body']]
            while todo and r is None:
                x = todo.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'new' and isinstance(x.get('init'), dict) and x['init'].get('k') == 'ctor':
                        r = self.F.fns.get(x['init']['f'])
                    todo += list(x.values())
                elif isinstance(x, (list, tuple)):
                    todo += list(x)
            cache[fn['key']] = r
        return cache[fn['key']]

    def run_inits(self, fn, this):
        tk = this.key if isinstance(this, LV) else this
        for i in fn['inits']:
            if 'member' in i:
                lv = LV(('mem', tk, i['member']))
                if i['member'] in ('first', 'second'):
                    c = self.cell(tk, 'car' if i['member'] == 'first' else 'cdr')
                    lv = c or lv
                self.init_storage(lv, i['init'], None)
            else:
                n = i['init']
                if self.in_base == tk and i.get('base') == 'meevax::kernel::pair':
                    continue      # a virtual base is initialised by the most derived class only
                outer = self.in_base
                if i.get('base') not in (None, 'meevax::kernel::pair'):
                    self.in_base = tk
                try:
                    if n and n['k'] == 'ctor':
                        self.base_ctor(n, LV(tk))
                    elif n and n['k'] == 'ictor':
                        self.inherited_ctor(n, LV(tk))
                    elif n:
                        self.ev(n)
                finally:
                    self.in_base = outer

    in_base = None

    def inherited_ctor(self, n, lv):
        """A constructor inherited from a base gets the arguments of this one."""
        fr = self.frames[-1]
        args = [fr['vars'][p['d']] for p in fr['fn']['params']]
        fn = self.F.fns.get(n['f'])
        if fn is None:
            raise Stop('inherited constructor')
        self.call_fn(fn, lv, args, n)

    def base_ctor(self, n, lv):
        if n.get('q', '').startswith('std::pair') and self.cell(lv.key, 'car') is not None:
            vals = [self.as_object(self.ev(a)) for a in n['a']]
            if len(vals) == 1:   # copy of a pair
                v = self.ev(n['a'][0])
                if isinstance(v, LV):
                    a = self.cell(v.key, 'car')
                    if a is not None:
                        vals = [self.rv(a), self.rv(self.cell(v.key, 'cdr'))]
                    else:
                        x = self.copy_value(v)
                        d = dict(x[2]) if isinstance(x, tuple) and x and x[0] == 'struct' else {}
                        if 'first' in d and 'second' in d:
                            vals = [d['first'], d['second']]
            if len(vals) == 2:
                self.store[self.cell(lv.key, 'car').key] = vals[0]
                self.store[self.cell(lv.key, 'cdr').key] = vals[1]
                return
        self.construct(n, lv)

    # ---- containers ---------------------------------------------------------
    def seq_of(self, v):
        """(key, elements) of the container denoted by v, or None."""
        if isinstance(v, LV):
            s = self.rv(v)
            if isinstance(s, tuple) and s and s[0] == 'seq':
                return v.key, s[1]
            if isinstance(s, tuple) and s and s[0] == 'str':
                return s, tuple(I(b) for b in s[1].encode('utf-8', 'surrogateescape'))
            return None
        if isinstance(v, tuple) and v and v[0] == 'seq':
            return v, v[1]
        if isinstance(v, tuple) and v and v[0] == 'array':
            return ('seq', v[1]), v[1]
        return None

    def elems(self, key):
        s = self.store.get(key, key)
        if isinstance(s, tuple) and s and s[0] in ('seq', 'array'):
            return s[1]
        if isinstance(s, tuple) and s and s[0] == 'str':
            return tuple(I(b) for b in s[1].encode('utf-8', 'surrogateescape'))
        return None

    def set_elems(self, key, xs):
        if key[0] == 'seq':
            return
        self.store[key] = ('seq', tuple(xs))
        self.on_store(key, self.store[key], None)

    def out_of_bounds(self, what, node):
        self.oob.append((what, node))
        raise Oob('out of bounds')

    def load(self, lv):
        k = lv.key
        if k[0] == 'idx' and k not in self.store:
            xs = self.elems(k[1])
            if xs is not None and is_int(k[2]):
                if not 0 <= k[2][1] < len(xs):
                    self.out_of_bounds('index %d of a sequence of length %d' % (k[2][1], len(xs)), None)
                return xs[k[2][1]]
        if k[0] == 'mem' and k not in self.store and isinstance(k[1], tuple) and k[1] and k[1][0] == 'idx':
            x = self.load(LV(k[1]))
            if isinstance(x, tuple) and x and x[0] == 'struct':
                for f, v in x[2]:
                    if f == k[2]:
                        return v
            elif self.elem_is_character(x):
                return self.simplify(('mem', x, k[2]))
        return super().load(lv)

    def assign(self, lv, value, node=None):
        if isinstance(lv, LV):
            k = lv.key
            if k[0] == 'mem' and k[2] == 'codepoint' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'idx' and self.elems(k[1][1]) is not None:
                v = self.rv(value)
                if isinstance(v, tuple) and v and v[0] == 'mem' and v[2] == 'codepoint':
                    v = v[1]
                else:
                    v = ('struct', ('make', 'meevax::kernel::character'), (('codepoint', v),))
                return self.assign(LV(k[1]), v, node)
            if k[0] == 'idx' and is_int(k[2]):
                xs = self.elems(k[1])
                if xs is not None:
                    i = k[2][1]
                    if not 0 <= i < len(xs):
                        self.out_of_bounds('write to index %d of a sequence of length %d' % (i, len(xs)), node)
                    xs = list(xs)
                    xs[i] = self.copy_value(value) if isinstance(value, LV) else value
                    self.set_elems(k[1], xs)
                    return
        super().assign(lv, value, node)

    # ---- iterators ----------------------------------------------------------
    def it_value(self, v):
        """Normalises an iterator value."""
        if isinstance(v, LV):
            r = self.rv(v)
            if isinstance(r, tuple) and r and r[0] in ('it', 'rit', 'binserter', 'addr'):
                return r
            return v
        return v

    def tree_class(self, v):
        """Class name of a struct value or lvalue of the analysed tree."""
        for x in ((v.key if isinstance(v, LV) else None), self.rv(v)):
            if isinstance(x, tuple) and x:
                if x[0] == 'struct':
                    x = x[1]
                if isinstance(x, tuple) and x and x[0] in ('tmpobj',):
                    return x[2]
                if isinstance(x, tuple) and x and x[0] == 'make':
                    return x[1]
                if isinstance(x, tuple) and x and x[0] == 'zero':
                    return x[1]
        return None

    def method(self, cls, name, nparams):
        c = bare(cls)
        for f in self.F.by_cls().get(c, ()):
            if f['q'].rsplit('::', 1)[-1] == name and len(f['params']) == nparams and f.get('body') is not None:
                return f
        return None

    def deref_it(self, v, node=None):
        v = self.it_value(v)
        if isinstance(v, tuple) and v:
            if v[0] == 'it':
                return self.element(v[1], v[2], node)
            if v[0] == 'rit':
                return self.element(v[1], v[2] - 1, node)
            if v[0] == 'addr':
                return LV(v[1])
        cls = self.tree_class(v)
        if cls:
            f = self.method(cls, 'operator*', 0)
            if f:
                return self.call_fn(f, self.as_lv(v), [], node)
        return ('deref', self.rv(v))

    def element(self, key, i, node=None):
        xs = self.elems(key)
        if xs is not None and not 0 <= i < len(xs):
            self.out_of_bounds('position %d of a sequence of length %d' % (i, len(xs)), node)
        if key[0] in ('seq', 'str'):
            t = LV(('elemtmp', key, I(i)))
            self.store[t.key] = xs[i]
            return t
        return LV(('idx', key, I(i)))

    def as_lv(self, v):
        if isinstance(v, LV):
            return v
        lv = LV(('tmpobj', self.new_frame(), self.tree_class(v) or '?'))
        self.store[lv.key] = v
        return lv

    def step_it(self, v, k, node=None):
        """Value of the iterator k steps on (a new value)."""
        v = self.it_value(v)
        if isinstance(v, tuple) and v:
            if v[0] == 'it':
                return ('it', v[1], v[2] + k)
            if v[0] == 'rit':
                return ('rit', v[1], v[2] - k)
            if v[0] == 'addr' and v[1][0] == 'idx' and is_int(v[1][2]):
                return ('addr', ('idx', v[1][1], I(v[1][2][1] + k)))
        cls = self.tree_class(v)
        if cls:
            lv = LV(('tmpobj', self.new_frame(), bare(cls)))
            self.store[lv.key] = self.copy_value(v)
            f = self.method(cls, 'operator++' if k >= 0 else 'operator--', 0)
            if f:
                for _ in range(abs(k)):
                    self.call_fn(f, lv, [], node)
                return lv
        raise Stop('iterator step')

    def it_eq(self, a, b, node=None):
        a, b = self.it_value(a), self.it_value(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] in ('it', 'rit', 'addr') and a[0] == b[0]:
                return I(int(a == b))
        if not self.tree_class(a) or 'sentinel' in str(self.tree_class(a)):
            a, b = b, a
        ca, cb = self.tree_class(a), self.tree_class(b)
        if ca:
            na = self.rv(self.member(self.as_lv(a), {'n': 'node'}))
            if cb is None or 'sentinel' in str(cb):
                return self.binop('==', na, NULL, 'bool')
            nb = self.rv(self.member(self.as_lv(b), {'n': 'node'}))
            return self.binop('==', na, nb, 'bool')
        return self.binop('==', self.rv(a), self.rv(b), 'bool')

    def range_of(self, v, node=None):
        """(first, last) of a range."""
        s = self.seq_of(v)
        if s:
            return ('it', s[0], 0), ('it', s[0], len(s[1]))
        cls = self.tree_class(v)
        if cls:
            b, e = self.method(cls, 'begin', 0), self.method(cls, 'end', 0)
            if b:
                lv = self.as_lv(v)
                first = self.call_fn(b, lv, [], node)
                last = self.call_fn(e, lv, [], node) if e else ('make', 'std::default_sentinel_t')
                return first, last
        return None

    def iterate(self, first, last, node=None):
        """Yields element lvalues/values of [first, last)."""
        cur = first
        n = 0
        f = self.it_value(first)
        l = self.it_value(last)
        if isinstance(f, tuple) and isinstance(l, tuple) and f and l and f[0] == l[0] and f[0] in ('it', 'rit'):
            d = (l[2] - f[2]) if f[0] == 'it' else (f[2] - l[2])
            if d < 0:
                self.out_of_bounds('range whose end precedes its beginning', node)
        while not self.decide(self.it_eq(cur, last, node), node):
            n += 1
            if n > self.max_unroll:
                raise Stop('loop bound')
            yield cur
            cur = self.step_it(cur, 1, node)
        self.past = cur

    def invoke(self, f, args, node=None):
        fv = self.rv(f)
        if isinstance(fv, tuple) and fv:
            if fv[0] == 'lambda' and fv in self.lambdas:
                ops = [self.F.fns[o] for o in self.lambdas[fv][0] if o in self.F.fns]
                ops = [o for o in ops if len(o['params']) == len(args)] or ops
                if ops:
                    return self.call_fn(self.pick(ops, args), None, args, node, self.lambdas[fv][1])
            if fv[0] == 'fn':
                fn = self.F.fns.get(fv[1])
                h = self.call_hook({'k': 'call', 'q': fv[2], 'f': fv[1], 'a': [], 't': fn['rt'] if fn else '?', 'l': 0}, fv[2], fn, None, [{'t': ''}] * len(args), lambda i: args[i])
                if h is not None:
                    return h
                if fn:
                    return self.call_fn(fn, None, args, node)
                return self.simplify(('call', fv[2]) + tuple(self.rv(a) for a in args))
            t = None
            if fv[0] in ('make', 'zero', 'tmpobj'):
                t = fv[-1] if fv[0] == 'tmpobj' else fv[1]
            elif fv[0] == 'struct':
                t = self.tree_class(fv)
            elif fv[0] == 'global':
                g = self.F.vars.get(fv[1])
                t = g['v']['t'] if g else None
            if t:
                t = bare(t)
                if t.startswith('std::'):
                    nm = t[5:].split('<')[0]
                    if nm in FUNCTORS and len(args) == 2:
                        return self.functor(FUNCTORS[nm], args, node)
                    if nm in ('identity',):
                        return args[0]
                fs = [x for x in self.F.by_cls().get(t, ()) if x['q'].endswith('::operator()') and len(x['params']) == len(args) and x.get('body') is not None]
                if fs:
                    return self.call_fn(self.pick(fs, args), self.as_lv(f), args, node)
        return self.simplify(('invoke', fv) + tuple(self.rv(a) for a in args))

    def pick(self, ops, args):
        """Among instantiations of one template, the one whose parameter constness fits best."""
        if len(ops) == 1:
            return ops[0]
        return ops[0]

    def functor(self, op, args, node):
        fs = [f for f in self.F.by_q.get('meevax::operator' + op, ()) if [bare(p['t']) for p in f['params']] == [NS + 'object', NS + 'object']]
        if fs:
            h = self.call_hook({'k': 'call', 'q': fs[0]['q'], 'f': fs[0]['key'], 'a': [], 't': fs[0]['rt'], 'l': 0}, fs[0]['q'], fs[0], None, [{'t': ''}] * 2, lambda i: args[i])
            if h is not None:
                return h
            return self.call_fn(fs[0], None, args, node)
        return self.binop(op, self.rv(args[0]), self.rv(args[1]), 'int')

    # ---- hooks ------------------------------------------------------------------
    def decide(self, term, node=None):
        term = self.rv(term)
        t = term
        neg = False
        while isinstance(t, tuple) and t and t[0] in ('not', 'tobool'):
            if t[0] == 'not':
                neg = not neg
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == 'addr' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'pairof':
            return super().decide(self.truthy(t[1][1]), node) != neg
        return super().decide(term, node)

    def binop(self, op, a, b, t, n=None):
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x and x[0] == 'addr' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'pairof':
                    o = x[1][1]
                    if y == NULL:
                        v = self.truthy(o)
                        if op == '==':
                            return I(int(not v[1])) if is_int(v) else ('not', v)
                        return v
                    if isinstance(y, tuple) and y and y[0] == 'addr' and isinstance(y[1], tuple) and y[1] and y[1][0] == 'pairof':
                        return self.obj_eq(o, y[1][1], op == '!=')
                    if isinstance(y, tuple) and y and y[0] == 'addr' and isinstance(y[1], tuple) and y[1] and y[1][0] == 'as':
                        return self.obj_eq(o, y[1][2], op == '!=')
            if all(isinstance(x, tuple) and len(x) == 2 and x[0] == 'addr' and isinstance(x[1], tuple) and len(x[1]) == 3 and x[1][0] == 'as' for x in (a, b)):
                return self.obj_eq(a[1][2], b[1][2], op == '!=')
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ('it', 'rit') and b[0] == a[0]:
                return I(int((a == b) == (op == '==')))
        if isinstance(a, tuple) and a and a[0] in ('it', 'rit'):
            if op in ('+', '-') and is_int(b):
                return self.step_it(a, b[1] if op == '+' else -b[1])
            if op == '-' and isinstance(b, tuple) and b and b[0] == a[0] and a[1] == b[1]:
                return I(a[2] - b[2] if a[0] == 'it' else b[2] - a[2])
        return super().binop(op, a, b, t, n)

    def obj_eq(self, a, b, ne):
        if a != b:
            ta, tb = self.dyntype(a), self.dyntype(b)
            ka = isinstance(a, tuple) and a and a[0] in ('cell',) or a in self.types
            kb = isinstance(b, tuple) and b and b[0] in ('cell',) or b in self.types
            if ka and kb and self.distinct_objects:
                return I(int(ne))
            if ta and tb and ta != tb:
                return I(int(ne))
        return super().obj_eq(a, b, ne)

    distinct_objects = True

    VIRTUAL = ('meevax::pair::eqv', 'meevax::pair::type', 'meevax::pair::write')

    def override(self, q, d):
        """The function a virtual call of q on an object of type d reaches."""
        if d == 'pair':
            fs = self.F.by_q.get(q, ())
        else:
            c = 'meevax::kernel::binder<meevax::kernel::%s,' % d
            fs = [f for f in self.F.by_q.get('meevax::binder::' + q.rsplit('::', 1)[-1], ()) if f.get('cls', '').startswith(c)]
        return fs[0] if fs else None

    def object_of(self, v):
        """The object a pointer to or reference of (a part of) it denotes."""
        k = v.key if isinstance(v, LV) else v
        if isinstance(k, tuple) and k and k[0] == 'addr':
            k = k[1]
        if isinstance(k, tuple) and k and k[0] == 'pairof':
            return k[1]
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'as':
            return k[2]
        return None

    def dyn_cast(self, n, v):
        v = self.rv(v)
        if v == NULL:
            return NULL
        o = self.object_of(v)
        d = self.dyntype(o) if o is not None else None
        if d is not None:
            t = tn(bare(n['t'].replace('*', ' ')))
            if t == 'pair' and self.heap_term(o):
                return ('addr', ('pairof', o))
            return ('addr', ('as', d, o)) if d == t or self.derives(NS + d, t) else NULL
        return super().dyn_cast(n, v)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q in self.VIRTUAL and n.get('virt') and not n.get('qualified') and obj is not None:
            o = self.object_of(obj)
            d = self.dyntype(o) if o is not None else None
            if d is not None:
                f = self.override(q, d)
                if f is not None and self.can_inline(f):
                    return self.call_fn(f, LV(('pairof', o)) if d == 'pair' else LV(('as', d, o)), [ev(i) for i in range(len(args))], n)
        if q == 'std::operator==' and len(args) == 2 and obj is None:
            ks = [v.key if isinstance(v, LV) else None for v in (ev(0), ev(1))]
            cs = [[self.cell(k, w) for w in ('car', 'cdr')] if k is not None else [None] for k in ks]
            if all(all(c is not None for c in x) for x in cs):
                for a, b in zip(*cs):
                    if not self.decide(self.obj_eq(self.load(a), self.load(b), False)):
                        return I(0)
                return I(1)
        if q == 'meevax::make':
            ta = n.get('ta') or ['?']
            t = tn(ta[0])
            if t in ('bool', 'int', 'float', 'double', 'character', 'instruction', 'pair'):
                return self.make(t, [self.arg_value(ev(i)) for i in range(len(args))], n)
            h = self.make_hook(n, t, args, ev)
            if h is not None:
                return h
            return self.make_object(n, fn, t, [ev(i) for i in range(len(args))])
        if q and q.startswith('meevax::nan_boxing_pointer::') and obj is not None:
            m = q[len('meevax::nan_boxing_pointer::'):]
            if m in ('get', 'unsafe_get', 'operator->'):
                x = self.rv(obj)
                if x == NULL or (isinstance(x, tuple) and x and x[0] == 'imm'):
                    return NULL
        if n.get('triv') and n.get('op') == '=' and len(args) == 1 and isinstance(obj, LV):
            self.assign(obj, self.copy_value(ev(0)), n)
            return obj
        if q == 'meevax::exact_integer_cast' and len(args) == 1:
            x = self.rv(ev(0))
            if isinstance(x, tuple) and x and x[0] == 'imm' and is_int(x[2]):
                ta = bare((n.get('ta') or ['long'])[0])
                if ta in INT_TYPES:
                    bits, signed = INT_TYPES[ta]
                    v = x[2][1] % (1 << bits)
                    return I(v - (1 << bits) if signed and v >> (bits - 1) else v)
                return x[2]
            return ('as', 'int', x)
        return super().call_hook(n, q, fn, obj, args, ev)

    def make_hook(self, n, t, args, ev):
        return None

    def ctor_hook(self, n, cls, args, ev):
        t = bare(n['t'])
        if t.startswith(('std::unordered_map<', 'std::map<')) and not [a for a in args if a.get('k') != 'defarg']:
            return ('assoc', ())
        if is_container_type(t):
            h = self.container_ctor(n, t, args, ev)
            if h is not None:
                return h
        if (t.startswith('std::reverse_iterator') or t.startswith('__gnu_cxx::__normal_iterator')) and len(args) == 1:
            v = self.it_value(ev(0))
            if isinstance(v, tuple) and v and v[0] in ('it', 'rit'):
                return v
        if t == 'std::slice' and len(args) == 3:
            return ('slice',) + tuple(self.rv(ev(i)) for i in range(3))
        if t.startswith('std::optional'):
            if not args:
                return ('opt',)
            v = self.copy_value(ev(0))
            if isinstance(v, tuple) and v and v[0] == 'opt':
                return v
            return ('opt',) if isinstance(v, tuple) and v and (v == ('nullopt',) or (v[0] in ('global', 'make') and 'nullopt' in str(v[1]))) else ('opt', v)
        return super().ctor_hook(n, cls, args, ev)

    def container_ctor(self, n, t, args, ev):
        if not args:
            return ('seq', ())
        vs = [self.it_value(ev(i)) for i in range(len(args))]
        pt = [bare(a.get('t', '')) for a in args]
        val = t.startswith('std::valarray<')
        if len(vs) >= 2 and all(isinstance(v, tuple) and v and v[0] in ('it', 'rit') for v in vs[:2]):
            return ('seq', tuple(self.copy_value(self.deref_it(c, n)) for c in self.iterate(vs[0], vs[1], n)))
        s = self.seq_of(vs[0])
        if s and (len(vs) == 1 or len(args) == 2 and 'allocator' in pt[1]):
            return ('seq', tuple(s[1]))
        v0 = self.rv(vs[0])
        if isinstance(v0, tuple) and v0 and v0[0] == 'slicearr':
            xs = self.elems(v0[1])
            return ('seq', tuple(self.slice_elems(v0, xs, n)))
        if isinstance(v0, tuple) and v0 and v0[0] in ('init', 'array') and len(vs) == 1:
            return ('seq', tuple(v0[2:] if v0[0] == 'init' else v0[1]))
        if val and len(vs) == 2:
            v0, k = self.rv(vs[0]), self.rv(vs[1])
            if isinstance(v0, tuple) and v0 and v0[0] == 'addr':
                base = v0[1]
                if base[0] == 'idx' and is_int(base[2]) and is_int(k):
                    xs = self.elems(base[1])
                    if xs is not None:
                        return ('seq', tuple(xs[base[2][1]:base[2][1] + k[1]]))
                return None
            if is_int(k):
                return ('seq', (self.copy_value(vs[0]),) * k[1])
            return None
        if t.startswith(('std::vector<', 'std::deque<', 'std::valarray<')):
            k = self.rv(vs[0])
            if is_int(k) and pt[0] in INT_TYPES and 0 <= k[1] < 100:
                fill = self.copy_value(vs[1]) if len(vs) > 1 and 'allocator' not in pt[1] else ('zeroelem',)
                return ('seq', (fill,) * k[1])
        return None

    def slice_elems(self, v, xs, node):
        _, key, (_, start, size, stride) = v
        if not (is_int(start) and is_int(size) and is_int(stride)):
            raise Stop('slice')
        n = wrap64(size[1])
        out = []
        if n > 1000:
            self.out_of_bounds('slice of size %d' % size[1], node)
        for i in range(n):
            p = start[1] + i * stride[1]
            if not 0 <= p < len(xs):
                self.out_of_bounds('slice position %d of a sequence of length %d' % (p, len(xs)), node)
            out.append(xs[p])
        return out

    def intval(self, v):
        v = self.strip_cast(self.rv(v))
        return v[1] if is_int(v) else None

    def std_call(self, n, q, obj, args, ev):
        if q in self.IDENTITY and len(args) == 1:
            return ev(0)
        if q:
            h = self.container_call(n, q, obj, args, ev)
            if h is not None:
                return h
            h = self.iterator_call(n, q, obj, args, ev)
            if h is not None:
                return h
            if q == 'std::exchange':
                h = self.algorithm_exchange(n, args, ev)
                if h is not None:
                    return h
            h = self.algorithm(n, q, obj, args, ev)
            if h is not None:
                return h
        return super().std_call(n, q, obj, args, ev)

    # ---- associative containers: ('assoc', n); entry i is ('mem', ('entry', key, i), 'first'/'second')
    MAPS = ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set')

    def assoc_find(self, key, x):
        kind, order = self.store.get(key, ('assoc', ()))
        for i in order:
            y = self.load(LV(('mem', ('entry', key, i), 'first')))
            if self.decide(self.key_eq(x, y)):
                return i
        return None

    def key_eq(self, x, y):
        return self.obj_eq(x, y, False)

    def assoc_call(self, m, key, n, args, ev):
        v = self.store.get(key)
        if v is None or v[0] != 'assoc':
            return None
        order = v[1]
        if m in ('size', 'empty'):
            return I(len(order) if m == 'size' else int(not order))
        if m in ('begin', 'cbegin'):
            return ('ait', key, order[0] if order else None)
        if m in ('end', 'cend'):
            return ('ait', key, None)
        if m == 'clear':
            self.store[key] = ('assoc', ())
            return I(0)
        if m in ('find', 'contains', 'count', 'at') and len(args) == 1:
            i = self.assoc_find(key, self.copy_value(ev(0)))
            if m == 'at':
                if i is None:
                    raise Throw('std::out_of_range', None, n)
                return LV(('mem', ('entry', key, i), 'second'))
            return ('ait', key, i) if m == 'find' else I(int(i is not None))
        if m == 'erase' and len(args) == 1:
            x = self.copy_value(ev(0))
            i = x[2] if isinstance(x, tuple) and x and x[0] == 'ait' else self.assoc_find(key, x)
            self.store[key] = ('assoc', tuple(j for j in order if j != i))
            return I(int(i is not None))
        if m in ('emplace', 'try_emplace', 'insert_or_assign', 'operator[]') and args:
            x = self.copy_value(ev(0))
            val = self.copy_value(ev(1)) if len(args) > 1 else NULL
            i = self.assoc_find(key, x)
            new = i is None
            if new:
                i = max(order, default=-1) + 1
                self.store[key] = ('assoc', order + (i,))
                self.store[('mem', ('entry', key, i), 'first')] = x
            if new or m == 'insert_or_assign':
                self.store[('mem', ('entry', key, i), 'second')] = val
            if m == 'operator[]':
                return LV(('mem', ('entry', key, i), 'second'))
            return ('struct', ('make', 'pair'), (('first', ('ait', key, i)), ('second', I(int(new)))))
        return None

    def container_call(self, n, q, obj, args, ev):
        cls, _, m = q.rpartition('::')
        if cls in self.MAPS and isinstance(obj, LV):
            return self.assoc_call(m, obj.key, n, args, ev)
        if q.startswith('std::__detail::_Node_') and obj is not None and n.get('op') in ('->', '*') and not args:
            x = self.rv(obj)
            if isinstance(x, tuple) and x and x[0] == 'ait':
                if x[2] is None:
                    self.out_of_bounds('dereference of the end of a map', n)
                return LV(('entry', x[1], x[2])) if n['op'] == '*' else ('addr', ('entry', x[1], x[2]))
        if q in ('std::__detail::operator==', 'std::__detail::operator!=') and len(args) == 2:
            x, y = self.rv(ev(0)), self.rv(ev(1))
            if all(isinstance(z, tuple) and z and z[0] == 'ait' for z in (x, y)):
                return I(int((x == y) == q.endswith('==')))
        if cls in CLASSES and obj is not None:
            s = self.seq_of(obj)
            if s is None:
                return None
            key, xs = s
            ne = len(xs)
            if m in ('size', 'length'):
                return I(ne)
            if m == 'empty':
                return I(int(ne == 0))
            if m in ('begin', 'cbegin'):
                return ('it', key, 0)
            if m in ('end', 'cend'):
                return ('it', key, ne)
            if m in ('rbegin', 'crbegin'):
                return ('rit', key, ne)
            if m in ('rend', 'crend'):
                return ('rit', key, 0)
            if m in ('reserve', 'shrink_to_fit'):
                return UNSPEC
            if m == 'capacity':
                return ('v', 'capacity')
            if m in ('data', 'c_str'):
                return ('addr', ('idx', key, I(0)))
            if m == 'at':
                i = self.intval(ev(0))
                if i is None:
                    return None
                if not 0 <= i < ne:
                    raise Throw('std::out_of_range', UNSPEC, n)
                return self.element(key, i, n)
            if m == 'operator[]':
                a = self.rv(ev(0))
                if isinstance(a, tuple) and a and a[0] == 'slice':
                    return ('slicearr', key, a)
                i = self.intval(a)
                if i is None:
                    return None
                if cls in ('std::basic_string', 'std::basic_string_view') and i == ne:
                    return I(0)
                return self.element(key, i, n)
            if m in ('front', 'back'):
                if not ne:
                    self.out_of_bounds(m + ' of an empty sequence', n)
                return self.element(key, 0 if m == 'front' else ne - 1, n)
            if m in ('push_back', 'emplace_back'):
                v = self.copy_value(ev(0)) if args else ('zeroelem',)
                self.set_elems(key, xs + (v,))
                return UNSPEC
            if m in ('push_front', 'emplace_front'):
                self.set_elems(key, (self.copy_value(ev(0)),) + xs)
                return UNSPEC
            if m == 'pop_back':
                self.set_elems(key, xs[:-1])
                return UNSPEC
            if m == 'clear':
                self.set_elems(key, ())
                return UNSPEC
            if m == 'resize':
                k = self.intval(ev(0))
                if k is None:
                    return None
                fill = self.copy_value(ev(1)) if len(args) > 1 else ('zeroelem',)
                self.set_elems(key, xs[:k] + (fill,) * (k - ne))
                return UNSPEC
            if m in ('append', 'assign', 'operator+=', 'operator=') and cls not in ('std::valarray',):
                vs = [self.it_value(ev(i)) for i in range(len(args))]
                add = None
                if len(vs) == 1:
                    s2 = self.seq_of(vs[0])
                    if s2:
                        add = s2[1]
                    elif m == 'operator+=' and bare(args[0].get('t', '')) == 'char':
                        add = (self.rv(vs[0]),)
                elif len(vs) == 2 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] in ('it', 'rit'):
                    add = tuple(self.copy_value(self.deref_it(c, n)) for c in self.iterate(vs[0], vs[1], n))
                elif len(vs) == 2 and self.intval(vs[0]) is not None and not self.seq_of(vs[1]):
                    add = (self.copy_value(vs[1]),) * self.intval(vs[0])
                if add is None:
                    return None
                self.set_elems(key, add if m in ('assign', 'operator=') else xs + tuple(add))
                return obj
            if m == 'operator=' and cls == 'std::valarray':
                s2 = self.seq_of(ev(0))
                if s2 is None:
                    return None
                self.set_elems(key, s2[1])
                return obj
            if m in ('insert',):
                vs = [self.it_value(ev(i)) for i in range(len(args))]
                if isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'it':
                    p = vs[0][2]
                    if len(vs) == 3 and isinstance(vs[1], tuple) and vs[1] and vs[1][0] in ('it', 'rit'):
                        add = tuple(self.copy_value(self.deref_it(c, n)) for c in self.iterate(vs[1], vs[2], n))
                    elif len(vs) == 2:
                        add = (self.copy_value(vs[1]),)
                    elif len(vs) == 3 and self.intval(vs[1]) is not None:
                        add = (self.copy_value(vs[2]),) * self.intval(vs[1])
                    else:
                        return None
                    self.set_elems(key, xs[:p] + add + xs[p:])
                    return ('it', key, p)
                return None
            if m == 'erase':
                vs = [self.it_value(ev(i)) for i in range(len(args))]
                if all(isinstance(v, tuple) and v and v[0] == 'it' for v in vs):
                    a = vs[0][2]
                    b = vs[1][2] if len(vs) > 1 else a + 1
                    if not 0 <= a <= b <= ne:
                        self.out_of_bounds('erase', n)
                    self.set_elems(key, xs[:a] + xs[b:])
                    return ('it', key, a)
                return None
            if m in ('substr', 'subview'):
                a = self.intval(ev(0)) if args else 0
                b = self.intval(ev(1)) if len(args) > 1 else ne
                if a is None or b is None:
                    return None
                if a > ne:
                    raise Throw('std::out_of_range', UNSPEC, n)
                return ('seq', xs[a:a + b])
        if q == 'std::slice_array::operator=' and obj is not None:
            v = self.rv(obj)
            if isinstance(v, tuple) and v and v[0] == 'slicearr':
                src = self.rv(ev(0))
                if isinstance(src, tuple) and src and src[0] == 'slicearr':
                    vals = self.slice_elems(src, self.elems(src[1]), n)
                    overlap = src[1] == v[1]
                else:
                    s2 = self.seq_of(ev(0))
                    if s2 is None:
                        return None
                    vals = list(s2[1])
                    overlap = False
                xs = list(self.elems(v[1]))
                dst = self.slice_elems(v, tuple(range(len(xs))), n)
                if len(vals) < len(dst):
                    self.out_of_bounds('slice assignment from a shorter sequence', n)
                for d, x in zip(dst, vals):
                    xs[d] = x
                self.set_elems(v[1], xs)
                return obj
        if q == 'std::operator<=>' and len(args) == 2 and obj is None:
            a, b = self.seq_of(ev(0)), self.seq_of(ev(1))
            if a and b:
                if self.seq_compare('<', a[1], b[1], n) == I(1):
                    return I(-1)
                return I(int(self.seq_compare('>', a[1], b[1], n) == I(1)))
            return None
        if q in ('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', 'std::operator==', 'std::operator!=') and len(args) == 2 and obj is None and '__cmp_cat::__unspec' in args[1].get('t', '') + args[0].get('t', ''):
            first = '__unspec' in args[0].get('t', '')
            v = self.rv(ev(1 if first else 0))
            if is_int(v):
                a, b = (0, v[1]) if first else (v[1], 0)
                return I(int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[q[len('std::operator'):]]))
            return None
        if q in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=') and len(args) == 2 and obj is None:
            a, b = self.seq_of(ev(0)), self.seq_of(ev(1))
            if a and b:
                op = q[len('std::operator'):]
                if 'valarray' in args[0].get('t', ''):
                    if len(a[1]) > len(b[1]):
                        self.out_of_bounds('elementwise comparison with a shorter sequence', n)
                    return ('seq', tuple(self.elem_op(op, x, y, n) for x, y in zip(a[1], b[1])))
                return self.seq_compare(op, a[1], b[1], n)
            va, vb = self.it_value(ev(0)), self.it_value(ev(1))
            if op_it(va) and op_it(vb):
                op = q[len('std::operator'):]
                e = va[2] - vb[2] if va[0] == 'it' else vb[2] - va[2]
                return I(int({'==': e == 0, '!=': e != 0, '<': e < 0, '>': e > 0, '<=': e <= 0, '>=': e >= 0}[op]))
        return None

    def elem_op(self, op, x, y, n):
        return self.binop(op, self.rv(x), self.rv(y), 'bool', None)

    def char_val(self, x):
        """Value by which elements are compared."""
        if isinstance(x, tuple) and x and x[0] == 'struct':
            for f, v in x[2]:
                if f == 'codepoint':
                    return v
        if self.elem_is_character(x):
            return self.simplify(('mem', x, 'codepoint'))
        return x

    def elem_is_character(self, x):
        return isinstance(x, tuple) and x and x[0] == 'v' and str(x[1]).startswith('chr')

    def seq_compare(self, op, xs, ys, n):
        """Lexicographic comparison of sequences."""
        def eq(x, y):
            return self.decide(self.binop('==', self.char_val(x), self.char_val(y), 'bool'), n)
        if op in ('==', '!='):
            r = len(xs) == len(ys) and all(eq(x, y) for x, y in zip(xs, ys))
            return I(int(r == (op == '==')))
        c = 0
        for x, y in zip(xs, ys):
            if not eq(x, y):
                c = -1 if self.decide(self.binop('<', self.char_val(x), self.char_val(y), 'bool'), n) else 1
                break
        if c == 0:
            c = (len(xs) > len(ys)) - (len(xs) < len(ys))
        return I(int({'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[op]))

    def iterator_call(self, n, q, obj, args, ev):
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::ssize', 'std::empty', 'std::data', 'std::rbegin', 'std::rend', 'std::ranges::size') and args:
            v = ev(0)
            s = self.seq_of(v)
            m = q.rsplit('::', 1)[-1]
            if s:
                return {'begin': ('it', s[0], 0), 'cbegin': ('it', s[0], 0), 'end': ('it', s[0], len(s[1])), 'cend': ('it', s[0], len(s[1])),
                        'rbegin': ('rit', s[0], len(s[1])), 'rend': ('rit', s[0], 0),
                        'size': I(len(s[1])), 'ssize': I(len(s[1])), 'empty': I(int(not s[1])), 'data': ('addr', ('idx', s[0], I(0)))}[m]
            r = self.range_of(v, n)
            if r:
                return {'begin': r[0], 'cbegin': r[0], 'end': r[1], 'cend': r[1]}.get(m)
            return None
        if q in ('std::next', 'std::prev', 'std::ranges::__next_fn::operator()', 'std::ranges::__prev_fn::operator()'):
            k = 1
            if len(args) > 1:
                k = self.intval(ev(1))
                if k is None:
                    return None
                k = wrap64(k)
                if k >> 63:
                    k -= 1 << 64
            v = self.it_value(ev(0))
            return self.step_it(v, k if 'next' in q else -k, n)
        if q in ('std::distance', 'std::ranges::__distance_fn::operator()'):
            if len(args) == 1:
                v = ev(0)
                s = self.seq_of(v)
                if s:
                    return I(len(s[1]))
                r = self.range_of(v, n)
                if r is None:
                    return None
                return I(sum(1 for _ in self.iterate(r[0], r[1], n)))
            a, b = self.it_value(ev(0)), self.it_value(ev(1))
            if op_it(a) and op_it(b):
                return I(b[2] - a[2] if a[0] == 'it' else a[2] - b[2])
            return I(sum(1 for _ in self.iterate(a, b, n)))
        if q == 'std::back_inserter':
            v = ev(0)
            return ('binserter', v.key) if isinstance(v, LV) else None
        cls, _, m = q.rpartition('::')
        if m.startswith('operator') and cls in ('__gnu_cxx::__normal_iterator', '__gnu_cxx', 'std::reverse_iterator', 'std::_Deque_iterator', 'std', 'std::_Bit_iterator'):
            op = m[len('operator'):].strip()
            vals = ([obj] if obj is not None else []) + [ev(i) for i in range(len(args))]
            if not vals:
                return None
            a = self.it_value(vals[0])
            if not op_it(a):
                return None
            if op == '*':
                return self.deref_it(a, n)
            if op == '->':
                e = self.deref_it(a, n)
                return ('addr', e.key if isinstance(e, LV) else e)
            if op == '[]':
                k = self.intval(vals[1])
                return None if k is None else self.deref_it(self.step_it(a, k, n), n)
            if op in ('++', '--'):
                new = self.step_it(a, 1 if op == '++' else -1, n)
                if isinstance(vals[0], LV):
                    self.assign(vals[0], new, n)
                return a if len(vals) > 1 else (vals[0] if isinstance(vals[0], LV) else new)
            if op in ('+', '-', '+=', '-='):
                b = self.it_value(vals[1])
                if op_it(b):
                    return I(a[2] - b[2] if a[0] == 'it' else b[2] - a[2])
                k = self.intval(b)
                if k is None:
                    return None
                new = self.step_it(a, k if op[0] == '+' else -k, n)
                if op.endswith('='):
                    self.assign(vals[0], new, n)
                    return vals[0]
                return new
            if op in ('==', '!=', '<', '>', '<=', '>=') and len(vals) > 1:
                b = self.it_value(vals[1])
                if op_it(b):
                    e = a[2] - b[2] if a[0] == 'it' else b[2] - a[2]
                    return I(int({'==': e == 0, '!=': e != 0, '<': e < 0, '>': e > 0, '<=': e <= 0, '>=': e >= 0}[op]))
        if q == 'std::reverse_iterator::base' and obj is not None:
            v = self.it_value(obj)
            return ('it', v[1], v[2]) if op_it(v) else None
        if q.startswith('std::optional::') or q.startswith('std::_Optional_base_impl::'):
            m = q.rsplit('::', 1)[-1]
            v = self.rv(obj) if obj is not None else None
            if isinstance(v, tuple) and v and v[0] == 'opt':
                if m in ('operator bool', 'has_value'):
                    return I(int(len(v) == 2))
                if m in ('operator*', 'value'):
                    return v[1] if len(v) == 2 else ('undef',)
        return None

    def emit(self, out, v, node):
        """*out++ = v; returns the advanced iterator."""
        out = self.it_value(out)
        if isinstance(out, tuple) and out and out[0] == 'binserter':
            xs = self.elems(out[1])
            if xs is None:
                raise Stop('insert into unknown container')
            self.set_elems(out[1], xs + (self.copy_value(v),))
            return out
        if op_it(out):
            e = self.deref_it(out, node)
            self.assign(e, self.copy_value(v), node)
            return self.step_it(out, 1, node)
        raise Stop('output iterator')

    def algorithm(self, n, q, obj, args, ev):
        if q.startswith('std::ranges::__') and q.endswith('_fn::operator()'):
            name = q[len('std::ranges::__'):-len('_fn::operator()')]
            ranges = True
        elif q.startswith('std::ranges::_') and q.endswith('::operator()'):
            name = q[len('std::ranges::'):-len('::operator()')].lower().strip('_')
            name = {'begin': 'rbegin_', 'end': 'rend_'}.get(name, name)
            ranges = True
            if 'end' in name or 'begin' in name:
                r = self.range_of(ev(len(args) - 1), n)
                if r:
                    return r[1] if 'end' in name else r[0]
                return None
        elif q.startswith('std::ranges::'):
            name = q[len('std::ranges::'):]
            ranges = True
        elif q.startswith('std::'):
            name = q[5:]
            ranges = False
        else:
            return None
        if name.startswith('__cust_access::') or name.startswith('__access::') or '::_End' in name or '::_Begin' in name:
            r = self.range_of(ev(len(args) - 1), n)
            if r:
                return r[1] if '_End' in name or 'end' in name.lower() else r[0]
            return None
        f = getattr(self, 'alg_' + name, None)
        if f is None:
            return None
        vs = [self.it_value(ev(i)) for i in range(len(args))]
        if ranges and vs and not op_it(vs[0]):
            r = self.range_of(vs[0], n)
            if r is None:
                return None
            vs = list(r) + vs[1:]
        if ranges and name in ('equal', 'lexicographical_compare', 'mismatch', 'swap_ranges') and len(vs) > 2 and not op_it(vs[2]):
            r = self.range_of(vs[2], n)
            if r is not None:
                vs = vs[:2] + list(r) + vs[3:]
        return f(n, vs)

    def alg_adjacent_find(self, n, vs):
        first, last = vs[0], vs[1]
        prev = None
        for cur in self.iterate(first, last, n):
            if prev is not None:
                a, b = self.deref_it(prev, n), self.deref_it(cur, n)
                r = self.invoke(vs[2], [a, b], n) if len(vs) > 2 else self.elem_op('==', a, b, n)
                if self.decide(r, n):
                    return prev
            prev = cur
        return self.end_of(first, last, n)

    def end_of(self, first, last, n):
        if self.tree_class(last) is None or 'sentinel' not in str(self.tree_class(last)):
            return last
        cur = first
        for c in self.iterate(first, last, n):
            cur = c
        if not self.decide(self.it_eq(cur, last, n), n):
            cur = self.step_it(cur, 1, n)
        return cur

    def quant(self, n, vs, want, result):
        for c in self.iterate(vs[0], vs[1], n):
            if self.decide(self.invoke(vs[2], [self.deref_it(c, n)], n), n) == want:
                return I(int(result))
        return I(int(not result))

    def alg_any_of(self, n, vs): return self.quant(n, vs, True, True)
    def alg_all_of(self, n, vs): return self.quant(n, vs, False, False)
    def alg_none_of(self, n, vs): return self.quant(n, vs, True, False)

    def alg_find_if(self, n, vs):
        for c in self.iterate(vs[0], vs[1], n):
            if self.decide(self.invoke(vs[2], [self.deref_it(c, n)], n), n):
                return c
        return self.not_found(vs[1])

    def not_found(self, last):
        """The iterator an unsuccessful search returns: a sentinel is not an iterator."""
        return self.past if 'sentinel' in str(self.it_value(last)) else last

    def alg_find(self, n, vs):
        for c in self.iterate(vs[0], vs[1], n):
            if self.decide(self.elem_op('==', self.deref_it(c, n), vs[2], n), n):
                return c
        return self.not_found(vs[1])

    def alg_for_each(self, n, vs):
        for c in self.iterate(vs[0], vs[1], n):
            self.invoke(vs[2], [self.deref_it(c, n)], n)
        return vs[2]

    def extremum(self, n, vs, mx):
        best = None
        for c in self.iterate(vs[0], vs[1], n):
            if best is None:
                best = c
                continue
            a, b = (self.deref_it(best, n), self.deref_it(c, n)) if mx else (self.deref_it(c, n), self.deref_it(best, n))
            r = self.invoke(vs[2], [a, b], n) if len(vs) > 2 else self.elem_op('<', a, b, n)
            if self.decide(r, n):
                best = c
        return best if best is not None else vs[0]

    def alg_max_element(self, n, vs): return self.extremum(n, vs, True)
    def alg_min_element(self, n, vs): return self.extremum(n, vs, False)

    def alg_accumulate(self, n, vs):
        acc = self.copy_value(vs[2])
        for c in self.iterate(vs[0], vs[1], n):
            lv = LV(('tmp', self.new_frame(), 'acc'))
            self.store[lv.key] = acc
            e = self.deref_it(c, n)
            acc = self.invoke(vs[3], [lv, e], n) if len(vs) > 3 else self.functor('+', [lv, e], n)
            acc = self.copy_value(acc)
        return acc

    def alg_copy(self, n, vs):
        # the specified effect: destination elements in order, reading each source element when it is reached
        out = vs[2]
        for c in self.iterate(vs[0], vs[1], n):
            out = self.emit(out, self.copy_value(self.deref_it(c, n)), n)
        return out

    alg_move = alg_copy

    def alg_copy_n(self, n, vs):
        k = self.intval(vs[1])
        if k is None:
            return None
        out, cur = vs[2], vs[0]
        for _ in range(k):
            out = self.emit(out, self.copy_value(self.deref_it(cur, n)), n)
            cur = self.step_it(cur, 1, n)
        return out

    def alg_copy_backward(self, n, vs):
        out = vs[2]
        for c in list(self.iterate(vs[0], vs[1], n))[::-1]:
            out = self.step_it(out, -1, n)
            self.assign(self.deref_it(out, n), self.copy_value(self.deref_it(c, n)), n)
        return out

    def alg_fill(self, n, vs):
        v = self.copy_value(vs[2])
        for c in self.iterate(vs[0], vs[1], n):
            self.assign(self.deref_it(c, n), v, n)
        return UNSPEC

    def alg_fill_n(self, n, vs):
        k = self.intval(vs[1])
        if k is None:
            return None
        cur = vs[0]
        for _ in range(k):
            cur = self.emit(cur, vs[2], n)
        return cur

    def alg_transform(self, n, vs):
        if len(vs) != 4:
            return None
        out = vs[2]
        for c in self.iterate(vs[0], vs[1], n):
            out = self.emit(out, self.copy_value(self.invoke(vs[3], [self.deref_it(c, n)], n)), n)
        return out

    def alg_reverse(self, n, vs):
        cs = list(self.iterate(vs[0], vs[1], n))
        es = [self.copy_value(self.deref_it(c, n)) for c in cs]
        for c, e in zip(cs, reversed(es)):
            self.assign(self.deref_it(c, n), e, n)
        return UNSPEC

    def alg_equal(self, n, vs):
        pred = None
        if len(vs) >= 4 and (op_it(vs[3]) or self.tree_class(vs[3])):
            a = list(self.iterate(vs[0], vs[1], n))
            b = list(self.iterate(vs[2], vs[3], n))
            if len(a) != len(b):
                return I(0)
            pred = vs[4] if len(vs) > 4 else None
            bs = b
        else:
            a = list(self.iterate(vs[0], vs[1], n))
            cur = vs[2]
            bs = []
            for _ in a:
                bs.append(cur)
                cur = self.step_it(cur, 1, n)
            pred = vs[3] if len(vs) > 3 else None
        for x, y in zip(a, bs):
            dx, dy = self.deref_it(x, n), self.deref_it(y, n)
            r = self.invoke(pred, [dx, dy], n) if pred is not None else self.elem_op('==', self.char_val(self.rv(dx)), self.char_val(self.rv(dy)), n)
            if not self.decide(r, n):
                return I(0)
        return I(1)

    def alg_lexicographical_compare(self, n, vs):
        a = list(self.iterate(vs[0], vs[1], n))
        b = list(self.iterate(vs[2], vs[3], n))

        def less(x, y):
            dx, dy = self.deref_it(x, n), self.deref_it(y, n)
            r = self.invoke(vs[4], [dx, dy], n) if len(vs) > 4 else self.elem_op('<', self.char_val(self.rv(dx)), self.char_val(self.rv(dy)), n)
            return self.decide(r, n)
        for x, y in zip(a, b):
            if less(x, y):
                return I(1)
            if less(y, x):
                return I(0)
        return I(int(len(a) < len(b)))

    def alg_exchange(self, n, vs):
        return None

    def alg_invoke(self, n, vs):
        return self.invoke(vs[0], vs[1:], n)

    def algorithm_exchange(self, n, args, ev):
        lv = ev(0)
        new = self.copy_value(ev(1))
        if not isinstance(lv, LV):
            return None
        old = self.copy_value(lv)
        if 'object' in str(args[0].get('t', '')):
            new = self.as_object(new)
        self.assign(lv, new, n)
        return old

    # ---- statements --------------------------------------------------------
    def range_loop(self, s, r):
        rg = self.range_of(r, s)
        if rg is None:
            return super().range_loop(s, r)
        for c in self.iterate(rg[0], rg[1], s):
            e = self.deref_it(c, s)
            if is_ref(s['var']['t']) and isinstance(e, LV):
                self.declare(s['var']['d'], e)
            else:
                l2 = LV(('var', self.frames[-1]['id'], s['var']['d']))
                for k in [k for k in self.store if k[0] in ('mem', 'idx') and self.under(k, l2.key)]:
                    del self.store[k]
                self.store[l2.key] = self.copy_value(e)
                self.declare(s['var']['d'], l2)
            try:
                self.ex(s['s'])
            except Break:
                break
            except Continue:
                continue


def wrap64(k):
    return k & ((1 << 64) - 1)


def op_it(v):
    return isinstance(v, tuple) and bool(v) and v[0] in ('it', 'rit')


from .interp import INT_TYPES  # noqa: E402
