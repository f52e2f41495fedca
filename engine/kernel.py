"""The term domain of Scheme objects: meaning of the kernel's primitive accesses."""
from .interp import *
from .interp import Interp, LV, NULL, I, is_int, Stop, bare

IMMEDIATES = {'bool', 'int', 'float', 'double', 'meevax::kernel::character', 'meevax::kernel::instruction', 'long', 'unsigned long', 'unsigned int'}
PAIR = 'meevax::kernel::pair'
OBJECT = 'meevax::kernel::object'
# classes whose first two fields are the pair (car . cdr) they inherit
NS = 'meevax::kernel::'


def tn(t):
    """Short type name."""
    t = bare(t)
    return t[len(NS):] if t.startswith(NS) else t


class Kernel(Interp):
    max_unroll = 4
    plain_tail = False
    keep_enum = True

    def reset(self):
        self.allocs = 0
        self.resets = []      # (pre, post, lv key, old value, new value, node)
        self.reads = []       # dereferenced terms
        self.events = []

    # ---- pairs -----------------------------------------------------------
    def pair_like(self, cls):
        seen = set()
        todo = [bare(cls)]
        while todo:
            c = todo.pop()
            if c == PAIR:
                return True
            if c in seen:
                continue
            seen.add(c)
            r = self.F.classes.get(c)
            if r:
                todo += r['bases']
        return False

    def simplify(self, t):
        op = t[0]
        if op in ('car', 'cdr'):
            x = t[1]
            if isinstance(x, tuple) and x:
                if x[0] == 'cons':
                    return x[1] if op == 'car' else x[2]
                if x[0] == 'make' and len(x) == 4 and self.pair_like(NS + x[1]):
                    return x[2] if op == 'car' else x[3]
        if op == 'mem' and t[2] in ('first', 'second') and isinstance(t[1], tuple) and t[1] and t[1][0] in ('pairof', 'as'):
            return self.load(LV(('car' if t[2] == 'first' else 'cdr', t[1][-1])))
        if op == 'tail' and is_int(t[2]):
            x = t[1]
            for _ in range(t[2][1]):
                x = self.load(LV(('cdr', x)))
            return x
        if op == 'not' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'not':
            return t[1][1]
        if op == 'tobool' and isinstance(t[1], tuple) and t[1] and t[1][0] in ('not', '==', '<', 'is', 'isalso', 'truthy', 'tobool'):
            return t[1]
        return t

    def heap_term(self, x):
        """True if x is certainly a heap reference, False if certainly not, None if unknown."""
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == 'cons':
            return True
        if x[0] == 'make':
            return True
        if x == NULL or x[0] == 'imm':
            return False
        return None

    def type_is(self, t, x):
        if isinstance(x, tuple) and x:
            if x == NULL:
                return t in ('std::nullptr_t', 'nullptr_t')
            if x[0] == 'cons':
                return t == 'pair'
            if x[0] in ('make', 'imm'):
                return tn(x[1]) == t
        return None

    def cell(self, key, which):
        """LV of car/cdr of the pair at storage key."""
        k = key
        if k[0] in ('pairof',):
            return LV((which, k[1]))
        if k[0] == 'as':
            return LV((which, k[2]))
        return None

    def member(self, b, n):
        if n['n'] in ('first', 'second') and isinstance(b, LV):
            c = self.cell(b.key, 'car' if n['n'] == 'first' else 'cdr')
            if c is not None:
                self.note_deref(c.key[1], n)
                return c
        return super().member(b, n)

    def note_deref(self, x, node):
        self.reads.append((x, self.allocs, self.roots_snapshot(), node))

    def roots_snapshot(self):
        return None

    def load_default(self, k):
        if k[0] in ('car', 'cdr'):
            return self.simplify(k)
        if k[0] == 'global' and k[1] == 'g:meevax::unit':
            return NULL
        return super().load_default(k)

    def on_alloc(self, node):
        self.allocs += 1

    def make(self, t, vals, node):
        t = tn(t)
        if t in ('bool', 'int', 'float', 'double', 'character', 'instruction'):
            return ('imm', t, vals[0] if vals else ('zero', t))
        self.on_alloc(node)
        if t == 'pair':
            vals = [self.as_object(v) for v in vals]
            if len(vals) == 0:
                return ('cons', NULL, NULL)
            if len(vals) == 2:
                return ('cons', vals[0], vals[1])
        return ('make', t) + tuple(vals)

    def as_object(self, v):
        v = self.rv(v)
        if is_int(v):
            return ('imm', 'int', v)
        return v

    def std_call(self, n, q, obj, args, ev):
        if q == 'std::get' and len(args) == 1:
            i = (n.get('ta') or ['?'])[0]
            v = ev(0)
            if isinstance(v, LV) and i in ('0', '1'):
                c = self.cell(v.key, 'car' if i == '0' else 'cdr')
                if c is not None:
                    self.note_deref(c.key[1], n)
                    return c
        if q in ('std::array::operator[]', 'std::vector::operator[]', 'std::deque::operator[]', 'std::array::at', 'std::vector::at', 'std::deque::at', 'std::basic_string::operator[]', 'std::basic_string::at'):
            i = self.strip_cast(self.rv(ev(0)))
            return LV(('idx', obj.key if isinstance(obj, LV) else obj, i))
        return super().std_call(n, q, obj, args, ev)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'meevax::make':
            ta = n.get('ta') or ['?']
            return self.make(ta[0], [self.arg_value(ev(i)) for i in range(len(args))], n)
        if q and q.startswith('meevax::object::'):
            m = q[len('meevax::object::'):]
            if m in ('as', 'as_mutable'):
                target = obj if obj is not None else ev(0)
                x = self.rv(target)
                t = tn(n['ta'][0])
                return self.as_(x, t, n)
            if m == 'is':
                return self.is_(self.rv(obj), tn(n['ta'][0]), n)
            if m == 'is_also':
                return self.is_also(self.rv(obj), tn(n['ta'][0]), n)
            if m == 'reset':
                ta = [tn(t) for t in n.get('ta', ())]
                if len(args) == 1 and args[0]['k'] != 'null' and 'nullptr' not in self.F.fns.get(n['f'], {'params': [{'t': ''}]})['params'][0]['t']:
                    v = self.as_object(ev(0))
                else:
                    v = NULL
                self.resets.append((ta[0] if ta else 'std::identity', ta[1] if len(ta) > 1 else 'std::identity', obj.key if isinstance(obj, LV) else None, self.rv(obj), v, n))
                self.assign(obj, v, n)
                return obj
            if m == 'operator=':
                v = self.as_object(ev(0))
                self.assign(obj, v, n)
                return obj
            if m in ('type',):
                return ('typeof', self.rv(obj))
        if q and q.startswith('meevax::nan_boxing_pointer::'):
            m = q[len('meevax::nan_boxing_pointer::'):]
            x = self.rv(obj) if obj is not None else None
            if m == 'operator bool':
                return self.truthy(x)
            if m in ('get', 'operator->', 'unsafe_get'):
                return ('addr', ('pairof', x))
            if m == 'operator*':
                return LV(('pairof', x))
            if m == 'as':
                return self.as_(x, tn(n['ta'][0]), n)
            if m == 'operator=':
                v = self.as_object(ev(0))
                self.assign(obj, v, n)
                return obj
        if q in ('meevax::operator==', 'meevax::operator!=') and obj is None and len(args) == 2 and 'nan_boxing_pointer' in (fn or {'params': [{'t': ''}]})['params'][0]['t']:
            a, b = self.as_object(ev(0)), self.as_object(ev(1))
            return self.obj_eq(a, b, q.endswith('!='))
        if q == 'std::type_info::operator==' and obj is not None:
            a, b = self.rv(obj), self.rv(ev(0))
            if b[0] == 'typeof':
                a, b = b, a
            if a[0] == 'typeof' and b[0] == 'typeid':
                return self.is_(a[1], tn(b[1]), n)
        if q == 'meevax::exact_integer_cast' and len(args) == 1:
            return ('as', 'int', self.rv(ev(0)))
        if q == 'meevax::tail' and len(args) == 2 and not self.plain_tail:
            x = ev(0)
            k = self.rv(ev(1))
            if not is_int(k):
                return LV(('tail', self.rv(x), self.strip_cast(k)))
            lv = x
            for _ in range(k[1]):
                v = self.rv(lv)
                self.note_deref(v, n)
                lv = LV(('cdr', v))
            return lv
        return None

    def strip_cast(self, k):
        while isinstance(k, tuple) and k and k[0] == 'icast':
            k = k[2]
        return k

    def obj_eq(self, a, b, ne):
        if a == b:
            return I(int(not ne))
        known = ('imm', 'null', 'cons', 'make')
        if all(isinstance(x, tuple) and x and x[0] == 'imm' for x in (a, b)) and tn(a[1]) == tn(b[1]) and len(a) == len(b) == 3 and not (is_int(a[2]) and is_int(b[2])):
            x, y = sorted((a, b), key=repr)
            t = self.scalar_eq(x, y)
            return ('not', t) if ne else t
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ('imm', 'null') and b[0] in known:
            return I(int(ne))
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and b[0] in ('imm', 'null') and a[0] in known:
            return I(int(ne))
        x, y = sorted((a, b), key=repr)
        t = ('==', x, y)
        return ('not', t) if ne else t

    def scalar_eq(self, x, y):
        """Whether two immediates of one type are the same."""
        return ('==', x[2], y[2])

    def truthy(self, x):
        h = self.heap_term(x)
        if h is not None:
            return I(int(h))
        return ('truthy', x)

    def arg_value(self, v):
        return self.copy_value(v)

    def as_(self, x, t, n):
        if t == 'pair':
            return LV(('pairof', x))
        if t in ('bool', 'int', 'float', 'double', 'character', 'instruction'):
            if isinstance(x, tuple) and x and x[0] == 'imm' and tn(x[1]) == t:
                return x[2]
            return ('as', t, x)
        return LV(('as', t, x))

    def is_(self, x, t, n):
        k = self.type_is(t, x)
        if k is not None:
            return I(int(k))
        return ('is', t, x)

    def is_also(self, x, t, n):
        if x == NULL:
            return FALSE_
        if isinstance(x, tuple) and x and x[0] in ('make',) and len(x) > 1:
            return I(int(self.derives(NS + tn(x[1]), t)))
        return ('isalso', t, x)

    def derives(self, cls, base):
        seen = set()
        todo = [bare(cls)]
        while todo:
            c = todo.pop()
            if tn(c) == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            r = self.F.classes.get(c)
            if r:
                todo += r['bases']
        return False

    def ctor_hook(self, n, cls, args, ev):
        t = bare(n['t'])
        if t == OBJECT:
            if len(args) == 0:
                return NULL
            if len(args) == 1:
                v = self.rv(ev(0))
                at = bare(args[0].get('t', '')) if args[0] else ''
                if args[0]['k'] == 'null':
                    return NULL
                if isinstance(v, tuple) and v and v[0] == 'addr' and v[1][0] == 'pairof':
                    return v[1][1]
                if at in ('bool', 'int', 'float', 'double') or tn(at) in ('character', 'instruction'):
                    return ('imm', tn(at), v)
                if isinstance(v, tuple) and v and v[0] in ('int',):
                    return ('imm', tn(at) or 'int', v)
                if isinstance(v, tuple) and v and v[0] == 'enum':
                    return ('imm', 'instruction', v)
                return v
        return None

    # exclusive types: an object has exactly one dynamic type
    def decide_hook(self, term):
        if isinstance(term, tuple) and term and term[0] == 'is':
            for (t, c) in self.known.items():
                if isinstance(t, tuple) and t and t[0] == 'is' and t[2] == term[2] and c and t[1] != term[1]:
                    return False
        if isinstance(term, tuple) and term and term[0] == 'truthy':
            for (t, c) in self.known.items():
                if isinstance(t, tuple) and t and t[0] == 'is' and t[2] == term[1] and c and t[1] in ('pair', 'closure', 'procedure', 'continuation', 'string', 'symbol', 'vector'):
                    return True
                if isinstance(t, tuple) and t and t[0] == 'isalso' and t[2] == term[1] and c:
                    return True
        return None


FALSE_ = ('int', 0)
