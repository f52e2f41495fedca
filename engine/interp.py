"""Abstract interpretation of the resolved C++ program over a term domain.

Values are terms (nested tuples) of the Herbrand universe over the program's
primitive operations; memory is a finite map from access paths to terms.
Functions of the analysed tree are inlined at their resolved call sites, so the
result of a function does not depend on how its work is divided into helpers,
named temporaries or equivalent statement forms.  Branches on unknown terms are
partitioned (both outcomes are followed); loops with unknown trip counts are
cut after a bound and the path is marked incomplete.  No constraint solver is
involved and nothing of the analysed program is run.
"""
import sys
sys.setrecursionlimit(20000)


class LV:
    """An lvalue: a storage path."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'LV(%s)' % (show(self.key),)

    def __eq__(self, o):
        return isinstance(o, LV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Return(Exception):
    def __init__(self, v): self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Goto(Exception):
    def __init__(self, n): self.n = n


class Throw(Exception):
    def __init__(self, t, v, node): self.t = t; self.v = v; self.node = node


class Stop(Exception):
    """The analysis of this path ends (bound reached, noreturn call, ...)."""
    def __init__(self, why, value=None): self.why = why; self.value = value


class TooManyPaths(Exception):
    pass


UNDEF = ('undef',)
NULL = ('null',)
UNSPEC = ('void',)


def I(n):
    return ('int', n)


def is_int(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'int'


TRUE, FALSE = ('int', 1), ('int', 0)


def show(t, depth=0):
    if isinstance(t, LV):
        return '&' + show(t.key)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth > 12:
        return '...'
    if t[0] == 'int':
        return str(t[1])
    if t[0] == 'str':
        return repr(t[1])
    if t[0] == 'v':
        return str(t[1])
    if t[0] == 'enum':
        return t[1].split('::')[-1]
    if len(t) == 1:
        return str(t[0])
    return '%s(%s)' % (t[0] if isinstance(t[0], str) else show(t[0], depth + 1), ', '.join(show(x, depth + 1) for x in t[1:]))


INT_TYPES = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'char8_t': (8, False), 'char16_t': (16, False), 'char32_t': (32, False), 'wchar_t': (32, True),
    '__int128': (128, True), 'unsigned __int128': (128, False),
}
FLOAT_TYPES = ('float', 'double', 'long double')


def bare(t):
    if t is None:
        return ''
    t = t.strip()
    while True:
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        elif t.startswith('const '):
            t = t[6:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.startswith('volatile '):
            t = t[9:]
        else:
            return t


def is_ref(t):
    return t.rstrip().endswith('&')


def wrap(n, t):
    w = INT_TYPES.get(bare(t))
    if not w:
        return n
    bits, signed = w
    if bare(t) == 'bool':
        return int(n != 0)
    n &= (1 << bits) - 1
    if signed and n >> (bits - 1):
        n -= 1 << bits
    return n


CMP = {'<', '>', '<=', '>=', '==', '!='}
_COMM = {'+', '*', '&', '|', '^', '=='}


class Path:
    def __init__(self):
        self.outcome = None     # ('return', v) | ('throw', type, v) | ('stop', why) | ('goto', label)
        self.conds = []         # [(term, bool, node)]
        self.store = None
        self.trace = []
        self.incomplete = None


class Interp:
    max_paths = 4000
    rtl = False          # evaluate call arguments right to left
    max_depth = 60
    max_unroll = 8
    max_recur = 3

    def __init__(self, facts):
        self.F = facts
        self.fresh_n = 0
        self.inlined = set()
        self.last_paths = []

    # ---- hooks ---------------------------------------------------------------
    def call_hook(self, node, q, fn, obj, args, ev):
        """Return a value (term or LV) to override a call, or None to proceed.
        obj: LV/term or None; args: list of argument nodes; ev(i) evaluates argument i."""
        return None

    def ctor_hook(self, node, cls, args, ev):
        return None

    def decide_hook(self, term):
        """Return True/False if a condition is known, else None."""
        return None

    def simplify(self, term):
        return term

    def may_inline(self, fn, depth):
        return True

    def unknown_call(self, node, q, obj, args):
        """Value of a call that is neither inlined nor interpreted."""
        t = ('call', q) + (() if obj is None else (self.rv(obj),)) + tuple(self.rv(a) for a in args)
        return t

    def on_store(self, key, value, node):
        pass

    # ---- exploration ---------------------------------------------------------
    def explore(self, thunk):
        """Runs thunk() for every combination of undecided branches."""
        paths = []
        work = [[]]
        while work:
            script = work.pop()
            self.script = script
            self.pos = 0
            self.taken = []
            self.alts = []
            self.store = {}
            self.known = {}
            self.path = Path()
            self.stack = []
            self.frame_n = 0
            self.fresh_n = 0
            self.frames = []
            self.lambdas = {}
            p = self.path
            self.reset()
            try:
                v = thunk()
                p.outcome = ('return', v)
            except Return as r:
                p.outcome = ('return', r.v)
            except Throw as t:
                p.outcome = ('throw', t.t, t.v, t.node)
            except Goto as g:
                p.outcome = ('goto', g.n)
            except Stop as s:
                p.outcome = ('stop', s.why, s.value)
                p.incomplete = s.why
            p.store = self.store
            paths.append(p)
            for pre in self.alts:
                work.append(pre)
            if len(paths) > self.max_paths:
                raise TooManyPaths()
        self.last_paths = paths
        return paths

    def reset(self):
        pass

    def fork(self, n=2):
        """Nondeterministic choice 0..n-1."""
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
            for k in range(1, n):
                self.alts.append(self.taken + [k])
        self.pos += 1
        self.taken = self.taken + [c]
        return c

    def decide(self, term, node=None):
        term = self.rv(term)
        neg = False
        while isinstance(term, tuple) and term and term[0] in ('not', 'tobool'):
            if term[0] == 'not':
                neg = not neg
            term = term[1]
        if isinstance(term, tuple) and term and term[0] == '!=':
            term = ('==',) + term[1:]
            neg = not neg
        if is_int(term):
            return (term[1] != 0) != neg
        if term == NULL:
            return neg
        if isinstance(term, tuple) and term[0] in ('str', 'fn', 'lambda', 'addr'):
            return not neg
        h = self.decide_hook(term)
        if h is not None:
            return h != neg
        if term in self.known:
            return self.known[term] != neg
        c = self.fork(2) == 0
        self.known[term] = c
        self.path.conds.append((term, c, node))
        self.on_decide(term, c)
        return c != neg

    def on_decide(self, term, value):
        pass

    def fresh(self, tag):
        self.fresh_n += 1
        return ('v', '%s#%d' % (tag, self.fresh_n))

    # ---- storage ---------------------------------------------------------
    def rv(self, v):
        if isinstance(v, LV):
            return self.load(v)
        return v

    def load(self, lv):
        k = lv.key
        if k in self.store:
            return self.store[k]
        return self.load_default(k)

    def load_default(self, k):
        if k[0] == 'mem':
            # field of a temporary / struct value
            base = self.store.get(k[1], k[1])
            if base is k[1] and isinstance(base, tuple) and base and base[0] == 'mem':
                outer = self.load_default(base)
                if isinstance(outer, tuple) and outer and outer[0] == 'struct':
                    base = outer
            if isinstance(base, tuple) and base and base[0] == 'struct':
                for f, v in base[2]:
                    if f == k[2]:
                        return v
            if base != k[1]:
                return self.simplify(('mem', base, k[2]))
        if k[0] == 'idx':
            base = self.store.get(k[1], k[1])
            if isinstance(base, tuple) and base and base[0] == 'array' and is_int(k[2]) and 0 <= k[2][1] < len(base[1]):
                return base[1][k[2][1]]
            if base != k[1]:
                return self.simplify(('idx', base, k[2]))
        if k[0] == 'global':
            return self.global_value(k)
        return self.simplify(k)

    def global_value(self, k):
        v = self.F.vars.get(k[1])
        if v:
            init = v['v'].get('init')
            t = v['v']['t']
            if init is not None and init.get('k') == 'lambda':
                return self.mk_lambda(init)
            if init is not None and (t.startswith('const ') or 'constexpr' in t) and init.get('k') in ('int', 'float', 'bool', 'str'):
                return self.rv(self.ev(init))
            if init is not None and init.get('cv') is not None:
                if t.startswith('const '):
                    return I(int(init['cv']))
        return k

    def assign(self, lv, value, node=None):
        if not isinstance(lv, LV):
            return
        self.store[lv.key] = value
        self.on_store(lv.key, value, node)

    def struct_fields(self, key):
        """Overlay of field writes under storage path key."""
        return [(k[2], v) for k, v in self.store.items() if k[0] == 'mem' and k[1] == key]

    def copy_value(self, v):
        """Value of a class object for copying."""
        if not isinstance(v, LV):
            return v
        base = self.load(v)
        fields = self.struct_fields(v.key)
        if fields:
            d = dict(base[2]) if isinstance(base, tuple) and base and base[0] == 'struct' else {}
            out = dict(d)
            for f, x in fields:
                out[f] = x
            return ('struct', base if not (isinstance(base, tuple) and base and base[0] == 'struct') else base[1], tuple(sorted(out.items(), key=lambda p: p[0])))
        return base

    # ---- functions ---------------------------------------------------------
    def new_frame(self):
        self.frame_n += 1
        return self.frame_n

    def local(self, d, frame=None):
        return LV(('var', frame if frame is not None else self.frames[-1]['id'], d))

    def lookup(self, d):
        """Storage of a variable referenced by id d in the current frame."""
        fr = self.frames[-1]
        while fr:
            if d in fr['vars']:
                return fr['vars'][d]
            fr = fr.get('parent')
        return None

    def declare(self, d, value_or_lv):
        self.frames[-1]['vars'][d] = value_or_lv

    def can_inline(self, fn):
        if self.stack.count(fn['key']) < self.max_recur and len(self.stack) < self.max_depth:
            return self.may_inline(fn, len(self.stack))
        self.recursion_bound(fn)
        return False

    def recursion_bound(self, fn):
        pass

    def call_fn(self, fn, this, args, node=None, parent=None):
        """Inlines fn; args: evaluated (LV for references where possible)."""
        self.inlined.add(fn['key'])
        fid = self.new_frame()
        fr = {'id': fid, 'vars': {}, 'this': this, 'fn': fn, 'parent': parent}
        for i, p in enumerate(fn['params']):
            if i < len(args):
                a = args[i]
            elif 'def' in p:
                a = self.ev(p['def'])
            else:
                a = UNDEF
            if is_ref(p['t']):
                if isinstance(a, LV):
                    fr['vars'][p['d']] = a
                else:
                    lv = LV(('tmp', fid, p['d']))
                    self.store[lv.key] = a
                    fr['vars'][p['d']] = lv
            else:
                lv = LV(('var', fid, p['d']))
                self.store[lv.key] = self.copy_value(a)
                fr['vars'][p['d']] = lv
        self.frames.append(fr)
        self.stack.append(fn['key'])
        try:
            if fn.get('ctor'):
                self.run_inits(fn, this)
            try:
                self.ex(fn['body'])
                ret = UNSPEC
            except Return as r:
                ret = r.v
        finally:
            self.frames.pop()
            self.stack.pop()
        if not is_ref(fn['rt']):
            ret = self.copy_value(ret) if isinstance(ret, LV) else ret
        return ret

    def run_inits(self, fn, this):
        tk = this.key if isinstance(this, LV) else this
        for i in fn['inits']:
            if 'member' in i:
                lv = LV(('mem', tk, i['member']))
                n = i['init']
                self.init_storage(lv, n, None)
            else:
                n = i['init']
                if n and n['k'] == 'ctor':
                    self.construct(n, LV(tk))
                elif n:
                    self.ev(n)

    def init_storage(self, lv, n, t):
        if n is None:
            return
        if n['k'] == 'ctor':
            if self.construct(n, lv):
                return
        v = self.ev(n)
        self.store[lv.key] = self.copy_value(v)

    def construct(self, n, lv):
        """Runs a constructor on storage lv; True if it was interpreted in place."""
        args = n['a']
        cache = {}

        def ev(i):
            if i not in cache:
                cache[i] = self.ev(args[i])
            return cache[i]
        h = self.ctor_hook(n, n.get('cls', ''), args, ev)
        if h is not None:
            self.store[lv.key] = self.rv(h)
            return True
        if n.get('copy') and len(args) == 1:
            self.store[lv.key] = self.copy_value(ev(0))
            return True
        fn = self.F.fns.get(n['f'])
        if fn and self.can_inline(fn):
            self.call_fn(fn, lv, [ev(i) for i in range(len(args))], n)
            return True
        self.store[lv.key] = self.simplify(('make', bare(n['t'])) + tuple(self.rv(ev(i)) for i in range(len(args))))
        return True

    # ---- expressions ---------------------------------------------------------
    def ev(self, n):
        if n is None:
            return UNSPEC
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return ('opaque', k, n.get('l', 0))
        return m(n)

    def rvn(self, n):
        return self.rv(self.ev(n))

    def e_int(self, n): return I(int(n['v']))
    def e_bool(self, n): return I(int(n['v']))
    def e_char(self, n): return I(int(n['v']))
    def e_float(self, n): return ('float', n['v'])
    def e_str(self, n): return ('str', n['v'])
    def e_null(self, n): return NULL
    def e_enum(self, n): return ('enum', n['n'], int(n['cv'])) if self.keep_enum else I(int(n['cv']))
    keep_enum = False

    def e_zero(self, n):
        t = bare(n['t'])
        if t in INT_TYPES:
            return I(0)
        if t in FLOAT_TYPES:
            return ('float', '0')
        if t.endswith('*') or t == 'std::nullptr_t' or t == 'nullptr_t':
            return NULL
        return ('zero', t)

    def e_sizeof(self, n):
        return I(int(n['cv'])) if 'cv' in n else ('sizeof', n['of'])

    def e_const(self, n):
        return I(int(n['cv'])) if 'cv' in n else ('opaque', 'const', n.get('l', 0))

    def e_this(self, n):
        fr = self.frames[-1]
        while fr and fr.get('this') is None:
            fr = fr.get('parent')
        if fr is None:
            return ('v', 'this')
        t = fr['this']
        return ('addr', t.key) if isinstance(t, LV) else ('addr', t)

    def e_ref(self, n):
        lv = self.lookup(n['d'])
        if lv is not None:
            return lv
        if 'cv' in n and not n['t'].endswith('&'):
            return I(int(n['cv']))
        if n['d'].startswith('g:'):
            return LV(('global', n['d']))
        return LV(('free', n['d']))

    def e_fref(self, n): return ('fn', n['f'], n['q'])
    def e_mref(self, n): return ('fn', n['f'], n['q'])

    def deref(self, p, node=None):
        p = self.rv(p)
        if isinstance(p, tuple) and p and p[0] == 'addr':
            return LV(p[1])
        return LV(('deref', p))

    def e_mem(self, n):
        b = self.ev(n['b'])
        if n.get('arrow'):
            b = self.deref(b)
        return self.member(b, n)

    def member(self, b, n):
        if isinstance(b, LV):
            return LV(('mem', b.key, n['n']))
        if isinstance(b, tuple) and b and b[0] == 'struct':
            for f, v in b[2]:
                if f == n['n']:
                    return v
        return LV(('mem', b, n['n']))

    def e_index(self, n):
        a = self.ev(n['a'])
        b = self.rvn(n['b'])
        if isinstance(a, LV):
            t = bare(n['a'].get('t', ''))
            if t.endswith('*'):
                a = self.deref(a)
                if b == I(0):
                    return a
            return LV(('idx', a.key, b))
        if isinstance(a, tuple) and a and a[0] == 'addr':
            k = a[1]
            if k[0] == 'idx' and is_int(k[2]) and is_int(b):
                return LV(('idx', k[1], I(k[2][1] + b[1])))
            if b == I(0):
                return LV(k)
            return LV(('idx', k, b))
        if isinstance(a, tuple) and a and a[0] == 'str' and is_int(b):
            i = b[1]
            return I(ord(a[1][i])) if i < len(a[1]) else I(0)
        return LV(('idx', a, b))

    def e_cast(self, n):
        v = self.ev(n['e'])
        c = n['c']
        if c in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic', 'BitCast', 'LValueBitCast', 'ToVoid', 'LValueToRValue', 'ArrayToPointerDecay', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'ConstructorConversion'):
            if c == 'Dynamic':
                return self.dyn_cast(n, v)
            return v
        v = self.rv(v)
        if c in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            if is_int(v):
                return I(int(v[1] != 0))
            return self.simplify(('tobool', v))
        if c == 'IntegralCast':
            if is_int(v):
                return I(wrap(v[1], n['t']))
            return self.int_cast(n, v)
        return self.other_cast(n, v)

    def dyn_cast(self, n, v):
        return self.simplify(('dyncast', n['t'], self.rv(v)))

    def int_cast(self, n, v):
        if isinstance(v, tuple) and v and v[0] in ('enum',):
            return v
        return self.simplify(('icast', bare(n['t']), v))

    def other_cast(self, n, v):
        if n['c'] in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return self.simplify(('fcast', n['c'], bare(n['t']), v))
        return v

    def e_un(self, n):
        op = n['op']
        if op == '&':
            v = self.ev(n['e'])
            if isinstance(v, LV):
                return ('addr', v.key)
            if isinstance(v, tuple) and v and v[0] == 'fn':
                return v
            return ('addr', v)
        if op == '*':
            v = self.rvn(n['e'])
            if isinstance(v, tuple) and v and v[0] == 'fn':
                return v
            return self.deref(v)
        if op in ('++', '--', 'p++', 'p--'):
            lv = self.ev(n['e'])
            old = self.rv(lv)
            new = self.binop('+' if op[-1] == '+' else '-', old, I(1), n['t'])
            self.assign(lv, new, n)
            return lv if op[0] != 'p' else old
        v = self.rvn(n['e'])
        if op == '!':
            if is_int(v):
                return I(int(not v[1]))
            return self.simplify(('not', v))
        if op == '-':
            if is_int(v):
                return I(wrap(-v[1], n['t']))
            if isinstance(v, tuple) and v and v[0] == 'float':
                return ('float', v[1][1:] if v[1].startswith('-') else '-' + v[1])
            return self.simplify(('neg', v))
        if op == '~':
            if is_int(v):
                return I(wrap(~v[1], n['t']))
            return self.simplify(('~', v))
        if op == '+':
            return v
        return self.simplify(('un', op, v))

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op == '=':
            r = self.ev(n['b'])
            lv = self.ev(n['a'])
            self.assign(lv, self.copy_value(r), n)
            return lv
        if op == '&&':
            if not self.decide(self.ev(n['a']), n['a']):
                return FALSE
            return self.boolean(self.ev(n['b']))
        if op == '||':
            if self.decide(self.ev(n['a']), n['a']):
                return TRUE
            return self.boolean(self.ev(n['b']))
        if len(op) >= 2 and op[-1] == '=' and op not in CMP:
            r = self.rvn(n['b'])
            lv = self.ev(n['a'])
            v = self.binop(op[:-1], self.rv(lv), r, n.get('ct', n['t']))
            if is_int(v):
                v = I(wrap(v[1], n['t']))
            self.assign(lv, v, n)
            return lv
        a = self.rvn(n['a'])
        b = self.rvn(n['b'])
        return self.binop(op, a, b, n['t'], n)

    def boolean(self, v):
        v = self.rv(v)
        if is_int(v):
            return I(int(v[1] != 0))
        return v

    def binop(self, op, a, b, t, n=None):
        x = a[2] if isinstance(a, tuple) and a and a[0] == 'enum' else a[1] if is_int(a) else None
        y = b[2] if isinstance(b, tuple) and b and b[0] == 'enum' else b[1] if is_int(b) else None
        if x is not None and y is not None:
            try:
                if op in CMP:
                    return I(int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]))
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y,
                     '/': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     '%': lambda: x - (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) * y}[op]()
                return I(wrap(r, t))
            except (KeyError, ZeroDivisionError, OverflowError):
                pass
        if op in ('==', '!='):
            if a == b and not self.floaty(n):
                return I(int(op == '=='))
            if all(isinstance(x, tuple) and len(x) == 2 and x[0] == 'addr' and isinstance(x[1], tuple) and x[1][:1] == ('var',) for x in (a, b)):
                return I(int(op == '!='))  # two variables are two objects
            if (a == NULL) != (b == NULL):
                other = b if a == NULL else a
                if isinstance(other, tuple) and other and other[0] in ('addr', 'fn', 'str', 'lambda'):
                    return I(int(op == '!='))
        return self.simplify(self.canon(op, a, b, t, n))

    def floaty(self, n):
        if n is None:
            return False
        return bare(n['a'].get('t', '')) in FLOAT_TYPES or bare(n['b'].get('t', '')) in FLOAT_TYPES

    def canon(self, op, a, b, t, n):
        fl = self.floaty(n)
        if op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            if fl:
                op, a, b = '<=', b, a
            else:
                return ('not', ('<', a, b))
        elif op == '<=':
            if not fl:
                return ('not', ('<', b, a))
        elif op == '!=':
            x, y = sorted((a, b), key=repr)
            return ('not', ('==', x, y))
        if op == '==' or (op in _COMM and bare(t) in INT_TYPES):
            a, b = sorted((a, b), key=repr)
        if fl and op in ('<', '<='):
            op = 'f' + op
        return (op, a, b)

    def e_cond(self, n):
        if self.decide(self.ev(n['c']), n['c']):
            return self.ev(n['a'])
        return self.ev(n['b'])

    def e_elvis(self, n):
        v = self.rvn(n['a'])
        return v if self.decide(v, n) else self.ev(n['b'])

    def e_init(self, n):
        t = bare(n['t'])
        if t.endswith(']'):
            return ('array', tuple(self.copy_value(self.ev(a)) for a in n['a']))
        c = self.F.classes.get(t)
        if len(n['a']) == 1 and (t in INT_TYPES or t in FLOAT_TYPES or t.endswith('*')):
            return self.ev(n['a'][0])
        vals = [self.copy_value(self.ev(a)) for a in n['a']]
        if c and len(c['fields']) >= len(vals) - len(c['bases']):
            vs = vals[len(c['bases']):]
            return ('struct', ('make', t), tuple(sorted((f['n'], v) for f, v in zip(c['fields'], vs))))
        return ('init', t) + tuple(vals)

    def e_typeid(self, n):
        if 'of' in n:
            return ('typeid', n['of'])
        return ('typeid_of', self.rvn(n['e']))

    def e_throw(self, n):
        v = self.rvn(n['e']) if n.get('e') else UNSPEC
        raise Throw(n.get('tt', 'rethrow'), v, n)

    def e_new(self, n):
        t = bare(n['t'])
        if t.endswith('*'):
            t = t[:-1].strip()
        self.fresh_n += 1
        lv = LV(('heap', self.fresh_n, t))
        self.init_storage(lv, n.get('init'), t)
        return ('addr', lv.key)

    def e_delete(self, n):
        self.path.trace.append(('delete', n.get('dt'), self.rvn(n['e']), n))
        return UNSPEC

    def mk_lambda(self, n):
        env = self.frames[-1] if self.frames else None
        fid = self.new_frame()
        caps = {'id': fid, 'vars': {}, 'this': env.get('this') if env else None, 'fn': env['fn'] if env else None, 'parent': env}
        for c in n['caps']:
            if 'd' not in c:
                continue
            if c.get('initcap'):
                v = self.ev(c['init']) if 'init' in c else UNDEF
                if c['ref'] and isinstance(v, LV):
                    caps['vars'][c['d']] = v
                else:
                    lv = LV(('var', fid, c['d']))
                    self.store[lv.key] = self.copy_value(v)
                    caps['vars'][c['d']] = lv
            else:
                lv = self.lookup(c['d']) if env else None
                if lv is None:
                    continue
                if c['ref']:
                    caps['vars'][c['d']] = lv
                else:
                    nlv = LV(('var', fid, c['d']))
                    self.store[nlv.key] = self.copy_value(lv)
                    caps['vars'][c['d']] = nlv
        t = ('lambda', n['cls'], fid)
        self.lambdas[t] = (tuple(n['ops']), caps)
        return t

    def e_lambda(self, n):
        return self.mk_lambda(n)

    def e_ctor(self, n):
        args = n['a']
        cache = {}

        def ev(i):
            if i not in cache:
                cache[i] = self.ev(args[i])
            return cache[i]
        h = self.ctor_hook(n, n.get('cls', ''), args, ev)
        if h is not None:
            return h
        if (n.get('copy') or n.get('elide')) and len(args) == 1:
            return self.copy_value(ev(0))
        fn = self.F.fns.get(n['f'])
        if fn and self.can_inline(fn):
            lv = LV(('tmpobj', self.new_frame(), bare(n['t'])))
            self.call_fn(fn, lv, [ev(i) for i in range(len(args))], n)
            return lv
        return self.simplify(('make', bare(n['t'])) + tuple(self.rv(ev(i)) for i in range(len(args))))

    def e_call(self, n):
        args = n['a']
        cache = {}

        def ev(i):
            if i not in cache:
                cache[i] = self.ev(args[i])
            return cache[i]
        q = n.get('q')
        obj = None
        if self.rtl and len(args) > 1 and not n.get('op'):
            for i in range(len(args) - 1, -1, -1):
                ev(i)
        if n.get('op') in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=') and args:
            ev(0)  # the right operand of an assignment is sequenced first
        if 'o' in n and n['o'] is not None:
            obj = self.ev(n['o'])
            if n['o'].get('t', '').rstrip().endswith('*') and not n.get('op'):
                obj = self.deref(obj)
        fn = self.F.fns.get(n['f']) if 'f' in n else None
        callee = None
        if 'callee' in n:
            callee = self.rvn(n['callee'])
            if isinstance(callee, tuple) and callee and callee[0] == 'fn':
                fn = self.F.fns.get(callee[1])
                q = callee[2]
        h = self.call_hook(n, q, fn, obj, args, ev)
        if h is not None:
            return h
        s = self.std_call(n, q, obj, args, ev)
        if s is not None:
            return s
        # lambdas: find the closure's environment
        parent = None
        this = obj
        if fn is not None and fn.get('lambda'):
            ov = self.rv(obj) if obj is not None else None
            if isinstance(ov, tuple) and ov and ov[0] == 'lambda' and ov in self.lambdas:
                parent = self.lambdas[ov][1]
                this = None     # inside the body, this is the enclosing object
        if fn is not None and not (n.get('virt') and not n.get('qualified')):
            if self.can_inline(fn):
                vals = [ev(i) for i in range(len(args))]
                return self.call_fn(fn, this, vals, n, parent)
        vals = [ev(i) for i in range(len(args))]
        if fn is None and callee is not None:
            return self.unknown_call(n, '(indirect)', callee, vals)
        return self.unknown_call(n, q, obj, vals)

    IDENTITY = {'std::forward', 'std::move', 'std::as_const', 'std::identity::operator()', 'std::launder', 'std::addressof_', 'std::ref', 'std::cref'}

    def std_call(self, n, q, obj, args, ev):
        if q in self.IDENTITY:
            return ev(0)
        if q in ('std::addressof', '__builtin_addressof'):
            v = ev(0)
            return ('addr', v.key) if isinstance(v, LV) else ('addr', v)
        if q in ('__builtin_expect',):
            return ev(0)
        if q in ('__builtin_unreachable', 'std::unreachable', '__builtin_trap', 'std::abort', 'abort', 'std::terminate'):
            raise Stop('unreachable')
        if q in ('std::make_tuple', 'std::make_pair') and len(args) == 2:
            vs = [self.copy_value(ev(i)) for i in range(2)]
            return ('struct', ('make', q[10:]), (('first', vs[0]), ('second', vs[1])))
        if q == 'std::get' and len(args) == 1:
            i = (n.get('ta') or ['?'])[0]
            v = ev(0)
            k = v.key if isinstance(v, LV) else v
            if i == '0' or i == '1':
                return LV(('mem', k, 'first' if i == '0' else 'second'))
        return None

    def call_lambda(self, lam, args, node=None, op=None):
        """Calls a lambda value (of a plain, or a selected generic, operator())."""
        ops, caps = self.lambdas[lam]
        cands = [self.F.fns[o] for o in ops if o in self.F.fns]
        if op is not None:
            cands = [c for c in cands if c['key'] == op]
        if not cands:
            return None
        return self.call_fn(cands[0], None, args, node, caps)

    def e_other(self, n):
        for c in n.get('ch', ()):
            if c is not None and c['k'] not in ('block', 'decl', 'if'):
                self.ev(c)
        return ('opaque', n['sc'], n.get('l', 0))

    def e_ictor(self, n):
        return UNSPEC

    # ---- statements ---------------------------------------------------------
    def ex(self, s):
        if s is None:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        self.ev(s)

    def s_nop(self, s): pass
    def s_table(self, s): pass

    def s_block(self, s):
        self.run_list(s['s'])

    def run_list(self, ss, start=0):
        i = start
        while i < len(ss):
            try:
                self.ex(ss[i])
            except Goto as g:
                j = self.find_label(ss, g.n)
                if j is None:
                    raise
                self.goto_n = getattr(self, 'goto_n', 0) + 1
                if not self.on_goto(g.n):
                    raise
                i = j
                continue
            i += 1

    def on_goto(self, label):
        """Return False to end the path at a goto (outcome 'goto')."""
        return False

    @staticmethod
    def find_label(ss, n):
        for i, s in enumerate(ss):
            while s is not None and s['k'] == 'label':
                if s['n'] == n:
                    return i
                s = s['s']
        return None

    def s_label(self, s):
        self.ex(s['s'])

    def s_goto(self, s):
        raise Goto(s['n'])

    def s_decl(self, s):
        for v in s['v']:
            self.declare_var(v)

    def declare_var(self, v):
        lv = LV(('var', self.frames[-1]['id'], v['d']))
        init = v.get('init')
        if v.get('static') and not is_ref(v['t']):
            # one storage for all calls, initialised by the first
            fr = self.frames[-1]
            while fr.get('fn') is None and fr.get('parent'):
                fr = fr['parent']
            lv = LV(('var', ('static', (fr.get('fn') or {}).get('key')), v['d']))
            if lv.key in self.store:
                self.declare(v['d'], lv)
                return lv
        if is_ref(v['t']):
            x = self.ev(init)
            if isinstance(x, LV):
                lv = x
            else:
                self.store[lv.key] = x
            self.declare(v['d'], lv)
        else:
            self.declare(v['d'], lv)
            for k in [k for k in self.store if k[0] in ('mem', 'idx') and self.under(k, lv.key)]:
                del self.store[k]
            if init is None:
                self.store[lv.key] = UNDEF if bare(v['t']) in INT_TYPES or v['t'].endswith('*') else ('make', bare(v['t']))
            else:
                self.init_storage(lv, init, v['t'])
        for i, b in enumerate(v.get('bind', ())):
            if 'init' in b:
                self.declare(b['d'], LV(('bind', lv.key, I(i))))
                x = self.binding(v, lv, b, i)
                if x is not None:
                    self.declare(b['d'], x)
        return lv

    @staticmethod
    def under(k, root):
        while isinstance(k, tuple) and k and k[0] in ('mem', 'idx'):
            k = k[1]
            if k == root:
                return True
        return False

    def binding(self, v, lv, b, i):
        try:
            x = self.ev(b['init'])
        except RecursionError:
            return None
        if isinstance(x, LV):
            return x
        t = LV(('bindtmp', lv.key, I(i)))
        self.store[t.key] = x
        return t

    def cond_of(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('var'):
            self.declare_var(s['var'])
        return self.ev(s['c'])

    def s_if(self, s):
        if s.get('consteval'):
            self.ex(s['b'])
            return
        if self.decide(self.cond_of(s), s.get('c')):
            self.ex(s['a'])
        else:
            self.ex(s['b'])

    def flatten_switch(self, body):
        """[(labels, stmt)] in order; labels: list of case nodes/'default'."""
        items = []

        def push(s):
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                labels.append(s['v'] if s['k'] == 'case' else 'default')
                if s['k'] == 'case' and 'hi' in s:
                    labels[-1] = ('range', s['v'], s['hi'])
                s = s['s']
            items.append((labels, s))
        for s in (body['s'] if body['k'] == 'block' else [body]):
            if s is None:
                continue
            push(s)
        return items

    def s_switch(self, s):
        v = self.rv(self.cond_of(s))
        items = self.flatten_switch(s['body'])
        start = None
        for i, (labels, st) in enumerate(items):
            for l in labels:
                if l == 'default':
                    continue
                if isinstance(l, tuple):
                    lo, hi = self.rvn(l[1]), self.rvn(l[2])
                    c = ('range', v, lo, hi)
                else:
                    c = self.switch_eq(v, self.rvn(l))
                if self.decide(c, l if isinstance(l, dict) else None):
                    start = i
                    break
            if start is not None:
                break
        if start is None:
            for i, (labels, st) in enumerate(items):
                if 'default' in labels:
                    start = i
        if start is None:
            return
        try:
            self.run_list([st for _, st in items], start)
        except Break:
            pass

    def switch_eq(self, v, c):
        return self.binop('==', v, c, 'bool')

    def loop(self, cond, body, inc, post=False):
        n = 0
        first = post
        while True:
            if not first:
                if cond is not None:
                    t = self.ev(cond)
                    if not self.decide_loop(t, cond, n):
                        break
            first = False
            n += 1
            if n > self.max_unroll_for(cond):
                raise Stop('loop bound')
            try:
                self.ex(body)
            except Break:
                break
            except Continue:
                pass
            if inc is not None:
                self.ev(inc)

    def max_unroll_for(self, cond):
        return self.max_unroll

    def decide_loop(self, t, node, n):
        return self.decide(t, node)

    def s_while(self, s):
        if s.get('var'):
            n = 0
            while True:
                self.declare_var(s['var'])
                if not self.decide(self.ev(s['c']), s['c']):
                    break
                n += 1
                if n > self.max_unroll:
                    raise Stop('loop bound')
                try:
                    self.ex(s['s'])
                except Break:
                    break
                except Continue:
                    pass
            return
        self.loop(s['c'], s['s'], None)

    def s_do(self, s):
        self.loop(s['c'], s['s'], None, post=True)

    def s_for(self, s):
        self.ex(s['init'])
        self.loop(s['c'], s['s'], s['inc'])

    def s_rfor(self, s):
        if s.get('init'):
            self.ex(s['init'])
        r = self.ev(s['range'])
        rv = self.rv(r)
        if isinstance(rv, tuple) and rv and rv[0] in ('array', 'init'):
            for x in (rv[1] if rv[0] == 'array' else rv[2:]):
                lv = LV(('var', self.frames[-1]['id'], s['var']['d']))
                self.declare(s['var']['d'], lv)
                self.store[lv.key] = x
                try:
                    self.ex(s['s'])
                except Break:
                    break
                except Continue:
                    continue
            return
        return self.range_loop(s, r)

    def range_loop(self, s, r):
        n = 0
        key = r.key if isinstance(r, LV) else r
        while True:
            more = self.fork(2) == 0 if n < self.max_unroll else False
            self.path.conds.append((('more', key, n), more, s))
            if not more:
                break
            lv = LV(('elem', key, I(n)))
            if is_ref(s['var']['t']):
                self.declare(s['var']['d'], lv)
            else:
                l2 = LV(('var', self.frames[-1]['id'], s['var']['d']))
                self.store[l2.key] = self.load(lv)
                self.declare(s['var']['d'], l2)
            n += 1
            try:
                self.ex(s['s'])
            except Break:
                break
            except Continue:
                continue

    def s_return(self, s):
        v = self.ev(s['e']) if s.get('e') else UNSPEC
        raise Return(v)

    def s_break(self, s): raise Break()
    def s_continue(self, s): raise Continue()

    def s_case(self, s): self.ex(s['s'])
    def s_default(self, s): self.ex(s['s'])

    def s_try(self, s):
        depth = len(self.frames)
        sd = len(self.stack)
        try:
            self.ex(s['s'])
        except Throw as t:
            del self.frames[depth:]
            del self.stack[sd:]
            for h in s['h']:
                if 't' not in h or self.catches(h['t'], t.t):
                    if 'd' in h:
                        lv = LV(('exc', h['d']))
                        self.store[lv.key] = t.v
                        self.declare(h['d'], lv)
                    self.ex(h['s'])
                    return
            raise

    def catches(self, handler, thrown):
        a, b = bare(handler).replace('__cxx11::', ''), bare(thrown).replace('__cxx11::', '')
        if a == b:
            return True
        seen = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == a:
                return True
            c = self.F.classes.get(x)
            if c:
                todo += [bare(y) for y in c['bases']]
            else:
                todo += STD_BASES.get(x, [])
        return False


STD_BASES = {
    'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
    'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'],
    'std::length_error': ['std::logic_error'], 'std::domain_error': ['std::logic_error'],
    'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error'],
    'std::underflow_error': ['std::runtime_error'], 'std::system_error': ['std::runtime_error'],
    'std::ios_base::failure': ['std::system_error'], 'std::filesystem::filesystem_error': ['std::system_error'],
    'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'],
    'std::bad_variant_access': ['std::exception'], 'std::bad_optional_access': ['std::exception'],
}
