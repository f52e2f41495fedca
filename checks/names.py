"""Interpretation of the parts of the kernel that work on names: symbols are
distinct known objects, their names and the rendering of a datum are known
strings, the table of libraries is a known map."""
from engine.interp import *
from engine.kernel import tn
from . import prims

NUL = NULL


class Names(prims.Prim):
    max_paths = 64
    max_recur = 30
    max_unroll = 16
    time_limit = 20
    CLASSES = {'library': 'meevax::library'}

    def setup(self):
        super().setup()
        self.syms = {}

    # ---- data ------------------------------------------------------------------
    def sym(self, name):
        v = self.syms.get(name)
        if v is None:
            v = self.syms[name] = self.obj('sym:' + name, 'symbol')
            self.store[('mem', ('as', 'symbol', v), 'name')] = ('str', name)
        return v

    def datum(self, x):
        """A datum from a Python description: str = symbol, tuple = list, int = exact integer, other = itself."""
        if isinstance(x, Dot):
            r = self.datum(x.end)
            for y in reversed(x.items):
                r = self.new_pair(self.datum(y), r)
            return r
        if isinstance(x, str):
            return self.sym(x)
        if isinstance(x, Raw):
            return x.v
        if isinstance(x, (tuple, list)):
            r = NULL
            for y in reversed(x):
                r = self.new_pair(self.datum(y), r)
            return r
        if isinstance(x, bool):
            return ('imm', 'bool', I(int(x)))
        if isinstance(x, int):
            return ('imm', 'int', I(x))
        raise TypeError(x)

    npair = 0

    def new_pair(self, a, d):
        self.npair += 1
        return self.pair('p%d' % self.npair, a, d)

    def car_(self, v):
        return self.copy_value(self.load(LV(('car', v))))

    def cdr_(self, v):
        return self.copy_value(self.load(LV(('cdr', v))))

    def show(self, v, depth=0):
        """The external representation of a known datum."""
        v = self.copy_value(v)
        if depth > 60:
            raise Stop('depth')
        if v == NULL:
            return '()'
        t = self.dyntype(v)
        if t == 'symbol':
            return self.name_of(v)
        if t in ('pair',) or isinstance(v, tuple) and v and v[0] == 'cell' and self.store.get(('car', v)) is not None:
            out = []
            while v != NULL:
                if self.dyntype(v) in ('symbol', 'int', 'bool') or not (self.store.get(('car', v)) is not None):
                    out += ['.', self.show(v, depth + 1)]
                    break
                out.append(self.show(self.car_(v), depth + 1))
                v = self.cdr_(v)
            return '(%s)' % ' '.join(out)
        if isinstance(v, tuple) and v and v[0] == 'imm' and is_int(v[2]):
            return ('#t' if v[2][1] else '#f') if v[1] == 'bool' else str(v[2][1])
        raise Stop('datum %s' % (v,))

    def name_of(self, v):
        s = self.load(LV(('mem', ('as', 'symbol', v), 'name')))
        if not (isinstance(s, tuple) and s and s[0] == 'str'):
            raise Stop('name')
        return s[1]

    def string(self, v):
        s = self.rv(v)
        if isinstance(s, LV):
            s = self.load(s)
        if isinstance(s, tuple) and s and s[0] == 'str':
            return s[1]
        return None

    def global_value(self, k):
        return super().global_value(k)

    # ---- calls -----------------------------------------------------------------
    def call_hook(self, n, q, fn, obj, args, ev):
        if q == 'meevax::make_symbol':
            s = self.string(ev(0))
            if s is None:
                raise Stop('symbol of an unknown name')
            return self.sym(s)
        if q == 'meevax::lexical_cast' and len(args) == 1:
            v = self.rv(ev(0))
            if isinstance(v, tuple) and v and v[0] == 'str':
                return v
            return ('str', self.show(v))
        if q == 'meevax::features' and hasattr(self, 'features'):
            return self.features
        if q == 'meevax::libraries':
            return LV(('libraries',))
        if q in ('std::operator==', 'std::operator!=') and len(args) == 2 and obj is None:
            a, b = self.string(ev(0)), self.string(ev(1))
            if a is not None and b is not None:
                return I(int((a == b) == q.endswith('==')))
            a, b = self.rv(ev(0)), self.rv(ev(1))
            if all(isinstance(x, tuple) and x and x[0] == 'ait' for x in (a, b)):
                return I(int((a == b) == q.endswith('==')))
        if q in ('std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*') and obj is not None:
            x = self.rv(obj)
            if isinstance(x, tuple) and x and x[0] == 'ait' and x[2] is not None:
                return LV(('entry', x[1], x[2]))
        if q in ('std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->') and obj is not None:
            x = self.rv(obj)
            if isinstance(x, tuple) and x and x[0] == 'ait' and x[2] is not None:
                return ('addr', ('entry', x[1], x[2]))
        if q == 'std::make_tuple':
            return ('struct', ('make', 'tuple'), tuple(('t%d' % i, self.copy_value(ev(i))) for i in range(len(args))))
        if q == 'std::get' and len(args) == 1:
            v = ev(0)
            x = self.load(v) if isinstance(v, LV) else v
            i = 't%s' % (n.get('ta') or ['?'])[0]
            if isinstance(x, tuple) and x and x[0] == 'struct' and x[1] == ('make', 'tuple'):
                return LV(('mem', v.key, i)) if isinstance(v, LV) else dict(x[2])[i]
        if q == 'std::operator+' and len(args) == 2 and obj is None:
            a, b = self.string(ev(0)), self.string(ev(1))
            if a is not None and b is not None:
                return ('str', a + b)
        return super().call_hook(n, q, fn, obj, args, ev)

    def ctor_hook(self, n, cls, args, ev):
        if 'basic_string' in (n.get('t') or '') and args and 'view' not in n['t']:
            s = self.string(ev(0))
            if s is not None:
                return ('str', s)
        return super().ctor_hook(n, cls, args, ev)

    def cell(self, key, which):
        if key[0] == 'mem' and key[2] == 'evaluator':
            return LV((which, key))
        return super().cell(key, which)

    def library(self, name, exports, bindings, declarations=()):
        """A library object whose evaluator binds the given identities."""
        v = self.obj('lib:' + name, 'library')
        b = ('as', 'library', v)
        self.store[('mem', b, 'declarations')] = self.datum(declarations)
        self.store[('mem', b, 'export_specs')] = self.datum(exports)
        ev = ('mem', b, 'evaluator')
        self.store[('car', ev)] = NULL
        self.store[('cdr', ev)] = self.datum([Raw(self.identity(n, x)) for n, x in bindings])
        return v

    def identity(self, name, value):
        self.nid = getattr(self, 'nid', 0) + 1
        v = self.obj('id%d' % self.nid, 'absolute')
        self.store[('car', v)] = self.sym(name)
        self.store[('cdr', v)] = value
        return v

    def identities(self, v):
        """A list of identities as [(name, value)]."""
        out = []
        v = self.copy_value(v)
        while v != NULL:
            x = self.car_(v)
            if self.dyntype(x) not in ('absolute', 'macro'):
                raise Stop('not an identity: %s' % (x,))
            out.append((self.show(self.car_(x)), self.cdr_(x)))
            v = self.cdr_(v)
        return out

    def set_libraries(self, entries):
        self.store[('libraries',)] = ('assoc', tuple(range(len(entries))))
        for i, (name, v) in enumerate(entries):
            self.store[('mem', ('entry', ('libraries',), i), 'first')] = ('str', name)
            self.store[('mem', ('entry', ('libraries',), i), 'second')] = v

    def key_eq(self, x, y):
        a, b = self.string(x), self.string(y)
        if a is not None and b is not None:
            return I(int(a == b))
        return super().key_eq(x, y)


class Dot:
    def __init__(self, items, end):
        self.items, self.end = items, end


class Raw:
    def __init__(self, v):
        self.v = v


class Result:
    pass


def explore(F, setup, cls=Names):
    """Runs setup(k) -> thunk in an interpreter; the outcomes of every path."""
    k = cls(F)
    outs = []

    def go():
        import time
        k.deadline_all = time.time() + cls.time_limit
        k.npair = 0
        o = Result()
        o.value = o.why = o.thrown = None
        try:
            o.kind, o.value = 'return', setup(k)
        except Throw as t:
            o.kind, o.type, o.thrown = 'throw', t.t, t.v
        except Stop as s:
            o.kind, o.why = 'stop', s.why
        o.conds = list(k.path.conds)
        o.oob = list(k.oob)
        k.path.result = o
        outs.append(o)
    try:
        with prims.limit(cls.time_limit):
            k.explore(go)
    except (TooManyPaths, prims.TimeBound):
        o = Result()
        o.kind, o.why, o.conds, o.oob, o.value = 'stop', 'path bound', [], [], None
        outs.insert(0, o)
    return k, outs


def fn_of(F, q, pred=lambda f: True):
    fs = [f for f in F.by_q.get(q, []) if f.get('body') and pred(f)]
    return fs
