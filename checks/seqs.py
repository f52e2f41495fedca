"""Sequence primitives: strings, vectors, homogeneous vectors, byte vectors.
Arguments of every shape up to the bound; elements unconstrained."""
import itertools
from engine.interp import *
from . import prims
from .common import where

T, F_ = ('imm', 'bool', ('int', 1)), ('imm', 'bool', ('int', 0))
BITS = {'s8': 'signed char', 's16': 'short', 's32': 'int', 's64': 'long', 'u8': 'unsigned char', 'u16': 'unsigned short',
        'u32': 'unsigned int', 'u64': 'unsigned long', 'f32': 'float', 'f64': 'double'}


def num(i):
    return ('imm', 'int', I(i))


class SeqPrim(prims.Prim):
    def call_hook(self, n, q, fn, obj, args, ev):
        if q.startswith('meevax::homogeneous_vector') and q.endswith('::output_cast') and len(args) == 1:
            return ('out', self.elem_value(self.rv(ev(0))))
        if q.startswith('meevax::homogeneous_vector') and q.endswith('::input_cast') and len(args) == 1:
            return ('in', self.rv(ev(0)))
        if q == 'meevax::character::utf8' and obj is not None and not args:
            c = self.rv(obj)
            if isinstance(obj, LV) and self.seq_of(obj) is None:
                f = self.rv(LV(('mem', obj.key, 'codepoint')))
                c = f if not (isinstance(c, tuple) and c and c[0] == 'v') else c
            return ('seq', (('utf8', elem(c)),))
        return super().call_hook(n, q, fn, obj, args, ev)

    def elem_value(self, v):
        return v


def elem(x):
    """Element as a value independent of its representation."""
    while isinstance(x, tuple) and x:
        if x[0] == 'as' and x[1] == 'character':
            x = x[2]
        elif x[0] == 'imm' and x[1] == 'character':
            x = x[2]
        elif x[0] == 'mem' and x[2] == 'codepoint':
            x = x[1]
        elif x[0] == 'chr':
            x = x[1]
        elif x[0] in ('in', 'out'):
            x = x[1]
        elif x[0] == 'struct' and dict(x[2]).keys() == {'codepoint'}:
            x = dict(x[2])['codepoint']
        elif x[0] == 'make' and len(x) == 3 and 'character' in str(x[1]):
            x = x[2]
        else:
            break
    return x


def elems(s):
    return [elem(x) for x in s[1]]


class Kind:
    def __init__(self, name, typ, field, unit, is_char=False, conv=False):
        self.name, self.typ, self.field, self.unit, self.conv = name, typ, field, unit, conv
        self.char = is_char

    def raw(self, i, n):
        p = 'chr' if self.char else 'e'
        return [('v', '%s%d_%d' % (p, i, j)) for j in range(n)]

    def obj(self, k, i, n):
        return k.seq_obj('s%d' % i, self.typ, self.field, self.raw(i, n))

    def arg(self, k, name):
        """A new element, as an argument of a primitive."""
        v = ('v', ('chr' if self.char else 'x') + name)
        if self.char:
            k.types[v] = 'character'
        return v

    def new(self, name):
        return ('v', ('chr' if self.char else 'x') + name)

    def contents(self, o, i):
        """Contents of argument i after the call."""
        key = ('mem', ('as', self.typ, ('v', 's%d' % i)), self.field)
        return elems(o.effects[key]) if key in o.effects else None

    def fresh(self, v):
        """Elements of a new object of this kind, or None."""
        if isinstance(v, tuple) and v and v[0] == 'new' and v[1] == self.typ:
            for f, x in v[2]:
                if f == self.field and isinstance(x, tuple) and x[0] == 'seq':
                    return elems(x)
        return None


def kinds():
    out = [Kind('string', 'string', 'characters', 'char', is_char=True),
           Kind('vector', 'heterogeneous_vector', 'objects', 'object')]
    for tag, t in BITS.items():
        out.append(Kind(tag + 'vector', 'homogeneous_vector<%s>' % t, 'values', 'number', conv=True))
    return out


def unlist(v, depth=0):
    out = []
    while isinstance(v, tuple) and v and v[0] == 'cons' and depth < 40:
        out.append(elem(v[1]))
        v = v[2]
        depth += 1
    return out if v == NULL else None


def run(F, fn, build):
    return prims.run(F, fn, build, cls=SeqPrim)


def judge(r, F, R, kind, name, inst, build, test):
    """test(k, o) -> None if the outcome is as specified, else text."""
    fn = R.get(name)
    if fn is None:
        r.bad(kind, name, 'src/kernel/boot.cpp', 'primitive %s is not registered' % name)
        return
    full = '%s %s' % (name, inst)
    try:
        k, outs = run(F, fn, build)
    except RecursionError:
        r.skip(kind, full, where(fn), 'recursion')
        return
    for o in outs:
        if o.kind == 'stop' and not o.oob:
            r.skip(kind, full, where(fn), o.why)
            return
        why = test(k, o)
        if why:
            r.bad(kind, full, where(fn), '(%s): %s%s' % (full, why, '' if not o.conds else ' when ' + ', '.join('%s=%s' % (show(t)[:120], c) for t, c, _ in o.conds)))
            return
    r.ok(kind, full, where(fn))


def describe(o):
    if o.oob:
        return 'accesses ' + str(o.oob[0][0])
    if o.kind == 'return':
        return 'returns %s%s' % (show(o.value)[:200], ', modifies ' + '; '.join('%s := %s' % (show(a)[:60], show(b)[:100]) for a, b in o.effects.items()) if o.effects else '')
    return o.kind + ' ' + str(getattr(o, 'type', ''))


def expect_value(want):
    def f(k, o):
        if o.kind != 'return' or o.oob or o.effects:
            return describe(o) + ', expected ' + show(want)
        if elem(o.value) != want:
            return describe(o) + ', expected ' + show(want)
    return f


def expect_raise(k, o):
    if o.kind != 'throw' or o.effects or o.oob:
        return describe(o) + ', expected an error and no access'


def expect_list(want):
    def f(k, o):
        if o.kind != 'return' or o.oob or o.effects or unlist(o.value) != want:
            return describe(o) + ', expected a new list of ' + show(tuple(want))
    return f


def expect_fresh(kd, want):
    def f(k, o):
        if o.kind != 'return' or o.oob or o.effects or kd.fresh(o.value) != want:
            return describe(o) + ', expected a new %s of %s' % (kd.name, [show(x) for x in want])
    return f


def expect_effect(kd, i, want, old):
    """Argument i holds want afterwards and no other object changed."""
    def f(k, o):
        if o.kind != 'return' or o.oob:
            return describe(o) + ', expected the contents %s' % [show(x) for x in want]
        got = kd.contents(o, i)
        others = [x for x in o.effects if x != ('mem', ('as', kd.typ, ('v', 's%d' % i)), kd.field)]
        if others or (got if got is not None else old) != want:
            return describe(o) + ', expected the contents %s' % [show(x) for x in want]
    return f
