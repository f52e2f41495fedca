"""The primitive procedures: registry extraction and abstract interpretation."""
from engine.interp import *
from engine.kernel import tn, NS
from engine.heap import Heap
import signal
import time
from engine.facts import AnalysisError


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, (list, tuple)):
        for v in n:
            yield from walk(v)


_cache = {}


def registry(F):
    """name -> function implementing the primitive (what resolve(name) returns)."""
    if id(F) in _cache:
        return _cache[id(F)]
    fs = F.by_q.get('meevax::resolve', [])
    if len(fs) != 1:
        raise AnalysisError('the registry of primitives (resolve) was not found')
    out = {}

    def strs(n):
        return [x['v'] for x in walk(n) if x.get('k') == 'str']

    def impl(n):
        for x in walk(n):
            if x.get('k') == 'lambda':
                return next((F.fns[o] for o in x['ops'] if o in F.fns), None)
            if x.get('k') == 'fref' and x['f'] in F.fns:
                return F.fns[x['f']]
        return None

    def visit(n):
        if isinstance(n, dict):
            if n.get('k') in ('ctor', 'init') and 'pair<' in n.get('t', '') and len(n.get('a', ())) == 2:
                s = strs(n['a'][0])
                f = impl(n['a'][1])
                if s and f is not None:
                    out.setdefault(s[0], f)   # unordered_map keeps the first of equal keys
                    return
            for v in n.values():
                visit(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                visit(v)
    visit(fs[0]['body'])
    if len(out) < 300:
        raise AnalysisError('only %d primitives found in the registry' % len(out))
    # a primitive is known to programs by the symbol a built-in library binds it to
    named = dict(out)
    for (lib, sym), prim in bindings(F).items():
        if sym != prim:
            named[sym] = out.get(prim)
    out = named
    _cache[id(F)] = out
    return out


def bindings(F):
    """(library, symbol) -> name of the primitive the built-in library binds it to."""
    cache = F.__dict__.setdefault('_bindings', {})
    if cache:
        return cache

    def strs(n):
        return [y['v'] for y in walk(n) if y.get('k') == 'str']
    for f in F.fns.values():
        if f['q'] != 'meevax::boot':
            continue
        for c in walk(f['body']):
            if c.get('k') == 'call' and c.get('q', '').endswith('::emplace') and len(c.get('a', ())) == 2:
                lib = strs(c['a'][0])
                lam = next((x for x in walk(c['a'][1]) if x.get('k') == 'lambda'), None)
                if not lib or lam is None:
                    continue
                for o in lam['ops']:
                    if o not in F.fns:
                        continue
                    for x in walk(F.fns[o]['body']):
                        if x.get('k') == 'call' and len(x.get('a', ())) == 2 and any(y.get('q') == 'meevax::make_symbol' for y in walk(x['a'][0])):
                            made = [y for y in walk(x['a'][1]) if y.get('q') == 'meevax::make' and 'procedure' in ''.join(y.get('ta') or [])]
                            sym = strs(x['a'][0])
                            if sym and made:
                                cache[(lib[0], sym[0])] = strs(made[0])[-1]
                            elif sym:
                                F.__dict__.setdefault('_constants', set()).add((lib[0], sym[0]))
    if len(cache) < 300:
        raise AnalysisError('only %d bindings of built-in libraries found' % len(cache))
    return cache


def constants(F):
    """(library, symbol) of the built-in bindings that are not procedures."""
    bindings(F)
    return F.__dict__.get('_constants', set())


class Prim(Heap):
    """A primitive applied to arguments of given shape."""
    time_limit = 20

    def setup(self):
        self.deadline = time.time() + self.time_limit

    max_recur = 24

    def make_hook(self, n, t, args, ev):
        # a string made from a C++ string: decoding UTF-8 is not followed here
        if t == 'string' and len(args) == 1 and (args[0].get('k') == 'str' or any(x in (args[0].get('t') or '') for x in ('basic_string', 'char *', 'char[', 'const char ['))) and 'vector' not in (args[0].get('t') or ''):
            c = self.new_cell('string')
            v = self.rv(ev(0))
            key = ('mem', ('as', 'string', c), 'characters')
            if isinstance(v, tuple) and v and v[0] == 'str':
                self.store[key] = ('seq', tuple(('imm', 'character', I(ord(x))) for x in v[1]))
            else:
                self.store[key] = ('decoded', v)
            return c
        return super().make_hook(n, t, args, ev)

    def recursion_bound(self, fn):
        raise Stop('recursion bound')

    def fork(self, n=2):
        if time.time() > self.deadline_all:
            raise TooManyPaths()
        return super().fork(n)

    def readback(self, v, depth=0):
        """Abstract value with identities: old objects by name, new ones by structure."""
        v = self.copy_value(v)
        if depth > 14:
            return ('...',)
        if isinstance(v, tuple) and v and v[0] == 'cell':
            seen = self.rb_seen
            if v in seen:
                return ('shared', seen[v])
            seen[v] = len(seen)
            if v[2] == 'pair':
                return ('cons', self.readback(self.load(LV(('car', v))), depth + 1), self.readback(self.load(LV(('cdr', v))), depth + 1))
            fields = []
            for k, x in self.store.items():
                if k[0] == 'mem' and k[1] == ('as', v[2], v) and k[2] not in ('base', 'size'):
                    fields.append((k[2], self.deep(x, depth + 1)))
            a, d = self.store.get(('car', v)), self.store.get(('cdr', v))
            if a is not None:
                fields.append(('first', self.readback(a, depth + 1)))
                fields.append(('second', self.readback(d, depth + 1)))
            return ('new', v[2], tuple(sorted(fields)))
        return self.deep(v, depth)

    def deep(self, v, depth):
        if isinstance(v, tuple) and v and v[0] == 'seq':
            return ('seq', tuple(self.readback(x, depth + 1) for x in v[1]))
        if isinstance(v, tuple) and v and v[0] == 'struct':
            d = dict(v[2])
            if set(d) == {'codepoint'}:
                c = d['codepoint']
                if isinstance(c, tuple) and c and c[0] == 'mem' and c[2] == 'codepoint':
                    return c[1]
                return ('chr', c)
        if isinstance(v, tuple) and v and v[0] == 'imm':
            return ('imm', v[1], self.deep(v[2], depth + 1)) if isinstance(v[2], tuple) else v
        return v

    def effects(self):
        """Writes to objects that existed before, as {path: value}."""
        out = {}
        for k, v in self.store.items():
            if k in self.initial and self.initial[k] == v:
                continue
            if k[0] in ('car', 'cdr') and k[1][0] == 'v':
                out[k] = self.readback(v)
            elif k[0] == 'mem' and k[1][0] == 'as' and k[1][2][0] == 'v' and k[2] not in ('base', 'size'):
                out[k] = self.deep(v, 0)
            elif k[0] == 'global':
                out[k] = v
        return out


class TimeBound(Exception):
    pass


class limit:
    """Bounds the time spent on one instance."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def ring(*_):
            raise TimeBound()
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.s + 1)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Outcome:
    pass


def run(F, fn, build, cls=Prim):
    """Runs primitive fn; build(k) creates the argument list in interpreter k and returns its elements."""
    k = cls(F)
    k.deadline_all = time.time() + cls.time_limit
    outs = []

    def go():
        k.argv = build(k)
        xs = k.list('args', k.argv)
        k.initial = dict(k.store)
        k.rb_seen = {}
        o = Outcome()
        try:
            a = LV(('arg', 'xs'))
            k.store[a.key] = xs
            v = k.call_fn(fn, None, [a])
            o.kind = 'return'
            v = k.copy_value(v)
            if isinstance(v, tuple) and v and v[0] == 'imm' and v[1] == 'bool' and not is_int(v[2]):
                v = ('imm', 'bool', I(int(k.decide(v[2]))))
            o.value = k.readback(v)
        except Throw as t:
            o.kind, o.type, o.thrown = 'throw', t.t, t.v
        except Stop as s:
            o.kind, o.why = 'stop', s.why
            if 'bound' in s.why and not k.path.conds and not k.oob:
                o.kind = 'diverge'     # a definite path that exceeds every bound on this shape
        o.effects = k.effects()
        o.oob = list(k.oob)
        o.conds = list(k.path.conds)
        o.argv = k.argv
        k.path.result = o
        outs.append(o)
        return None
    try:
        with limit(cls.time_limit):
            k.explore(go)
    except (TooManyPaths, TimeBound):
        o = Outcome()
        o.kind, o.why, o.effects, o.oob, o.conds, o.argv, o.value = 'stop', 'path bound', {}, [], [], k.argv, None
        outs.insert(0, o)
    return k, outs
