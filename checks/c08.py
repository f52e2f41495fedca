"""C08: type predicates and equivalence of objects.

Objects of every kind are compared with objects of every kind; immediates and
elements of sequences are symbols, of which equal ones denote the same value
and distinct ones distinct values, so that the equality types of the arguments
are enumerated.  Trees and graphs of pairs are enumerated up to a bound; the
expected result of equal? is bisimilarity, computed on the graph."""
import itertools
from engine.interp import *
from . import prims
from .common import where
from . import numbers as nm
from .num import isq, qsub, qc

T, F_ = ('imm', 'bool', I(1)), ('imm', 'bool', I(0))

# kind -> how an object of that kind is made
SEQUENCES = {
    'string': ('string', 'characters', lambda x: ('v', 'chr' + x)),
    'heterogeneous_vector': ('heterogeneous_vector', 'objects', lambda x: ('imm', 'character', ('v', 'e' + x))),
}
NUMBERS = ('int', 'large_integer', 'ratio', 'float', 'double', 'complex')
PORTS = ('standard_input_port', 'standard_output_port', 'standard_error_port', 'input_string_port', 'output_string_port', 'input_file_port', 'output_file_port', 'binary_input_file_port', 'binary_output_file_port', 'input_homogeneous_vector_port<unsigned char>', 'output_homogeneous_vector_port<unsigned char>')
ELEMENTS = ('signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double')
TAGS = ('s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'f32', 'f64')
HOMOGENEOUS = tuple('homogeneous_vector<%s>' % t for t in ELEMENTS)
IMMEDIATE = ('bool', 'character', 'instruction')
OTHER = ('null', 'pair', 'symbol', 'closure', 'continuation', 'procedure', 'box', 'environment', 'eof', 'error', 'file_error', 'read_error', 'syntactic_closure', 'transformer', 'ghost')
KINDS = OTHER + IMMEDIATE + NUMBERS + ('string', 'heterogeneous_vector') + HOMOGENEOUS + PORTS

INPUT = tuple(p for p in PORTS if 'input' in p)
OUTPUT = tuple(p for p in PORTS if 'input' not in p)
BINARY = tuple(p for p in PORTS if 'binary' in p or 'homogeneous' in p)
PREDICATES = {
    'null?': ('null',), 'pair?': None, 'boolean?': ('bool',), 'char?': ('character',), 'symbol?': ('symbol',),
    'string?': ('string',), 'vector?': ('heterogeneous_vector',), 'procedure?': ('closure', 'continuation', 'procedure'),
    'eof-object?': ('eof',), 'box?': ('box',), 'number?': NUMBERS, 'complex?': NUMBERS, 'exact-integer?': ('int', 'large_integer'),
    'transformer?': ('transformer',), 'port?': PORTS, 'input-port?': INPUT, 'output-port?': OUTPUT, 'binary-port?': BINARY,
    'textual-port?': tuple(p for p in PORTS if p not in BINARY), 'error-object?': ('error', 'file_error', 'read_error'),
    'file-error?': ('file_error',), 'read-error?': ('read_error',), 'closure?': ('closure',), 'continuation?': ('continuation',),
    'binary32?': ('float',), 'binary64?': ('double',), 'syntactic-closure?': ('syntactic_closure',), 'u8vector?': ('homogeneous_vector<unsigned char>',),
}
PREDICATES.update({t + 'vector?': ('homogeneous_vector<%s>' % e,) for t, e in zip(TAGS, ELEMENTS)})


class Objects(nm.Gcd, prims.Prim):
    """Distinct symbols denote distinct values."""

    def decide_hook(self, t):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == '==' and self.symbols:
            a, b = (self.symbol(x) for x in t[1:])
            if a is not None and b is not None:
                return a == b
        return super().decide_hook(t)

    symbols = True

    def symbol(self, x):
        x = self.strip_cast(x) if hasattr(self, 'strip_cast') else x
        while isinstance(x, tuple) and x and x[0] in ('mem', 'as', 'icast', 'fcast', 'narrow'):
            x = x[1] if x[0] == 'mem' else x[-1]
        return x if isinstance(x, tuple) and x and x[0] == 'v' else None


def make(k, kind, name, content=None):
    if kind == 'null':
        return NULL
    if kind in IMMEDIATE:
        return ('imm', kind, ('v', content or name))
    if kind == 'pair':
        return k.pair(name, ('v', name + 'a'), ('v', name + 'd'))
    if kind in NUMBERS:
        return k.number(name, kind)
    if kind in SEQUENCES:
        t, f, el = SEQUENCES[kind]
        return k.seq_obj(name, t, f, [el(x) for x in content or ''])
    if kind.startswith('homogeneous_vector'):
        return k.seq_obj(name, kind, 'values', [('v', 'n' + x) for x in content or ''])
    return k.obj(name, kind)


def truth(k, o):
    if o.kind == 'return' and not o.oob:
        if o.value == T:
            return True
        if o.value == F_:
            return False
    return None


def outcome(o):
    if o.oob:
        return 'reaches undefined behaviour (%s)' % (o.oob[0][0],)
    return {'return': lambda: 'returns ' + {T: '#t', F_: '#f'}.get(o.value, show(o.value)), 'throw': lambda: 'raises ' + str(o.type),
            'stop': lambda: 'cannot be followed: ' + o.why, 'diverge': lambda: 'does not terminate'}[o.kind]()


def judge(r, F, R, family, name, inst, build, want, symbols=True):
    """want: bool, or function (k, outcome) -> bool or None (any)."""
    fn = R.get(name)
    if fn is None:
        r.skip(family, inst, '', 'no such primitive')
        return
    cls = Objects if symbols else type('Numeric', (Objects,), {'symbols': False})
    w = where(fn)
    try:
        k, outs = prims.run(F, fn, build, cls)
    except Exception as e:
        r.skip(family, inst, w, '%s %s' % (type(e).__name__, str(e)[:100]))
        return
    unknown = None
    for o in outs:
        x = want(k, o) if callable(want) else want
        if x is None:
            continue
        if o.kind == 'stop' and not o.oob:
            unknown = o.why
            continue
        if truth(k, o) is not x:
            c = '; '.join('%s = %s' % (show(c[0]), c[1]) for c in o.conds[:4])
            r.bad(family, inst, w, '%s %s, not %s%s' % (inst, outcome(o), '#t' if x else '#f', ' when ' + c if c else ''))
            return
    if unknown:
        r.skip(family, inst, w, unknown)
    else:
        r.ok(family, inst, w)


def kinds(r, F, R):
    present = [x for x in KINDS if x in ('null', 'pair', 'bool', 'int', 'float', 'double') or 'meevax::kernel::' + x in F.classes or x.startswith(('homogeneous', 'input_homog', 'output_homog'))]
    for p, yes in sorted(PREDICATES.items()):
        for x in present:
            if yes is None:
                if x not in ('pair', 'null', 'string', 'symbol', 'procedure', 'box') + IMMEDIATE + NUMBERS[:5] + HOMOGENEOUS:
                    continue
                want = x == 'pair'
            else:
                want = x in yes
            judge(r, F, R, 'type predicates', p, '(%s %s)' % (p, x), lambda k, x=x: [make(k, x, 'x')], want)


DISTINCT = ('null', 'pair', 'symbol', 'closure', 'procedure', 'string', 'heterogeneous_vector', 'homogeneous_vector<unsigned char>', 'environment', 'continuation') + IMMEDIATE


def equivalence(r, F, R):
    for name in ('eq?', 'eqv?', 'equal?'):
        for a in DISTINCT + NUMBERS:
            # the same object
            if name == 'eq?' or a not in NUMBERS:
                def same(k, a=a):
                    x = make(k, a, 'x')
                    return [x, x]
                judge(r, F, R, name, name, '(let ((x %s)) (%s x x))' % (a, name), same, True)
            for b in DISTINCT + NUMBERS:
                if a != b and not (a in NUMBERS and b in NUMBERS):
                    judge(r, F, R, name, name, '(%s %s %s)' % (name, a, b), lambda k, a=a, b=b: [make(k, a, 'x'), make(k, b, 'y')], False)
        for a in IMMEDIATE:
            judge(r, F, R, name, name, '(%s %s-x %s-x)' % (name, a, a), lambda k, a=a: [make(k, a, 'x', 'c'), make(k, a, 'y', 'c')], True)
            judge(r, F, R, name, name, '(%s %s-x %s-y)' % (name, a, a), lambda k, a=a: [make(k, a, 'x', 'c'), make(k, a, 'y', 'd')], False)
    for name in ('eq?', 'eqv?'):
        for a in ('pair', 'procedure'):
            judge(r, F, R, name, name, '(%s %s another-%s)' % (name, a, a), lambda k, a=a: [make(k, a, 'x'), make(k, a, 'y')], False)
    for name in ('eqv?', 'equal?'):
        for a in nm.EXACT + nm.INEXACT:
            for b in nm.EXACT + nm.INEXACT:
                numeric(r, F, R, name, a, b)


def numeric(r, F, R, name, a, b):
    """eqv? on numbers: same exactness and value."""
    def spec(k, x, y):
        (ka, vx), (kb, vy) = x, y
        if ka != kb:
            return False if 'exact' in (ka, kb) else 'any'
        if ka == 'exact':
            for v, kd in ((vx, a), (vy, b)):
                if kd == 'ratio' and k.sign(qsub(k.den_of(v), qc(1))) == 0:
                    return 'any'
            if (a == 'ratio') != (b == 'ratio'):
                return False
            return k.sign(qsub(vx, vy)) == 0
        return 'any'
    nm.judge(r, F, R, name, name, (a, b), spec, expect=nm.expect_bool)


# ---- graphs ------------------------------------------------------------------
LEAVES = ('a', 'b', '')


def graphs():
    """(cells, x, y): cells is a list of (car, cdr), each the index of a cell or a leaf."""
    two = list(itertools.product((0, 1) + LEAVES, repeat=2))
    for g in itertools.product(two, repeat=2):
        yield g, 0, 1
    lists = [(c, d) for c in ('a', 'b') for d in (0, 1, 2, '')]
    for g in itertools.product(lists, repeat=3):
        yield g, 0, 1
    # two trees of height two
    for l in itertools.product(('a', 'b'), repeat=4):
        yield ((2, l[0]), (3, l[1]), (l[2], ''), (l[3], '')), 0, 1
        yield ((l[0], 2), (l[1], 3), ('', l[2]), (l[3], '')), 0, 1
    # cycles of different lengths
    for n, m in ((1, 2), (1, 3), (2, 3), (2, 4)):
        for odd in (None, 0, n + m - 1):
            g = [('a', (i + 1) % n) for i in range(n)] + [('a', n + (i + 1) % m) for i in range(m)]
            if odd is not None:
                g[odd] = ('b', g[odd][1])
            yield tuple(g), 0, n
    # shared structure against a tree
    yield ((1, 1), ('a', ''), (3, 4), ('a', ''), ('a', '')), 0, 2
    yield ((1, 1), ('a', ''), (3, 4), ('a', ''), ('b', '')), 0, 2
    yield ((1, 1), (2, 2), ('a', 'b'), (4, 5), (6, 6), (7, 7), ('a', 'b'), ('a', 'a')), 0, 3


def bisimilar(g, x, y):
    seen = set()
    todo = [(x, y)]
    while todo:
        p = todo.pop()
        if p in seen or p[0] == p[1]:
            continue
        seen.add(p)
        if not (isinstance(p[0], int) and isinstance(p[1], int)):
            return False
        for i in (0, 1):
            todo.append((g[p[0]][i], g[p[1]][i]))
    return True


def text(g, x):
    """The graph in datum label notation, or as equations when large."""
    return ' '.join('%d=(%s . %s)' % (i, *(str(c) if c != '' else '()' for c in cell)) for i, cell in enumerate(g))


def build_graph(k, g, x, y):
    cells = [k.pair('p%d' % i, NULL, NULL) for i in range(len(g))]
    for c, cell in zip(cells, g):
        for w, v in zip(('car', 'cdr'), cell):
            k.store[(w, c)] = cells[v] if isinstance(v, int) else NULL if v == '' else ('imm', 'character', ('v', v))
    return [cells[x], cells[y]]


def structures(r, F, R):
    fn = R.get('equal?')
    if fn is None:
        r.skip('equal? structures', 'equal?', '', 'no such primitive')
        return
    w = where(fn)
    n = {True: 0, False: 0}
    skipped = {}
    for g, x, y in graphs():
        want = bisimilar(g, x, y)
        k, outs = prims.run(F, fn, lambda k: build_graph(k, g, x, y), Objects)
        o = outs[0]
        if len(outs) == 1 and truth(k, o) is want and not o.effects:
            n[want] += 1
        elif any(p.kind == 'stop' for p in outs):
            skipped[outs[-1].why] = skipped.get(outs[-1].why, 0) + 1
        else:
            r.bad('equal? structures', 'graphs of pairs', w, '(equal? %d %d) of the cells %s %s%s, not %s' % (x, y, text(g, x), outcome(o), ' and modifies them' if o.effects else '', '#t' if want else '#f'))
            return
    for why, c in skipped.items():
        r.skip('equal? structures', '%d graphs' % c, w, why)
    for want, c in n.items():
        r.ok('equal? structures', '%d graphs of pairs that are %s' % (c, 'equal' if want else 'not equal'), w)
    # sequences by content
    for kind in ('string', 'heterogeneous_vector') + HOMOGENEOUS:
        for a in ('', 'a', 'ab', 'aba'):
            for b in ('', 'a', 'b', 'ab', 'ba', 'abb', 'aba'):
                judge(r, F, R, 'equal? sequences', 'equal?', '(equal? %s[%s] %s[%s])' % (kind, a, kind, b),
                      lambda k: [make(k, kind, 'x', a), make(k, kind, 'y', b)], a == b)


def check(r, F):
    R = prims.registry(F)
    r.rule('a type predicate is true of objects of its own kinds and false of objects of every other kind')
    r.rule('eq? and eqv? are true of an object and itself, of equal immediates and (eqv?) equal exact numbers, and false of objects of different kinds, of distinct pairs and procedures')
    r.rule('equal? is bisimilarity of the graphs of pairs reachable from its arguments, and equality of length and elements for sequences')
    kinds(r, F, R)
    equivalence(r, F, R)
    structures(r, F, R)
