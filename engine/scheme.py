"""Abstract evaluator for the Scheme part of the implementation (library/*.ss).

Programs are read from the source text, macros are expanded with the transformers
the libraries define, and the resulting core forms are interpreted over an abstract
domain: concrete data structure plus opaque values (Unk) standing for every value.
A branch on an opaque value splits the analysis; each path carries the facts it
assumed.  Calls of opaque procedures are recorded as events and return fresh opaque
values.  Nothing is executed by the implementation itself.
"""
import math
from fractions import Fraction


class ReadError(Exception):
    pass


class AnalysisLimit(Exception):
    """A path left what the analysis can follow (never an alarm)."""


class Diverges(AnalysisLimit):
    """No end of the path within the bounds."""


# ---------------------------------------------------------------- data

class Sym:
    __slots__ = ('name',)
    table = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def S(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class _Single:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NIL = _Single('()')
UNSPEC = _Single('#!unspecified')
FEATURES = ('r7rs', 'exact-closed', 'exact-complex', 'ieee-float', 'full-unicode', 'ratios', 'posix', 'linux', 'x86_64', 'little-endian', 'meevax', '__cpp_lib_math_special_functions')
UNDEF = _Single('#!undefined')
EOF = _Single('#!eof')
DEFAULT = _Single('#!default')


class Pair:
    __slots__ = ('car', 'cdr', 'line')

    def __init__(self, car, cdr, line=None):
        self.car = car
        self.cdr = cdr
        self.line = line


class Vec:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)


class Bytes:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)


class Str:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)      # elements: Char or Unk

    @property
    def text(self):
        if all(isinstance(c, Char) for c in self.xs):
            return ''.join(chr(c.cp) for c in self.xs)
        return None


class Char:
    __slots__ = ('cp',)
    table = {}

    def __init__(self, cp):
        self.cp = cp


def C(cp):
    c = Char.table.get(cp)
    if c is None:
        c = Char.table[cp] = Char(cp)
    return c


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Alias:
    """syntactic closure"""
    __slots__ = ('env', 'free', 'form')

    def __init__(self, env, free, form):
        self.env = env
        self.free = free
        self.form = form


class Unk:
    """An opaque value.  kind: 'any' | 'procedure' | 'list' ... (only for printing)."""
    __slots__ = ('name', 'kind')

    def __init__(self, name, kind='any'):
        self.name = name
        self.kind = kind

    def __repr__(self):
        return '?' + self.name


class ErrorObj:
    def __init__(self, message, irritants, kind='error'):
        self.message = message
        self.irritants = irritants
        self.kind = kind


class SchemeError(Exception):
    """An error raised by a primitive procedure."""

    def __init__(self, obj):
        self.obj = obj


def err(msg, *irritants):
    return SchemeError(ErrorObj(msg, lst(irritants)))


class Closure:
    __slots__ = ('formals', 'rest', 'body', 'env', 'name')

    def __init__(self, formals, rest, body, env, name):
        self.formals, self.rest, self.body, self.env, self.name = formals, rest, body, env, name


class Prim:
    __slots__ = ('name', 'fn', 'special')

    def __init__(self, name, fn, special=False):
        self.name, self.fn, self.special = name, fn, special


class Kont:
    __slots__ = ('k', 'dyn')

    def __init__(self, k, dyn):
        self.k, self.dyn = k, dyn


class MultipleValues:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs


def lst(xs, tail=NIL):
    out = tail
    for x in reversed(list(xs)):
        out = Pair(x, out)
    return out


def unlist(x):
    out = []
    while isinstance(x, Pair):
        out.append(x.car)
        x = x.cdr
    return out, x


def proper(x, what='list'):
    xs, t = unlist(x)
    if t is not NIL:
        if isinstance(t, Unk):
            raise AnalysisLimit('%s of unknown extent' % what)
        raise err('not a proper list', x)
    return xs


# ---------------------------------------------------------------- reader

DELIM = set(' \t\n\r()";\'')
CHARNAMES = {'newline': 10, 'space': 32, 'tab': 9, 'return': 13, 'null': 0, 'nul': 0, 'alarm': 7, 'backspace': 8, 'delete': 127, 'escape': 27}


class Reader:
    def __init__(self, text, fname='', vars=None):
        self.t, self.i, self.f, self.vars = text, 0, fname, vars or {}
        self.line = 1

    def skip(self):
        t = self.t
        while self.i < len(t):
            c = t[self.i]
            if c == '\n':
                self.line += 1
                self.i += 1
            elif c.isspace():
                self.i += 1
            elif c == ';':
                while self.i < len(t) and t[self.i] != '\n':
                    self.i += 1
            elif t.startswith('#|', self.i):
                depth = 0
                while True:
                    if t.startswith('#|', self.i):
                        depth += 1
                        self.i += 2
                    elif t.startswith('|#', self.i):
                        depth -= 1
                        self.i += 2
                        if depth == 0:
                            break
                    else:
                        if self.i >= len(t):
                            raise ReadError('unterminated comment')
                        if t[self.i] == '\n':
                            self.line += 1
                        self.i += 1
            elif t.startswith('#;', self.i):
                self.i += 2
                self.read()
            else:
                return

    def all(self):
        out = []
        while True:
            self.skip()
            if self.i >= len(self.t):
                return out
            out.append(self.read())

    def token(self):
        j = self.i
        t = self.t
        if t[j] == '|':
            k = t.index('|', j + 1)
            self.i = k + 1
            return t[j:k + 1]
        while self.i < len(t) and t[self.i] not in DELIM:
            self.i += 1
        if j == self.i:
            raise ReadError('unexpected %r in %s:%d' % (t[j:j + 5], self.f, self.line))
        return t[j:self.i]

    def seq(self, close):
        out = []
        line = self.line
        while True:
            self.skip()
            if self.i >= len(self.t):
                raise ReadError('unterminated list in %s:%d' % (self.f, line))
            if self.t[self.i] == close:
                self.i += 1
                return lst_l(out, NIL, line)
            if self.t[self.i] == '.' and self.i + 1 < len(self.t) and self.t[self.i + 1] in DELIM:
                self.i += 1
                tail = self.read()
                self.skip()
                if self.t[self.i] != close:
                    raise ReadError('bad dotted list in %s:%d' % (self.f, self.line))
                self.i += 1
                return lst_l(out, tail, line)
            out.append((self.read(), self.line))

    def read(self):
        self.skip()
        t = self.t
        if self.i >= len(t):
            raise ReadError('eof')
        c = t[self.i]
        if c == '(':
            self.i += 1
            return self.seq(')')
        if c == ')':
            raise ReadError('unexpected ) in %s:%d' % (self.f, self.line))
        if c == '"':
            self.i += 1
            out = []
            while t[self.i] != '"':
                if t[self.i] == '\\':
                    self.i += 1
                    e = t[self.i]
                    if e == 'x':
                        k = t.index(';', self.i)
                        out.append(chr(int(t[self.i + 1:k], 16)))
                        self.i = k
                    elif e in 'ntra"\\|b':
                        out.append({'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'b': '\b'}.get(e, e))
                    elif e in ' \t\n':
                        while t[self.i] in ' \t':
                            self.i += 1
                        self.i += 1
                        self.line += 1
                        while t[self.i] in ' \t':
                            self.i += 1
                        continue
                    else:
                        out.append(e)
                    self.i += 1
                else:
                    if t[self.i] == '\n':
                        self.line += 1
                    out.append(t[self.i])
                    self.i += 1
            self.i += 1
            return Str(C(ord(x)) for x in out)
        for p, n in (("'", 'quote'), ('`', 'quasiquote'), (',@', 'unquote-splicing'), (',', 'unquote')):
            if t.startswith(p, self.i):
                line = self.line
                self.i += len(p)
                return Pair(S(n), Pair(self.read(), NIL), line)
        if c == '#':
            if t.startswith('#(', self.i):
                self.i += 2
                return Vec(unlist(self.seq(')'))[0])
            if t.startswith('#u8(', self.i):
                self.i += 4
                return Bytes(unlist(self.seq(')'))[0])
            if t.startswith('#\\', self.i):
                j = self.i + 3
                while j < len(t) and t[j] not in DELIM:
                    j += 1
                nm = t[self.i + 2:j]
                self.i = j
                if len(nm) == 1:
                    return C(ord(nm))
                if nm in CHARNAMES:
                    return C(CHARNAMES[nm])
                if nm[0] == 'x':
                    return C(int(nm[1:], 16))
                raise ReadError('character ' + nm)
        tok = self.token()
        return atom(tok)


def atom(tok):
    if tok in ('#t', '#true'):
        return True
    if tok in ('#f', '#false'):
        return False
    if tok[0] == '|':
        return S(tok[1:-1])
    n = number(tok)
    if n is not None:
        return n
    return S(tok)


def number(tok):
    radix, exact = 10, None
    while len(tok) > 1 and tok[0] == '#' and tok[1] in 'bodxei':
        k = tok[1]
        if k in 'ei':
            exact = k
        else:
            radix = {'b': 2, 'o': 8, 'd': 10, 'x': 16}[k]
        tok = tok[2:]
    try:
        v = int(tok, radix) if tok[:1] not in ('_',) and '_' not in tok else None
    except ValueError:
        v = None
    if v is None and radix == 10:
        if tok in ('+inf.0', '-inf.0', '+nan.0', '-nan.0'):
            v = {'+i': math.inf, '-i': -math.inf}.get(tok[:2], math.nan)
        elif '/' in tok:
            a, _, b = tok.partition('/')
            try:
                v = norm(Fraction(int(a), int(b)))
            except (ValueError, ZeroDivisionError):
                return None
        elif tok.lstrip('+-')[:1].isdigit() or (tok.lstrip('+-')[:1] == '.' and tok.lstrip('+-')[1:2].isdigit()):
            try:
                v = float(tok)
            except ValueError:
                return None
    return v


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def lst_l(items, tail, line):
    out = tail
    for x, ln in reversed(items):
        out = Pair(x, out, ln)
    if isinstance(out, Pair):
        out.line = line
    return out


def parse(text, fname=''):
    return Reader(text, fname).all()


# ---------------------------------------------------------------- syntactic environments

class Cell:
    """a global location"""
    __slots__ = ('name', 'value')

    def __init__(self, name, value=UNDEF):
        self.name, self.value = name, value


class LexVar:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Macro:
    __slots__ = ('transformer', 'env')

    def __init__(self, transformer, env):
        self.transformer, self.env = transformer, env


class Core:
    """core syntax; compile(C, form, env) -> ast"""
    __slots__ = ('name', 'compile')

    def __init__(self, name, compile):
        self.name, self.compile = name, compile


class SEnv:
    """frames: tuple (frame, parent) where frame is a list of [identifier, LexVar|Macro]; table: globals"""
    __slots__ = ('frames', 'table', 'interaction')

    def __init__(self, frames, table):
        self.frames, self.table = frames, table

    def extend(self, frame):
        return SEnv((frame, self.frames), self.table)


def is_id(x):
    return isinstance(x, Sym) or (isinstance(x, Alias) and is_id(x.form))


def resolve(x, env):
    """LexVar | Macro | Cell | None"""
    f = env.frames
    while f is not None:
        for k, b in f[0]:
            if k is x:
                return b
        f = f[1]
    if isinstance(x, Alias):
        r = env.table.get(x)
        if r is not None:
            return r
        r = resolve(x.form, x.env)
        return r
    return env.table.get(x)


def sym_of(x):
    while isinstance(x, Alias):
        x = x.form
    return x


# ---------------------------------------------------------------- compiler

class SyntaxErr(Exception):
    pass


class Compiler:
    def __init__(self, machine):
        self.m = machine
        self.created = []   # cells made by references to identifiers not (yet) defined
        self.about = None   # the top-level form being compiled

    def compile(self, x, env):
        while isinstance(x, Alias) and not is_id(x):
            x, env = x.form, self.close(x, env)
        if not isinstance(x, Pair):
            if is_id(x):
                return self.ref(x, env)
            return ('const', x)
        head = x.car
        if is_id(head):
            b = resolve(head, env)
            if isinstance(b, Cell):
                b = b.value
            if isinstance(b, Macro):
                return self.compile(self.expand(b, x, env), env)
            if isinstance(b, Core):
                try:
                    return b.compile(self, x, env)
                except AttributeError as e:
                    if e.name in ('car', 'cdr') and not isinstance(e.obj, Pair):
                        raise SyntaxErr('malformed %s' % b.name)
                    raise
        f = self.compile(head, env)
        args = []
        t = x.cdr
        while isinstance(t, Pair):
            args.append(self.compile(t.car, env))
            t = t.cdr
        spine = None if t is NIL else self.compile(t, env)
        return ('app', f, tuple(args), spine)

    def close(self, a, env):
        """Environment for the form of a syntactic closure."""
        if a.free is NIL:
            return a.env
        fr = []
        for n in proper(a.free):
            b = resolve(n, env)
            if b is not None:
                fr.append([n, b])
        return a.env.extend(fr)

    def expand(self, macro, form, env):
        return self.m.call(macro.transformer, [form, env, macro.env])

    def ref(self, x, env):
        b = resolve(x, env)
        if b is None:
            e = env
            base = x
            while isinstance(base, Alias):
                e, base = base.env, base.form
            b = e.table[base] = Cell(base.name)
            b.value = self.m.free(base.name)
            self.created.append((b, self.about))
        if isinstance(b, LexVar):
            return ('lex', b)
        if isinstance(b, Macro):
            raise SyntaxErr('keyword %s used as a variable' % sym_of(x).name)
        return ('glob', b)

    # bodies: sequential scan for definitions (letrec* semantics)
    def body(self, forms, env, pre=()):
        """forms: python list; returns ast"""
        frame = []
        inner = env.extend(frame)
        specs, exprs = [], []
        queue = [(f, inner) for f in forms]
        while queue:
            x, e = queue[0]
            while isinstance(x, Alias) and not is_id(x):
                # a closed form: scanned in its own environment, with this body's definitions visible
                e2 = self.close(x, e)
                e = SEnv((frame, e2.frames) if e2 is not e else e2.frames, e2.table)
                x = x.form
            if isinstance(x, Pair) and is_id(x.car):
                b = resolve(x.car, e)
                if isinstance(b, Cell):
                    b = b.value
                if isinstance(b, Macro):
                    queue[0] = (self.expand(b, x, e), e)
                    continue
                if isinstance(b, Core):
                    if b.name == 'begin':
                        queue[0:1] = [(y, e) for y in proper(x.cdr)]
                        continue
                    if b.name == 'define' and not exprs:
                        queue.pop(0)
                        target = x.cdr.car
                        if isinstance(target, Pair):
                            name, lam = target.car, ('lambda', target.cdr, x.cdr.cdr)
                        else:
                            name, lam = target, None
                        v = next((bb for k, bb in frame if k is name), None)
                        if v is None:
                            v = LexVar(name)
                            frame.append([name, v])
                        specs.append((v, lam, x, e))
                        continue
                    if b.name == 'define-syntax' and not exprs:
                        queue.pop(0)
                        name = x.cdr.car
                        ent = [name, Macro(None, e)]
                        frame.append(ent)
                        ent[1].transformer = self.transformer(x.cdr.cdr.car, e)
                        continue
            queue.pop(0)
            exprs.append((x, e))
        if not exprs and not specs:
            return ('seq', (('const', NIL),))
        out = []
        for v, lam, x, e in specs:
            if lam:
                init = self.lam(lam[1], proper(lam[2]), e, sym_of(v.id).name)
            elif x.cdr.cdr is NIL:
                init = ('const', UNSPEC)
            else:
                init = self.compile(x.cdr.cdr.car, e)
            out.append(('setlex', v, init))
        for x, e in exprs:
            out.append(self.compile(x, e))
        vs = [b for k, b in frame if isinstance(b, LexVar)]
        seq = ('seq', tuple(out)) if len(out) != 1 else out[0]
        return ('scope', tuple(vs), seq) if vs else seq

    def lam(self, formals, forms, env, name=None):
        frame, vs = [], []
        rest = None
        t = formals
        while isinstance(t, Pair):
            if not is_id(t.car):
                raise SyntaxErr('formal parameter is not an identifier')
            v = LexVar(t.car)
            frame.append([t.car, v])
            vs.append(v)
            t = t.cdr
        if t is not NIL:
            if not is_id(t):
                raise SyntaxErr('rest parameter is not an identifier')
            rest = LexVar(t)
            frame.append([t, rest])
        if not forms:
            raise SyntaxErr('empty body')
        return ('lambda', tuple(vs), rest, self.body(forms, env.extend(frame)), name)

    def transformer(self, spec, env):
        return self.m.run(self.compile(spec, env))

    # toplevel
    def toplevel(self, x, env):
        if isinstance(x, Pair) and x.line is not None:
            self.about = x
        while isinstance(x, Alias) and not is_id(x):
            x, env = x.form, x.env
        if isinstance(x, Pair) and is_id(x.car):
            b = resolve(x.car, env)
            if isinstance(b, Cell):
                b = b.value
            if isinstance(b, Macro):
                return self.toplevel(self.expand(b, x, env), env)
            if isinstance(b, Core):
                if b.name == 'begin':
                    v = UNSPEC
                    for y in proper(x.cdr):
                        v = self.toplevel(y, env)
                    return v
                if b.name == 'define':
                    t = x.cdr.car
                    if isinstance(t, Pair):
                        name, ast = t.car, self.lam(t.cdr, proper(x.cdr.cdr), env, sym_of(t.car).name)
                    else:
                        name = t
                        ast = ('const', UNSPEC) if x.cdr.cdr is NIL else self.compile(x.cdr.cdr.car, env)
                    v = self.m.run(ast)
                    self.defglob(name, env, v)
                    return name
                if b.name == 'define-syntax':
                    name = x.cdr.car
                    t = self.transformer(x.cdr.cdr.car, env)
                    self.defglob(name, env, Macro(t, env))
                    return name
        return self.m.run(self.compile(x, env))

    def defglob(self, name, env, v):
        b = resolve(name, env)
        if not isinstance(b, Cell) or isinstance(name, Alias) and name not in env.table:
            b = env.table[name] = Cell(sym_of(name).name)
        elif name not in env.table:
            b = env.table[name] = Cell(sym_of(name).name)
        b.value = v


def strip(x, memo=None):
    """quote: remove syntactic closures"""
    if isinstance(x, Alias):
        return strip(x.form)
    if isinstance(x, Pair):
        items, t = [], x
        changed = False
        while isinstance(t, Pair):
            y = strip(t.car)
            changed |= y is not t.car
            items.append(y)
            t = t.cdr
        t2 = strip(t)
        if not changed and t2 is t:
            return x
        return lst(items, t2)
    if isinstance(x, Vec):
        ys = [strip(y) for y in x.xs]
        if all(a is b for a, b in zip(ys, x.xs)):
            return x
        return Vec(ys)
    return x


def core_table():
    T = {}

    def core(name):
        def deco(f):
            T[name] = Core(name, f)
            return f
        return deco

    @core('quote')
    def _(c, x, env):
        return ('const', strip(x.cdr.car))

    @core('quote-syntax')
    def _(c, x, env):
        return ('const', x.cdr.car)

    @core('if')
    def _(c, x, env):
        xs = proper(x.cdr)
        if len(xs) not in (2, 3):
            raise SyntaxErr('if')
        return ('if', c.compile(xs[0], env), c.compile(xs[1], env), c.compile(xs[2], env) if len(xs) == 3 else ('const', UNSPEC))

    @core('begin')
    def _(c, x, env):
        xs = proper(x.cdr)
        if not xs:
            return ('const', UNSPEC)
        return ('seq', tuple(c.compile(y, env) for y in xs))

    @core('lambda')
    def _(c, x, env):
        return c.lam(x.cdr.car, proper(x.cdr.cdr), env)

    @core('set!')
    def _(c, x, env):
        r = c.ref(x.cdr.car, env)
        return ('set' + r[0], r[1], c.compile(x.cdr.cdr.car, env))

    @core('define')
    def _(c, x, env):
        raise SyntaxErr('definition in expression context')

    @core('define-syntax')
    def _(c, x, env):
        raise SyntaxErr('definition in expression context')

    @core('letrec')
    def _(c, x, env):
        frame, vs = [], []
        for b in proper(x.cdr.car):
            v = LexVar(b.car)
            frame.append([b.car, v])
            vs.append(v)
        e = env.extend(frame)
        inits = [c.compile(b.cdr.car, e) for b in proper(x.cdr.car)]
        return ('letrec', tuple(vs), tuple(inits), c.body(proper(x.cdr.cdr), e))

    def lsyntax(rec):
        def f(c, x, env):
            frame = []
            inner = env.extend(frame)
            for b in proper(x.cdr.car):
                e = inner if rec else env
                m = Macro(None, e)
                if rec:
                    frame.append([b.car, m])
                    m.transformer = c.transformer(b.cdr.car, e)
                else:
                    m.transformer = c.transformer(b.cdr.car, e)
                    frame.append([b.car, m])
            return c.body(proper(x.cdr.cdr), inner)
        return f
    T['let-syntax'] = Core('let-syntax', lsyntax(False))
    T['letrec-syntax'] = Core('letrec-syntax', lsyntax(True))

    @core('call-with-current-continuation!')
    def _(c, x, env):
        return ('callcc', c.compile(x.cdr.car, env))

    @core('current')
    def _(c, x, env):
        return ('current', x.cdr.car)

    @core('install')
    def _(c, x, env):
        return ('install', x.cdr.car, c.compile(x.cdr.cdr.car, env))

    @core('conditional-expand')
    def _(c, x, env):
        def holds(q):
            q = strip(q)
            if isinstance(q, Pair):
                h, args = q.car.name, proper(q.cdr)
                if h == 'library':
                    return c.m.library(args[0])
                if h == 'not':
                    return not holds(args[0])
                return {'and': all, 'or': any}[h](holds(y) for y in args)
            return q.name == 'else' or q.name in FEATURES
        for clause in proper(x.cdr):
            if holds(clause.car):
                body = proper(clause.cdr)
                return c.compile(body[0], env) if len(body) == 1 else ('seq', tuple(c.compile(y, env) for y in body))
        raise SyntaxErr('no clause of cond-expand holds')

    @core('include')
    def _(c, x, env):
        raise AnalysisLimit('include')
    T['include-case-insensitive'] = Core('include-case-insensitive', T['include'].compile)
    return T


# ---------------------------------------------------------------- machine

class World:
    """One path of the analysis: the assumptions made about opaque values, and the events."""

    def __init__(self, script=(), limit=60000, force=None):
        self.force = force or {}
        self.script = list(script)
        self.pos = 0
        self.decisions = {}
        self.order = []
        self.steps = 0
        self.limit = limit
        self.equal_to = {}

    def decide(self, key):
        v = self.decisions.get(key)
        if v is not None:
            return v
        if self.force:
            base, _, n = key.rpartition('.')
            if base in self.force and n.isdigit() and int(n) >= self.force[base][0]:
                self.decisions[key] = self.force[base][1]
                return self.force[base][1]
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.script.append(True)
        self.pos += 1
        if self.pos > 40:
            raise Diverges('too many assumptions on one path')
        self.decisions[key] = v
        self.order.append((key, v))
        return v


class Session:
    """Events and fresh-name counters of one side (implementation or reference)."""

    def __init__(self, world):
        self.world = world
        self.events = []
        self.counts = {}
        self.depth = 0
        self.replay = 0
        self.tails = False
        self.byargs = False
        self.canon = canon


class Dyn:
    """dynamic environment of the reference: wind list, parameter bindings, handler stack"""
    __slots__ = ('winds', 'params', 'handlers')

    def __init__(self, winds=None, params=None, handlers=None):
        self.winds, self.params, self.handlers = winds, params, handlers


class Stop(Exception):
    def __init__(self, outcome):
        self.outcome = outcome


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, d, up):
        self.d, self.up = d, up


_running = []


def current():
    """The machine whose program is being evaluated."""
    return _running[-1]


_applications = {}


def application(name, args):
    """A short name, the same for the same procedure and arguments."""
    return _applications.setdefault((name, args), '%s~%d' % (name, len(_applications)))


class Machine:
    def __init__(self):
        self.session = Session(World())
        self.handler = None
        self.slots = [NIL, NIL, NIL]
        self.c = Compiler(self)
        self.rtl = True
        self.behaviours = {}

    # -- opaque values
    def free(self, name):
        """The value of a free identifier: $x any value, @f any procedure."""
        if name[0] == '$':
            return Unk(name[1:])
        if name[0] == '@':
            return Unk(name[1:], 'procedure')
        return UNDEF

    def library(self, name):
        return False

    def decide(self, key):
        return self.session.world.decide(key)

    def truth(self, v):
        if v is False:
            return False
        if isinstance(v, Unk) and v.kind not in ('procedure',):
            return self.decide(v.name)
        return True

    def event(self, *e):
        self.session.events.append(e)
        if len(self.session.events) > 400:
            raise Diverges('too many events')

    def fresh(self, base, kind='any'):
        n = self.session.counts.get(base, 0) + 1
        if n > 60:
            raise Diverges('unbounded calls')
        self.session.counts[base] = n
        return Unk('%s.%d' % (base, n), kind)

    # -- running
    def run(self, ast):
        return self.loop(('ev', ast, None), None, Dyn())

    def call(self, f, args):
        return self.loop(('ap', f, list(args)), None, Dyn())

    def tick(self):
        w = self.session.world
        w.steps += 1
        if w.steps > w.limit:
            raise Diverges('path too long')

    def loop(self, state, k, dyn):
        """CEK machine.  k: linked frames (tag, ..., next)."""
        tick = self.tick
        while True:
            tick()
            try:
                tag = state[0]
                if tag == 'ev':
                    _, x, e = state
                    t = x[0]
                    if t == 'const':
                        state = ('rt', x[1])
                    elif t == 'lex':
                        state = ('rt', self.lookup(x[1], e))
                    elif t == 'glob':
                        v = x[1].value
                        if v is UNDEF:
                            raise err('unbound variable', S(x[1].name))
                        state = ('rt', v)
                    elif t == 'app':
                        # operands right to left, then the operator (as the code generator emits)
                        todo = [x[1]] + list(x[2])
                        if x[3] is not None:
                            todo.append(x[3])
                        if not self.rtl:
                            todo = todo[::-1]
                        nxt = todo.pop()
                        k = ('arg', x, e, todo, [], k)
                        state = ('ev', nxt, e)
                    elif t == 'if':
                        k = ('if', x, e, k)
                        state = ('ev', x[1], e)
                    elif t == 'lambda':
                        state = ('rt', Closure(x[1], x[2], x[3], e, x[4]))
                    elif t == 'seq':
                        if len(x[1]) > 1:
                            k = ('seq', x[1], 1, e, k)
                        state = ('ev', x[1][0], e)
                    elif t == 'setlex' or t == 'setglob' or t == 'install':
                        k = (t, x[1], e, k)
                        state = ('ev', x[2], e)
                    elif t == 'scope':
                        state = ('ev', x[2], Env({v: UNDEF for v in x[1]}, e))
                    elif t == 'letrec':
                        e2 = Env({v: UNDEF for v in x[1]}, e)
                        if x[1]:
                            todo = list(x[2])
                            nxt = todo.pop()
                            k = ('letrec', x, e2, todo, [], k)
                            state = ('ev', nxt, e2)
                        else:
                            state = ('ev', x[3], e2)
                    elif t == 'callcc':
                        k = ('callcc', k)
                        state = ('ev', x[1], e)
                    elif t == 'current':
                        state = ('rt', self.slots[x[1]])
                    elif t == 'special':      # reference forms implemented natively: x[1](machine, e, k, dyn) -> state, k, dyn
                        state, k, dyn = x[1](self, e, k, dyn)
                    else:
                        raise AssertionError(t)
                elif tag == 'rt':
                    v = state[1]
                    if k is None:
                        return v
                    t = k[0]
                    if t == 'arg':
                        _, x, e, todo, done, k2 = k
                        done = done + [v]
                        if todo:
                            todo = list(todo)
                            nxt = todo.pop()
                            k = ('arg', x, e, todo, done, k2)
                            state = ('ev', nxt, e)
                        else:
                            k = k2
                            vals = done[::-1] if self.rtl else done
                            f, args = vals[0], vals[1:]
                            if x[3] is not None:
                                args = args[:-1] + self.spread(args[-1])
                            state = ('ap', f, args)
                    elif t == 'if':
                        _, x, e, k = k
                        state = ('ev', x[2] if self.truth(v) else x[3], e)
                    elif t == 'seq':
                        _, xs, i, e, k2 = k
                        k = ('seq', xs, i + 1, e, k2) if i + 1 < len(xs) else k2
                        state = ('ev', xs[i], e)
                    elif t == 'setlex':
                        _, var, e, k = k
                        self.setlex(var, e, v)
                        state = ('rt', v)
                    elif t == 'setglob':
                        _, cell, e, k = k
                        cell.value = v
                        state = ('rt', v)
                    elif t == 'install':
                        _, n, e, k = k
                        self.slots[n] = v
                        state = ('rt', v)
                    elif t == 'letrec':
                        _, x, e2, todo, done, k2 = k
                        done = done + [v]
                        if todo:
                            todo = list(todo)
                            nxt = todo.pop()
                            k = ('letrec', x, e2, todo, done, k2)
                            state = ('ev', nxt, e2)
                        else:
                            for var, y in zip(x[1], done[::-1]):
                                e2.d[var] = y
                            k = k2
                            state = ('ev', x[3], e2)
                    elif t == 'callcc':
                        k = k[1]
                        state = ('ap', v, [Kont(k, dyn)])
                    elif t == 'dyn':
                        dyn = k[1]
                        k = k[2]
                        state = ('rt', v)
                    elif t == 'py':
                        # ('py', fn, next): fn(machine, v, k, dyn) -> state, k, dyn
                        state, k, dyn = k[1](self, v, k[2], dyn)
                    else:
                        raise AssertionError(t)
                elif tag == 'ap':
                    _, f, args = state
                    if isinstance(f, Closure):
                        d = {}
                        n = len(f.formals)
                        if len(args) < n or (len(args) > n and f.rest is None):
                            raise err('wrong number of arguments', lst(args))
                        for p, a in zip(f.formals, args):
                            d[p] = a
                        if f.rest is not None:
                            d[f.rest] = lst(args[n:])
                        state = ('ev', f.body, Env(d, f.env))
                    elif isinstance(f, Prim):
                        if f.special:
                            state, k, dyn = f.fn(self, args, k, dyn)
                        else:
                            state = ('rt', f.fn(self, args))
                    elif isinstance(f, Kont):
                        if len(args) != 1:
                            args = [MultipleValues(args)]
                        k, dyn = f.k, f.dyn
                        state = ('rt', args[0])
                    elif isinstance(f, Unk):
                        if f.kind != 'procedure' and not self.decide('procedure?(%s)' % f.name):
                            raise err('not applicable', f)
                        if self.session.tails:
                            self.event('call', f.name, tuple(self.session.canon(a) for a in args), 'tail' if k is None else 'not tail')
                        else:
                            self.event('call', f.name, tuple(self.session.canon(a) for a in args))
                        b = self.behaviours.get(f.name)
                        if b:
                            state, k, dyn = b(self, args, k, dyn)
                        else:
                            if self.session.byargs:   # the order of calls is free: name the result by the arguments
                                state = ('rt', self.fresh(application(f.name, tuple(self.session.canon(a) for a in args))))
                            else:
                                state = ('rt', self.fresh(f.name))
                    else:
                        raise err('not applicable', f)
            except SchemeError as x:
                state, k, dyn = self.on_error(x.obj, k, dyn)

    def on_error(self, obj, k, dyn):
        if self.handler is not None:
            return ('ap', self.handler, [obj]), None, Dyn()
        raise Stop(('error', canon(obj)))

    def lookup(self, var, e):
        while e is not None:
            if var in e.d:
                v = e.d[var]
                if v is UNDEF:
                    raise err('undefined variable', sym_of(var.id))
                return v
            e = e.up
        raise AssertionError('variable out of scope: %s' % sym_of(var.id))

    def setlex(self, var, e, v):
        while e is not None:
            if var in e.d:
                e.d[var] = v
                return
            e = e.up
        raise AssertionError('variable out of scope')

    def spread(self, x):
        xs, t = unlist(x)
        if t is not NIL:
            if isinstance(t, Unk):
                raise AnalysisLimit('argument list of unknown extent')
            raise err('improper argument list', x)
        return xs


# ---------------------------------------------------------------- canonical results

def canon_tree(v):
    """The same without sharing: what the value unfolds to."""
    memo = {}

    def go(x):
        if isinstance(x, Pair):
            if id(x) in memo:
                return ('#', memo[id(x)])
            seen, items = [], []
            while isinstance(x, Pair) and id(x) not in memo:
                memo[id(x)] = len(memo)
                seen.append(id(x))
                items.append(go(x.car))
                x = x.cdr
            tail = go(x)
            for i in seen:
                del memo[i]
            return ('list', tuple(items), tail)
        if isinstance(x, Vec):
            if id(x) in memo:
                return ('#', memo[id(x)])
            memo[id(x)] = len(memo)
            r = ('vector', tuple(go(y) for y in x.xs))
            del memo[id(x)]
            return r
        return canon(x)
    return go(v)


def canon(v, _memo=None):
    """A comparable rendering of a value with sharing and cycles made explicit."""
    memo = {} if _memo is None else _memo

    def go(x):
        if isinstance(x, Alias):
            x = strip(x)
        if isinstance(x, (Pair, Vec, Str, Box, Bytes)):
            if id(x) in memo:
                return ('#', memo[id(x)])
            memo[id(x)] = len(memo)
            if isinstance(x, Pair):
                # iterate along the spine
                items, tail = [], x
                first = True
                while isinstance(tail, Pair) and (first or id(tail) not in memo):
                    if not first:
                        memo[id(tail)] = len(memo)
                    first = False
                    items.append(go(tail.car))
                    tail = tail.cdr
                return ('list', tuple(items), go(tail))
            if isinstance(x, Vec):
                return ('vector', tuple(go(y) for y in x.xs))
            if isinstance(x, Bytes):
                return ('bytes', tuple(go(y) for y in x.xs))
            if isinstance(x, Box):
                return ('box', go(x.v))
            t = x.text
            return ('string', t if t is not None else tuple(go(y) for y in x.xs))
        if isinstance(x, Unk):
            return ('?', x.name)
        if isinstance(x, Sym):
            return ('sym', x.name)
        if isinstance(x, Char):
            return ('char', x.cp)
        if isinstance(x, bool):
            return ('bool', x)
        if isinstance(x, (int, Fraction)):
            return ('num', str(x))
        if isinstance(x, float):
            return ('flo', repr(x))
        if isinstance(x, _Single):
            return ('const', x.name)
        if isinstance(x, (Closure, Prim, Kont)):
            return ('procedure',)
        if isinstance(x, ErrorObj):
            return ('error-object', x.kind, go(x.message) if not isinstance(x.message, str) else ('internal', x.message), go(x.irritants))
        if isinstance(x, MultipleValues):
            return ('values', tuple(go(y) for y in x.xs))
        return ('object', type(x).__name__)
    return go(v)


def show(c):
    """canonical value -> text"""
    if not isinstance(c, tuple):
        return str(c)
    t = c[0] if c else ''
    if t == 'list':
        s = ' '.join(show(x) for x in c[1])
        return '(%s)' % s if c[2] == ('const', '()') else '(%s . %s)' % (s, show(c[2]))
    if t == 'vector':
        return '#(%s)' % ' '.join(show(x) for x in c[1])
    if t == '?':
        return c[1]
    if t in ('sym', 'num', 'flo', 'const'):
        return c[1]
    if t == 'string':
        return repr(c[1]) if isinstance(c[1], str) else '"%s"' % ' '.join(show(x) for x in c[1])
    if t == 'bool':
        return '#t' if c[1] else '#f'
    if t == '#':
        return '#%d#' % c[1]
    if t == 'call':
        return '(%s%s)' % (c[1], ''.join(' ' + show(x) for x in c[2]))
    return '<%s>' % ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in c)
