"""Reference semantics for the Scheme-level properties: the derived forms and control
procedures of R7RS given directly on the abstract machine (no library code involved),
and the comparison of an implementation run with a reference run under the same
assumptions about opaque values."""
import os
from .scheme import *
from .scheme import _running
from .schemelib import *
from .schemelib import P, items, is_type
from . import schemelib


def app(f, *args):
    return ('app', f, tuple(args), None)


def lam_(vs, body, rest=None):
    return ('lambda', tuple(vs), rest, body, None)


def let1(build, init):
    """(let ((tmp init)) build(tmp)) with a variable no program can name"""
    v = LexVar(S('%tmp'))
    return app(lam_([v], build(('lex', v))), init)


def aux(x, env, name):
    """is x the auxiliary keyword name (not shadowed)?"""
    if not is_id(x) or sym_of(x).name != name:
        return False
    b = resolve(x, env)
    return b is None or (isinstance(b, Cell) and b.value is UNDEF)


def seq(c, xs, env):
    if not xs:
        return ('const', UNSPEC)
    ys = tuple(c.compile(x, env) for x in xs)
    return ys[0] if len(ys) == 1 else ('seq', ys)


FORMS = {}


def form(name):
    def deco(f):
        FORMS[name] = Core(name, f)
        return f
    return deco


def prim_(name):
    return ('const', Prim(name, P[name]))


def clauses(c, cs, env, otherwise):
    if not cs:
        return otherwise
    cl = cs[0]
    xs = proper(cl)
    if aux(xs[0], env, 'else'):
        return seq(c, xs[1:], env)
    test = c.compile(xs[0], env)
    rest = clauses(c, cs[1:], env, otherwise)
    if len(xs) == 1:
        return let1(lambda t: ('if', t, t, rest), test)
    if aux(xs[1], env, '=>'):
        f = c.compile(xs[2], env)
        return let1(lambda t: ('if', t, app(f, t), rest), test)
    return ('if', test, seq(c, xs[1:], env), rest)


@form('cond')
def _(c, x, env):
    return clauses(c, proper(x.cdr), env, ('const', UNSPEC))


@form('case')
def _(c, x, env):
    xs = proper(x.cdr)

    def build(t):
        def go(cs):
            if not cs:
                return ('const', UNSPEC)
            cl = proper(cs[0].cdr)
            body = app(c.compile(cl[1], env), t) if cl and aux(cl[0], env, '=>') else seq(c, cl, env)
            if aux(cs[0].car, env, 'else'):
                return body
            data = [strip(d) for d in proper(cs[0].car)]
            test = ('const', False)
            for d in reversed(data):
                test = ('if', app(prim_('eqv?'), t, ('const', d)), ('const', True), test)
            return ('if', test, body, go(cs[1:]))
        return go(xs[1:])
    return let1(build, c.compile(xs[0], env))


@form('and')
def _(c, x, env):
    xs = proper(x.cdr)
    if not xs:
        return ('const', True)
    out = c.compile(xs[-1], env)
    for y in reversed(xs[:-1]):
        out = ('if', c.compile(y, env), out, ('const', False))
    return out


@form('or')
def _(c, x, env):
    xs = proper(x.cdr)
    if not xs:
        return ('const', False)
    out = c.compile(xs[-1], env)
    for y in reversed(xs[:-1]):
        out = let1(lambda t, out=out: ('if', t, t, out), c.compile(y, env))
    return out


@form('when')
def _(c, x, env):
    xs = proper(x.cdr)
    return ('if', c.compile(xs[0], env), seq(c, xs[1:], env), ('const', UNSPEC))


@form('unless')
def _(c, x, env):
    xs = proper(x.cdr)
    return ('if', c.compile(xs[0], env), ('const', UNSPEC), seq(c, xs[1:], env))


def let_(c, names, inits, body, env, rest=None):
    """inits: asts; names: identifiers"""
    frame = [[n, LexVar(n)] for n in names]
    return app(('lambda', tuple(b for _, b in frame), None, c.body(body, env.extend(frame)), None), *inits)


@form('let')
def _(c, x, env):
    if is_id(x.cdr.car):
        name = x.cdr.car
        bs = proper(x.cdr.cdr.car)
        v = LexVar(name)
        inner = env.extend([[name, v]])
        f = c.lam(lst(b.car for b in bs), proper(x.cdr.cdr.cdr), inner)
        inits = [c.compile(b.cdr.car, env) for b in bs]
        # the loop variable is visible in the body only
        return app(('letrec', (v,), (f,), ('lex', v)), *inits)
    bs = proper(x.cdr.car)
    return let_(c, [b.car for b in bs], [c.compile(b.cdr.car, env) for b in bs], proper(x.cdr.cdr), env)


@form('let*')
def _(c, x, env):
    bs = proper(x.cdr.car)
    body = proper(x.cdr.cdr)

    def go(bs, env):
        if not bs:
            return c.body(body, env)
        v = LexVar(bs[0].car)
        return app(lam_([v], go(bs[1:], env.extend([[bs[0].car, v]]))), c.compile(bs[0].cdr.car, env))
    return go(bs, env)


@form('letrec*')
def _(c, x, env):
    bs = proper(x.cdr.car)
    frame = [[b.car, LexVar(b.car)] for b in bs]
    e = env.extend(frame)
    sets = tuple(('setlex', v, c.compile(b.cdr.car, e)) for (_, v), b in zip(frame, bs))
    return ('scope', tuple(v for _, v in frame), ('seq', sets + (c.body(proper(x.cdr.cdr), e),)))


@form('do')
def _(c, x, env):
    specs = proper(x.cdr.car)
    test = proper(x.cdr.cdr.car)
    cmds = proper(x.cdr.cdr.cdr)
    frame = [[s.car, LexVar(s.car)] for s in specs]
    e = env.extend(frame)
    loop = LexVar(S('%loop'))
    steps = [c.compile(s.cdr.cdr.car, e) if isinstance(s.cdr.cdr, Pair) else ('lex', v) for s, (_, v) in zip(specs, frame)]
    again = app(('lex', loop), *steps)
    body = ('seq', tuple(c.compile(y, e) for y in cmds) + (again,)) if cmds else again
    f = lam_([v for _, v in frame], ('if', c.compile(test[0], e), seq(c, test[1:], e), body))
    return app(('letrec', (loop,), (f,), ('lex', loop)), *[c.compile(s.cdr.car, env) for s in specs])


def formals_of(x):
    xs, t = unlist(x)
    return xs, (None if t is NIL else t)


def bind_values(c, formals, producer, body):
    """call-with-values on asts; body: ast in scope of the vars"""
    vs, rest = formals
    return app(('const', CALL_WITH_VALUES), lam_([], producer), ('lambda', tuple(vs), rest, body, None))


@form('let-values')
def _(c, x, env):
    bs = proper(x.cdr.car)
    frame, parts = [], []
    for b in bs:
        ids, rest = formals_of(b.car)
        vs = [LexVar(i) for i in ids]
        rv = LexVar(rest) if rest is not None else None
        frame += [[i, v] for i, v in zip(ids, vs)] + ([[rest, rv]] if rv else [])
        parts.append((vs, rv, c.compile(b.cdr.car, env)))
    out = c.body(proper(x.cdr.cdr), env.extend(frame))
    for vs, rv, init in reversed(parts):
        out = bind_values(c, (vs, rv), init, out)
    return out


@form('let*-values')
def _(c, x, env):
    def go(bs, env):
        if not bs:
            return c.body(proper(x.cdr.cdr), env)
        ids, rest = formals_of(bs[0].car)
        vs = [LexVar(i) for i in ids]
        rv = LexVar(rest) if rest is not None else None
        e = env.extend([[i, v] for i, v in zip(ids, vs)] + ([[rest, rv]] if rv else []))
        return bind_values(c, (vs, rv), c.compile(bs[0].cdr.car, env), go(bs[1:], e))
    return go(proper(x.cdr.car), env)


@form('receive')
def _(c, x, env):
    xs = proper(x.cdr)
    return app(('const', CALL_WITH_VALUES), lam_([], c.compile(xs[1], env)), c.lam(xs[0], xs[2:], env))


@form('case-lambda')
def _(c, x, env):
    fs = [c.lam(cl.car, proper(cl.cdr), env) for cl in proper(x.cdr)]

    def node(m, e, k, dyn):
        cls = [Closure(f[1], f[2], f[3], e, None) for f in fs]

        def go(m, args, k, dyn):
            for cl in cls:
                if len(args) == len(cl.formals) or (len(args) > len(cl.formals) and cl.rest is not None):
                    return ('ap', cl, args), k, dyn
            raise err('no matching clause')
        return ('rt', Prim('case-lambda', go, True)), k, dyn
    return ('special', node)


@form('rec')
def _(c, x, env):
    t = x.cdr.car
    name = t.car if isinstance(t, Pair) else t
    v = LexVar(name)
    e = env.extend([[name, v]])
    init = c.lam(t.cdr, proper(x.cdr.cdr), e) if isinstance(t, Pair) else c.compile(x.cdr.cdr.car, e)
    return ('letrec', (v,), (init,), ('lex', v))


@form('quasiquote')
def _(c, x, env):
    def qq(x, d):
        if isinstance(x, Pair):
            h = x.car
            if aux(h, env, 'unquote'):
                if d == 0:
                    return c.compile(x.cdr.car, env)
                return app(prim_('list'), ('const', S('unquote')), qq(x.cdr.car, d - 1))
            if is_id(h) and sym_of(h).name == 'quasiquote' and isinstance(resolve(h, env), Cell):
                return app(prim_('list'), ('const', S('quasiquote')), qq(x.cdr.car, d + 1))
            if aux(h, env, 'unquote-splicing') and d > 0:
                return app(prim_('list'), ('const', S('unquote-splicing')), qq(x.cdr.car, d - 1))
            if isinstance(h, Pair) and aux(h.car, env, 'unquote-splicing') and d == 0:
                e = c.compile(h.cdr.car, env)
                if x.cdr is NIL:
                    return e
                return app(prim_('append'), e, qq(x.cdr, d))
            return app(prim_('cons'), qq(h, d), qq(x.cdr, d))
        if isinstance(x, Vec):
            return app(prim_('list->vector'), qq(lst(x.xs), d))
        return ('const', strip(x))
    return qq(x.cdr.car, 0)


# ---------------------------------------------------------------- promises

class RPromise:
    def __init__(self, done, value):
        self.box = [done, value]


def _promise(done_ast):
    def node(m, e, k, dyn):
        return ('rt', RPromise(False, Closure((), None, done_ast, e, None))), k, dyn
    return ('special', node)


@form('delay-force')
def _(c, x, env):
    return _promise(c.compile(x.cdr.car, env))


@form('delay')
def _(c, x, env):
    return _promise(app(('const', Prim('done', lambda m, a: RPromise(True, a[0]))), c.compile(x.cdr.car, env)))


def r_force(m, args, k, dyn):
    p = args[0]
    if not isinstance(p, RPromise):
        raise err('not a promise')
    if p.box[0]:
        return ('rt', p.box[1]), k, dyn

    def after(m, v, k, dyn):
        if not p.box[0]:
            if not isinstance(v, RPromise):
                raise err('not a promise')
            p.box[0], p.box[1] = v.box[0], v.box[1]
            v.box = p.box
        return ('ap', Prim('force', r_force, True), [p]), k, dyn
    return ('ap', p.box[1], []), ('py', after, k), dyn


# ---------------------------------------------------------------- values, winding, continuations

def r_values(m, a):
    return a[0] if len(a) == 1 else MultipleValues(list(a))


def r_cwv(m, args, k, dyn):
    consumer = args[1]

    def got(m, v, k, dyn):
        return ('ap', consumer, list(v.xs) if isinstance(v, MultipleValues) else [v]), k, dyn
    return ('ap', args[0], []), ('py', got, k), dyn


CALL_WITH_VALUES = Prim('call-with-values', r_cwv, True)


class Wind:
    __slots__ = ('before', 'after', 'dyn', 'up')

    def __init__(self, before, after, dyn, up):
        self.before, self.after, self.dyn, self.up = before, after, dyn, up


def r_wind(m, args, k, dyn):
    before, thunk, after = args

    def entered(m, v, k, d):
        inner = Dyn(Wind(before, after, dyn, dyn.winds), dyn.params, dyn.handlers)

        def left(m, v, k, d):
            return ('ap', after, []), ('py', lambda m, _, k, d: (('rt', v), k, dyn), k), dyn
        return ('ap', thunk, []), ('py', left, k), inner
    return ('ap', before, []), ('py', entered, k), dyn


def rewind(m, dyn, target, done):
    """leave the extents of dyn not in target, enter those of target not in dyn, then done() -> state,k,dyn"""
    def chain(w):
        out = []
        while w is not None:
            out.append(w)
            w = w.up
        return out
    a, b = chain(dyn.winds), chain(target.winds)
    while a and b and a[-1] is b[-1]:
        a.pop()
        b.pop()
    steps = [(w.after, w.dyn) for w in a] + [(w.before, w.dyn) for w in reversed(b)]

    def go(i):
        if i == len(steps):
            return done()
        f, d = steps[i]
        return ('ap', f, []), ('py', lambda m, v, k, d2: go(i + 1), None), d
    return go(0)


def r_callcc(m, args, k, dyn):
    def resume(m, vals, k2, dyn2):
        v = vals[0] if len(vals) == 1 else MultipleValues(list(vals))
        return rewind(m, dyn2, dyn, lambda: (('rt', v), k, dyn))
    return ('ap', args[0], [Prim('continuation', resume, True)]), k, dyn


def r_exit(m, args, k, dyn):
    def out():
        raise Stop(('exit', tuple(canon(a) for a in args)))
    return rewind(m, dyn, Dyn(), out)


# ---------------------------------------------------------------- parameters

def r_make_parameter(m, args, k, dyn):
    conv = args[1] if len(args) > 1 else None

    def make(v):
        def ref(m, a, k, dyn):
            p = dyn.params
            while p is not None:
                if p[0] is self:
                    return ('rt', p[1]), k, dyn
                p = p[2]
            return ('rt', v), k, dyn
        self = Prim('parameter', ref, True)
        PARAMS[id(self)] = (self, conv)
        return self
    if conv is None:
        return ('rt', make(args[0])), k, dyn
    return ('ap', conv, [args[0]]), ('py', lambda m, v, k, d: (('rt', make(v)), k, d), k), dyn


PARAMS = {}


@form('parameterize')
def _(c, x, env):
    bs = proper(x.cdr.car)
    exprs = [c.compile(b.car, env) for b in bs] + [c.compile(b.cdr.car, env) for b in bs]
    body = c.body(proper(x.cdr.cdr), env)
    n = len(bs)

    def node(m, e, k, dyn):
        thunk = Closure((), None, body, e, None)

        def bind(m, args, k, dyn):
            ps, vs = args[:n], list(args[n:])

            def convert(i, k, d):
                if i == n:
                    ch = dyn.params
                    for p, v in zip(ps, vs):
                        ch = (p, v, ch)
                    return ('ap', thunk, []), ('dyn', dyn, k), Dyn(dyn.winds, ch, dyn.handlers)
                conv = PARAMS[id(ps[i])][1] if id(ps[i]) in PARAMS else None
                if conv is None:
                    return convert(i + 1, k, d)

                def got(m, v, k, d):
                    vs[i] = v
                    return convert(i + 1, k, d)
                return ('ap', conv, [vs[i]]), ('py', got, k), d
            return convert(0, k, dyn)
        return ('ev', app(('const', Prim('bind', bind, True)), *exprs), e), k, dyn
    return ('special', node)


# ---------------------------------------------------------------- exceptions

def r_weh(m, args, k, dyn):
    h, thunk = args
    return ('ap', thunk, []), ('dyn', dyn, k), Dyn(dyn.winds, dyn.params, (h, dyn.handlers))


def r_raise_continuable(m, args, k, dyn):
    if dyn.handlers is None:
        raise Stop(('error', canon(args[0])))
    h, up = dyn.handlers
    return ('ap', h, [args[0]]), ('dyn', dyn, k), Dyn(dyn.winds, dyn.params, up)


SECONDARY = ErrorObj(mkstr('secondary'), NIL, 'secondary')


def r_raise(m, args, k, dyn):
    if dyn.handlers is None:
        raise Stop(('error', canon(args[0])))
    h, up = dyn.handlers
    inner = Dyn(dyn.winds, dyn.params, up)

    def returned(m, v, k, d):
        return r_raise(m, [SECONDARY], k, inner)
    return ('ap', h, [args[0]]), ('py', returned, k), inner


def r_error(m, args, k, dyn):
    return r_raise(m, [ErrorObj(args[0], lst(args[1:]))], k, dyn)


@form('guard')
def _(c, x, env):
    var = x.cdr.car.car
    cs = proper(x.cdr.car.cdr)
    v = LexVar(var)
    cell = LexVar(S('%reraise'))
    ast = clauses(c, cs, env.extend([[var, v]]), app(('lex', cell)))
    body = c.body(proper(x.cdr.cdr), env)

    def node(m, e, k, dyn):
        def handler(m, args, k2, dyn2):
            obj = args[0]

            def reraise(m, a, k3, dyn3):
                return rewind(m, dyn3, dyn2, lambda: r_raise_continuable(m, [obj], k2, dyn2))

            def run_clauses():
                e2 = Env({v: obj, cell: Prim('reraise', reraise, True)}, e)
                return ('ev', ast, e2), k, dyn
            return rewind(m, dyn2, dyn, run_clauses)
        h = Prim('guard-handler', handler, True)
        return ('ev', body, e), ('dyn', dyn, k), Dyn(dyn.winds, dyn.params, (h, dyn.handlers))
    return ('special', node)


# ---------------------------------------------------------------- records

class RRecord:
    def __init__(self, type, fields):
        self.type, self.fields = type, fields


class RType:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


def _record_macro(m, a):
    x, use, mac = a
    core = lambda n: Alias(mac, NIL, S(n))
    _, tname, ctor, pred, *fields = proper(x)
    names = [f.car if isinstance(f, Pair) else f for f in fields]
    prim = lambda f: lst([core('quote-syntax'), f])
    # evaluating the definition creates a new type each time
    out = [lst([core('define'), tname, lst([prim(Prim('record-type', lambda m, a: Box(RType(tname, names))))])])]

    def proc(name, fn):
        label = sym_of(name).name
        bind = Prim(label, lambda m, a: (lambda t: Prim(label, lambda m, b: fn(m, b, t)))(a[0].v))
        out.append(lst([core('define'), name, lst([prim(bind), tname])]))
    if is_id(ctor):
        ctor = lst([ctor] + names)
    if isinstance(ctor, Pair):
        cf = [next(i for i, n in enumerate(names) if n is f) for f in proper(ctor.cdr)]

        def make(m, a, t):
            if len(a) != len(cf):
                raise err('constructor arity')
            r = RRecord(t, [UNSPEC] * len(names))
            for i, v in zip(cf, a):
                r.fields[i] = v
            return r
        proc(ctor.car, make)
    if is_id(pred):
        proc(pred, lambda m, a, t: isinstance(a[0], RRecord) and a[0].type is t)
    for i, f in enumerate(fields):
        fs = proper(f) if isinstance(f, Pair) else [f]
        if len(fs) > 1:
            def get(m, a, t, i=i):
                if not (isinstance(a[0], RRecord) and a[0].type is t):
                    raise err('accessor applied to bad value')
                return a[0].fields[i]
            proc(fs[1], get)
        if len(fs) > 2:
            def put(m, a, t, i=i):
                if not (isinstance(a[0], RRecord) and a[0].type is t):
                    raise err('modifier applied to bad value')
                a[0].fields[i] = a[1]
                return UNSPEC
            proc(fs[2], put)
    return Pair(core('begin'), lst(out))


def _define_values(m, a):
    x, use, mac = a
    core = lambda n: Alias(mac, NIL, S(n))
    ids, rest = formals_of(x.cdr.car)
    tmp = core('%values')
    out = []
    every = ids + ([rest] if rest is not None else [])
    if not every:
        return lst([core('define'), core('%none'), lst([core('call-with-values'), lst([core('lambda'), NIL, x.cdr.cdr.car]), core('list')])])
    # one definition receives the values; the others take theirs from it
    first = every[0]
    out.append(lst([core('define'), first, lst([core('call-with-values'), lst([core('lambda'), NIL, x.cdr.cdr.car]), lst([core('lambda'), x.cdr.car, Pair(core('list'), lst(every))])])]))
    for i, n in enumerate(every[1:], 1):
        out.append(lst([core('define'), n, lst([core('list-ref'), first, i])]))
    out.append(lst([core('define'), core('%fix'), lst([core('set!'), first, lst([core('car'), first])])]))
    return Pair(core('begin'), lst(out))


# ---------------------------------------------------------------- syntax-rules

def _syntax_rules(c, x, env):
    xs = x.cdr
    ell = S('...')
    custom = False
    if is_id(xs.car):
        ell, custom = xs.car, True
        xs = xs.cdr
    lits = proper(xs.car)
    rules = proper(xs.cdr)

    def is_ell(i, lit=True):
        if not is_id(i):
            return False
        if lit and any(i is l for l in lits):
            return False
        if custom:
            return i is ell
        return sym_of(i) is ell

    def followed(p):
        return isinstance(p, Pair) and isinstance(p.cdr, Pair) and is_ell(p.cdr.car)

    def pairs(f):
        n = 0
        while isinstance(f, Pair):
            n += 1
            f = f.cdr
        return n

    def pvars(p):
        if is_id(p):
            return [] if any(p is l for l in lits) or is_ell(p) or sym_of(p).name == '_' else [p]
        if isinstance(p, Pair):
            return pvars(p.car) + pvars(p.cdr)
        if isinstance(p, Vec):
            return [v for y in p.xs for v in pvars(y)]
        return []

    def transform(m, a):
        form, use, mac = a

        def match(p, f, b):
            if is_id(p):
                if any(p is l for l in lits):
                    return is_id(f) and same_binding(Alias(use, NIL, f) if not isinstance(f, Alias) else f, Alias(mac, NIL, p) if not isinstance(p, Alias) else p)
                if sym_of(p).name != '_':
                    b[p] = f
                return True
            if followed(p):
                tail = p.cdr.cdr
                n = pairs(f) - pairs(tail)
                if n < 0:
                    return False
                vs = pvars(p.car)
                acc = {v: [] for v in vs}
                for _ in range(n):
                    b2 = {}
                    if not match(p.car, f.car, b2):
                        return False
                    for v in vs:
                        acc[v].append(b2[v])
                    f = f.cdr
                b.update(acc)
                return match(tail, f, b)
            if isinstance(p, Pair):
                return isinstance(f, Pair) and match(p.car, f.car, b) and match(p.cdr, f.cdr, b)
            if p is NIL:
                return f is NIL
            if isinstance(p, Vec):
                return isinstance(f, Vec) and match(lst(p.xs), lst(f.xs), b)
            return eqv(m, p, f, 'equal')

        renames = {}

        def rename(i):
            if i not in renames:
                renames[i] = Alias(mac, NIL, i)
            return renames[i]

        def inst(t, b, esc=False):
            if is_id(t):
                if t in b:
                    if isinstance(b[t], list):
                        raise SyntaxErr('pattern variable without ellipsis')
                    return b[t]
                return rename(t)
            if isinstance(t, Pair) and not esc and is_ell(t.car, False) and isinstance(t.cdr, Pair):
                return inst(t.cdr.car, b, True)
            if not esc and isinstance(t, Pair) and isinstance(t.cdr, Pair) and is_ell(t.cdr.car, False):
                depth, rest = 0, t.cdr
                while isinstance(rest, Pair) and is_ell(rest.car, False):
                    depth += 1
                    rest = rest.cdr

                def many(d, b):
                    vs = [v for v in tvars(t.car) if isinstance(b.get(v), list)]
                    if not vs:
                        raise SyntaxErr('ellipsis follows no pattern variable')
                    n = {len(b[v]) for v in vs}
                    if len(n) != 1:
                        raise SyntaxErr('ellipsis lengths differ')
                    out = []
                    for i in range(n.pop()):
                        b2 = dict(b)
                        for v in vs:
                            b2[v] = b[v][i]
                        out += many(d - 1, b2) if d > 1 else [inst(t.car, b2)]
                    return out
                return lst(many(depth, b), inst(rest, b))
            if isinstance(t, Pair):
                return Pair(inst(t.car, b, esc), inst(t.cdr, b, esc))
            if isinstance(t, Vec):
                return Vec(unlist(inst(lst(t.xs), b, esc))[0])
            return t

        def tvars(t):
            if is_id(t):
                return [t]
            if isinstance(t, Pair):
                return tvars(t.car) + tvars(t.cdr)
            if isinstance(t, Vec):
                return [v for y in t.xs for v in tvars(y)]
            return []
        for r in rules:
            b = {}
            if match(r.car.cdr, form.cdr, b):
                return inst(r.cdr.car, b)
        raise SyntaxErr('no syntax rule matches')
    return ('const', Prim('syntax-rules', transform))


FORMS['syntax-rules'] = Core('syntax-rules', _syntax_rules)


NATIVE = {
    'values': Prim('values', r_values), 'call-with-values': CALL_WITH_VALUES,
    'dynamic-wind': Prim('dynamic-wind', r_wind, True), 'call-with-current-continuation': Prim('call/cc', r_callcc, True),
    'call/cc': Prim('call/cc', r_callcc, True), 'exit': Prim('exit', r_exit, True),
    'force': Prim('force', r_force, True), 'make-promise': Prim('make-promise', lambda m, a: a[0] if isinstance(a[0], RPromise) else RPromise(True, a[0])),
    'promise?': Prim('promise?', lambda m, a: isinstance(a[0], RPromise)),
    'make-parameter': Prim('make-parameter', r_make_parameter, True),
    'with-exception-handler': Prim('with-exception-handler', r_weh, True), 'raise': Prim('raise', r_raise, True),
    'raise-continuable': Prim('raise-continuable', r_raise_continuable, True), 'error': Prim('error', r_error, True),
    'error-object-message': Prim('error-object-message', lambda m, a: schemelib.car(m, a[0])),
    'error-object-irritants': Prim('error-object-irritants', lambda m, a: schemelib.cdr(m, a[0])),
}


class RMachine(Machine):
    def on_error(self, obj, k, dyn):
        # an error detected by a primitive is raised in the dynamic environment of the call
        return r_raise(self, [obj], k, dyn)


class Reference:
    def __init__(self, *preludes):
        self.m = RMachine()
        self.m.session = Session(World(limit=5000000))
        self.table = {}
        for n, c in core_table().items():
            self.table[S(n)] = Cell(n, c)
        for n, c in FORMS.items():
            self.table[S(n)] = Cell(n, c)
        for n, f in P.items():
            self.table[S(n)] = Cell(n, Prim(n, f))
        for n, f in NATIVE.items():
            self.table[S(n)] = Cell(n, f)
        env = SEnv(None, self.table)
        self.table[S('define-record-type')] = Cell('define-record-type', Macro(Prim('define-record-type', _record_macro), env))
        self.table[S('define-values')] = Cell('define-values', Macro(Prim('define-values', _define_values), env))
        for prelude in preludes:
            for x in parse(open(prelude).read(), prelude):
                self.m.c.toplevel(x, env)

    def env(self):
        return SEnv(None, dict(self.table))


class Implementation:
    """The libraries under analysis; env(imports) is a program's environment."""

    def __init__(self, system):
        self.system = system
        self.m = system.m
        self.cache = {}

    def env(self, imports):
        if imports not in self.cache:
            e = SEnv(None, {})
            for x in parse(imports):
                self.system.do_import(e, x, shadow=True)
            self.cache[imports] = e.table
        return SEnv(None, dict(self.cache[imports]))


def run_side(m, env, forms, world, handler, rtl=True, tails=False, byargs=False, tree=False):
    _running[:] = [m]
    m.session = Session(world)
    m.session.byargs = byargs
    if tree:
        m.session.canon = canon_tree
    m.session.tails = tails
    m.slots = [NIL, NIL, NIL]
    m.handler = handler
    m.rtl = rtl
    v = UNSPEC
    try:
        for x in forms:
            v = m.c.toplevel(x, env)
        out = ('value', m.session.canon(v))
    except Stop as s:
        out = s.outcome
    except SyntaxErr as s:
        out = ('syntax-error', str(s))
    except RecursionError:
        raise AnalysisLimit('recursion')
    return out, m.session.events


def same(a, r):
    """does the implementation's value a satisfy the reference value r?"""
    if a == r:
        return True
    if r == ('const', '#!unspecified') or r == 'not tail':
        return True
    if isinstance(a, tuple) and isinstance(r, tuple) and len(a) == len(r):
        if r and r[0] == 'error-object' and a[0] == 'error-object':
            if r[1] == 'secondary':
                return True
            if r[2][0] == 'internal' or a[2][0] == 'internal':
                return True         # an error reported by a primitive: which message is not specified
        return all(same(x, y) for x, y in zip(a, r))
    return False


def same_outcome(a, r):
    if r[0] == 'syntax-error':
        return a[0] in ('error', 'syntax-error')
    if a[0] == 'error' and r[0] == 'error':
        return same(a[1], r[1]) or (r[1][0] == 'error-object' and r[1][1] == 'secondary')
    if a[0] != r[0]:
        return False
    return same(a[1], r[1])


def same_events(a, r, unordered):
    if len(a) != len(r):
        return False
    if unordered:
        a, r = sorted(a, key=repr), sorted(r, key=repr)
    return all(x == y or same(x, y) for x, y in zip(a, r))


class Verdict:
    def __init__(self):
        self.paths = 0
        self.bad = None
        self.limit = None


def compare(impl, ref, src, imports, unordered=False, maxpaths=400, limit=600000, ref_src=None, orders=True, force=None, tails=False, tree=False):
    """Every path of the program under both semantics."""
    v = Verdict()
    script = []
    handler = impl.m.handler if not hasattr(impl, 'handler') else impl.handler
    impl.handler = handler
    while True:
        try:
            # the reference may run under either order of evaluating operands; the
            # implementation must agree with one of them
            world = World(script, limit, force)
            fa = parse(src)
            try:
                a, ea = run_side(impl.m, impl.env(imports), fa, world, handler, True, tails, unordered and not force, tree)
            except Diverges as x:
                # a defect if the required semantics ends under the same assumptions, and far within the bounds
                world.steps, pos = 0, world.pos
                rr, er = run_side(ref.m, ref.env(), parse(ref_src or src), world, None, True, tails, unordered and not force, tree)
                if world.steps * 50 > limit or world.pos != pos:
                    raise
                v.bad = (('no end (%s)' % x,), impl.m.session.events[:20], rr, er, [('' if d else 'not ') + str(kk) for kk, d in world.order])
                return v
            ok = False
            first = None
            for rtl in ((True, False) if orders else (True,)):
                world.steps = 0
                rr, er = run_side(ref.m, ref.env(), parse(ref_src or src), world, None, rtl, tails, unordered and not force, tree)
                if first is None:
                    first = (rr, er)
                if same_outcome(a, rr) and same_events(ea, er, unordered):
                    ok = True
                    break
            v.paths += 1
            if not ok:
                rr, er = first
                v.bad = (a, ea, rr, er, [('' if d else 'not ') + str(kk) for kk, d in world.order])
                return v
        except AnalysisLimit as x:
            v.limit = str(x)    # the other paths are decided all the same
            v.paths += 1
        script = world.script[:world.pos]
        while script and script[-1] is False:
            script.pop()
        if not script:
            return v
        script[-1] = False
        if v.paths > maxpaths or v.limit and v.paths > 40:
            v.limit = v.limit or 'more than %d paths' % maxpaths
            return v


def explain(bad):
    a, ea, rr, er, conds = bad

    def tr(o, es):
        return '%s after %s' % (' '.join(show(x) if isinstance(x, tuple) else str(x) for x in o), '; '.join(show(e) for e in es) or 'no calls')
    return '%sprogram gives %s, required %s' % ('when ' + ', '.join(conds) + ': ' if conds else '', tr(a, ea), tr(rr, er))
