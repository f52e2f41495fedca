"""C32: what a primitive signals reaches the exception handler as the object it is."""
from engine.interp import *
from engine.kernel import tn
from . import names, prims
from .ports import Ports
from .common import where

CLASSES = ('error', 'file_error', 'read_error')
NS_ = 'meevax::'
HANDLER = ('global', 'g:meevax::dynamic_environment::exception_handler')
OTHERS = ('symbol', 'string', 'vector', 'pair', 'closure', 'procedure', 'character')


class Exec(Ports):
    """The machine with primitives given as Python functions."""
    def setup(self):
        super().setup()
        self.procs = {}
        self.log = []
        self.handled = []

    def procedure(self, name, f):
        p = self.obj(name, 'procedure')
        self.procs[name] = f
        self.store[('mem', ('as', 'procedure', p), 'call')] = ('pyfn', name)
        return p

    def unknown_call(self, node, q, obj, args):
        if q == '(indirect)':
            f, xs = self.rv(obj), [self.rv(a) for a in args]
            if isinstance(f, tuple) and f and f[0] == 'pyfn':
                return self.procs[f[1]](*xs)
        return super().unknown_call(node, q, obj, args)

    # an error is a known object wherever it is: thrown, caught, in a variable
    def new_error(self, c, msg, irritants):
        o = self.new_cell(c)
        self.store[('car', o)] = msg
        self.store[('cdr', o)] = irritants
        return o

    def error_of(self, x):
        """(class, object) if x is an error."""
        if isinstance(x, LV) and not (x.key[0] == 'as' and x.key[1] in CLASSES):
            x = self.load(x)
        if isinstance(x, LV):
            x = x.key
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'as' and x[1] in CLASSES:
            d = self.dyntype(x[2])
            return (d if d in CLASSES else x[1], x[2])
        return None

    def ctor_hook(self, n, cls, args, ev):
        c = tn(bare(n['t']))
        if c in CLASSES:
            if len(args) == 1:
                e = self.error_of(ev(0))
                if e:
                    return ('as', c, self.new_error(c, self.part_of_pair(e[1], 'car'), self.part_of_pair(e[1], 'cdr')))
            vs = [self.copy_value(ev(i)) for i in range(len(args))]
            return ('as', c, self.new_error(c, *(vs + [NULL, NULL])[:2]))
        return super().ctor_hook(n, cls, args, ev)

    def make_hook(self, n, t, args, ev):
        if t in CLASSES:
            if len(args) == 1:
                e = self.error_of(ev(0))
                if e:
                    return self.new_error(t, self.part_of_pair(e[1], 'car'), self.part_of_pair(e[1], 'cdr'))
            vs = [self.copy_value(ev(i)) for i in range(len(args))]
            return self.new_error(t, *(vs + [NULL, NULL])[:2])
        return super().make_hook(n, t, args, ev)

    def call_hook(self, n, q, fn, obj, args, ev):
        if q and q.endswith('::what') and q.startswith('std::'):
            return ('str', 'what')
        if obj is not None and q and q.startswith(tuple(NS_ + c + '::' for c in CLASSES)):
            e = self.error_of(obj)
            if e:
                f = self.final_overrider(n['f'], e[0]) if n.get('virt') and not n.get('qualified') else fn
                return self.call_fn(f, LV(('as',) + e), [ev(i) for i in range(len(args))], n)
        return super().call_hook(n, q, fn, obj, args, ev)

    def s_try(self, s):
        """The body of the machine's loop: 'goto fetch' starts it again."""
        depth, sd = len(self.frames), len(self.stack)
        for _ in range(200):
            try:
                return self.try_once(s, depth, sd)
            except Goto:
                del self.frames[depth:]
                del self.stack[sd:]
        raise Stop('loop bound')

    def try_once(self, s, depth, sd):
        try:
            return self.ex(s['s'])
        except Throw as t:
            del self.frames[depth:]
            del self.stack[sd:]
            h = next((h for h in s['h'] if 't' not in h or self.catches(h['t'], t.t)), None)
            if h is None:
                raise
            thrown = t
        if 'd' in h:
            e = self.error_of(thrown.v)
            lv = LV(('exc', h['d']))
            if e and h['t'].rstrip().endswith('&'):
                lv = LV(('as',) + e)
            elif e:         # caught by value
                c = tn(bare(h['t']))
                self.store[lv.key] = ('as', c, self.new_error(c, self.part_of_pair(e[1], 'car'), self.part_of_pair(e[1], 'cdr')))
            else:
                self.store[lv.key] = thrown.v
            self.declare(h['d'], lv)
        self.handled.append(thrown)
        self.ex(h['s'])
        self.handled.pop()

    def e_throw(self, n):
        if not n.get('e') and self.handled:
            t = self.handled[-1]
            raise Throw(t.t, t.v, n)
        return super().e_throw(n)

    # ---- data ------------------------------------------------------------------
    def an(self, c, i=0):
        """An object of class c; an error has a message and irritants."""
        o = self.obj('%s%d' % (c, i), c)
        if c in CLASSES or c == 'pair':
            self.store[('car', o)] = self.obj('message%d' % i, 'string')
            self.store[('cdr', o)] = self.obj('irritants%d' % i, 'pair')
        return o

    def signal(self, c, o):
        """What C++ code does that signals the error o."""
        f = self.final_overrider(self.raise_key, c)
        return self.call_fn(f, LV(('as', c, o)), [])


    def described(self, v):
        """(class, message, irritants) of an error, the object itself otherwise."""
        e = self.error_of(v)
        if e is None and self.dyntype(v) in CLASSES:
            e = (self.dyntype(v), v)
        if e:
            return (e[0], self.text_of(self.part_of_pair(e[1], 'car')), self.text_of(self.part_of_pair(e[1], 'cdr')))
        return self.text_of(self.rv(v))

    def part_of_pair(self, v, side):
        return self.copy_value(self.load(LV((side, v))))

    def text_of(self, v):
        """A string object as its text, if that is known."""
        if isinstance(v, tuple) and v and self.dyntype(v) == 'string':
            k = ('mem', ('as', 'string', v), 'characters')
            xs = self.store.get(k)
            if isinstance(xs, tuple) and xs and xs[0] == 'str':
                return xs
        return v


STD = ('std::exception', 'std::runtime_error', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument', 'std::bad_alloc', 'std::bad_cast', 'std::system_error', 'std::filesystem::filesystem_error')
MSG, IRR = ('v', 'message0'), ('v', 'irritants0')
BOOT, MACHINE = 'src/kernel/boot.cpp', 'src/kernel/dynamic_environment.cpp'


def say(d):
    if isinstance(d, tuple) and len(d) == 3 and d[0] in CLASSES:
        return 'a %s with message %s and irritants %s' % (d[0], show(d[1]), show(d[2]))
    return show(d) if isinstance(d, tuple) else str(d)


def check(r, F):
    r.rule('the machine, interpreted from its source on a call of a primitive that signals each kind of error, calls the installed handler exactly once with an object of that kind that has the message and the irritants, and returns what the handler returns; an object thrown by throw passes the machine as an error object of its kind')
    r.assume('C++ unwinds to the first handler whose type matches the dynamic type of the exception')
    R = prims.registry(F)
    aps = [f for f in names.fn_of(F, 'meevax::dynamic_environment::apply') if len(f['params']) == 2]
    rs = names.fn_of(F, 'meevax::error::raise')
    r.need(len(aps) == 1 and len(rs) == 1, 'apply or raise was not found')
    ap, raise_key = aps[0], rs[0]['key']
    for nm in ('throw', 'emergency-exit', 'kernel-exception-handler-set!', 'error-object', 'error-object?', 'read-error?', 'file-error?'):
        r.need(nm in R, 'primitive %s is not registered' % nm)
    n = 0

    def judge(family, label, fn, setup, good, what):
        nonlocal n
        n += 1
        k, outs = names.explore(F, setup, Exec)
        for o in outs:
            if o.kind == 'stop':
                r.skip(family, label, where(fn), o.why)
                return
        bad = None
        for o in outs:
            if o.kind == 'throw':
                got = ('throw', tn(o.type), k.described(o.thrown) if k.error_of(o.thrown) else o.thrown)
            else:
                got = ('return', o.value)
            if not good(k, got):
                bad = '%s; it %s %s%s' % (what, 'ends with the C++ exception' if got[0] == 'throw' else 'returns', say(got[-1]), ''.join(', the handler receives ' + say(d) for d in k.log))
        if bad:
            r.bad(family, label, where(fn), bad)
        else:
            r.ok(family, label, where(fn))

    def program(signal, handler, nested=False):
        def setup(k):
            k.raise_key = raise_key

            def handle(xs):
                xs = k.copy_value(xs)
                k.log.append(k.described(k.part_of_pair(xs, 'car')))
                if k.part_of_pair(xs, 'cdr') != NULL:
                    k.log.append('more arguments')
                return k.obj('R', 'symbol')
            p = k.procedure('P', lambda xs: signal(k))
            if handler:
                k.prim(R, 'kernel-exception-handler-set!', k.procedure('H', handle))
            else:
                k.store[HANDLER] = NULL
            args = k.list('l', [k.obj('X', 'symbol')])
            if nested:
                q = p
                p = k.procedure('Q', lambda xs: k.copy_value(k.call_fn(ap, LV(('v', 'this')), [q, xs])))
            return k.copy_value(k.call_fn(ap, LV(('v', 'this')), [p, args]))
        return setup

    def std(t):
        raise Throw(t, ('v', 'exception'), None)

    def handled(d):
        def good(k, got):
            if got != ('return', ('v', 'R')) or len(k.log) != 1:
                return False
            return matches(k, d, k.log[0])
        return good

    def escapes(d):
        return lambda k, got: got[0] == 'throw' and got[1] == d[0] and not k.log and matches(k, d, got[2])

    def matches(k, d, g):
        if not (isinstance(g, tuple) and len(g) == 3 and g[0] == d[0]):
            return False
        return (d[1] is None and k.dyntype(g[1]) == 'string' or d[1] == g[1]) and g[2] == d[2]

    for nested in (False, True):
        deep = ' in a nested evaluation' if nested else ''
        for c in CLASSES:
            for h in (True, False):
                lab = '%s%s%s' % (c, '' if h else ', no handler', deep)
                d = (c, MSG, IRR)
                judge('signalled', lab, ap, program(lambda k: k.signal(c, k.an(c)), h, nested), handled(d) if h else escapes(d),
                      'a primitive that signals a %s with a message and irritants must %s' % (c, 'call the handler once with such an object and return its result' if h else 'leave the machine with it'))
                # an inner machine has turned it into a C++ exception of its kind, so the outer one hands it to the handler
                judge('thrown', lab, R['throw'], program(lambda k: k.prim(R, 'throw', k.an(c)), h, nested), handled(d) if h and nested else escapes(d),
                      '(throw x) of a %s must leave the machine with an exception of that kind, without calling the handler' % c)
        for t in STD:
            for h in (True, False):
                d = ('error', None, NULL)
                judge('C++ exceptions', '%s%s%s' % (t, '' if h else ', no handler', deep), ap, program(lambda k: std(t), h, nested), handled(d) if h else escapes(d),
                      'a primitive that throws a %s must be reported as an error without irritants, to the handler if there is one' % t)
        for c in OTHERS:
            for h in (True, False):
                d = ('error', None, ('v', c + '0'))
                judge('thrown', '%s%s%s' % (c, '' if h else ', no handler', deep), R['throw'], program(lambda k: k.prim(R, 'throw', k.an(c)), h, nested), handled(d) if h and nested else escapes(d),
                      '(throw x) of a %s must leave the machine as an error whose irritants are x' % c)
        for st, code in (((), 0), ((('imm', 'bool', I(1)),), 0), ((('imm', 'bool', I(0)),), 1), ((('imm', 'int', I(7)),), 7), ((('imm', 'int', I(0)),), 0), ((('imm', 'int', I(255)),), 255)):
            for h in (True, False):
                judge('exit', '%s%s%s' % (show(st[0]) if st else 'no argument', '' if h else ', no handler', deep), R['emergency-exit'], program(lambda k: k.prim(R, 'emergency-exit', *st), h, nested),
                      lambda k, got: got == ('throw', 'int', I(code)) and not k.log, 'emergency-exit must leave the machine with the exit status %d and call no handler' % code)
    yes = {'error-object?': CLASSES, 'read-error?': ('read_error',), 'file-error?': ('file_error',)}
    for nm in sorted(yes):
        for c in CLASSES + OTHERS:
            judge('predicates', '(%s %s)' % (nm, c), R[nm], lambda k: k.prim(R, nm, k.an(c)), lambda k, got: got == ('return', ('imm', 'bool', I(int(c in yes[nm])))),
                  '(%s x) of a %s must be %s' % (nm, c, '#t' if c in yes[nm] else '#f'))
    for m in (0, 1, 2):
        def setup(k):
            o = k.prim(R, 'error-object', k.obj('message0', 'string'), *[k.obj('i%d' % i, 'symbol') for i in range(m)])
            d = k.described(o)
            ir = []
            x = d[2]
            while x != NULL and len(ir) < 5:
                ir.append(k.part_of_pair(x, 'car'))
                x = k.part_of_pair(x, 'cdr')
            return (d[0], d[1]) + tuple(ir)
        judge('constructor', '(error-object message%s)' % ' x' * m, R['error-object'], setup,
              lambda k, got: got == ('return', ('error', MSG) + tuple(('v', 'i%d' % i) for i in range(m))), 'error-object must make an error of the message and the list of the irritants')
    r.need_count('signalled', 12)
    r.need_count('thrown', 30)
    r.need_count('C++ exceptions', 30)
    r.need_count('exit', 20)
    r.need_count('predicates', 25)
    r.analysed['programs that signal'] = n
