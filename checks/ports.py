"""Interpretation of ports: bytes and characters are words of known and input
bits, standard streams are byte sequences with a position and state flags."""
import time
from engine.interp import *
from engine import bits
from engine.bits import Bits, const, is_bits, value
from engine.heap import bare
from engine.kernel import tn
from . import prims

EOF = I(-1)


class Stream:
    """A standard stream: the bytes of the medium, the read position and the state."""

    def __init__(self, data=(), opened=True, name=None):
        self.data, self.pos, self.eof, self.fail = list(data), 0, False, not opened
        self.opened, self.name, self.count, self.flushed = opened, name, 0, 0
        self.out = []
        self.closed = 0

    def good(self):
        return not (self.eof or self.fail)


class Ports(Bits, prims.Prim):
    max_paths = 64
    max_recur = 60
    max_unroll = 40
    time_limit = 30

    def setup(self):
        super().setup()
        self.streams = {}
        self.files = {}
        self.missing = set()     # names no file can be opened by
        self.local_types = {}

    def make_hook(self, n, t, args, ev):
        if t == 'string' and len(args) == 1 and args[0].get('k') == 'str':
            return super().make_hook(n, t, args, ev)
        return super(prims.Prim, self).make_hook(n, t, args, ev)

    def construct(self, n, lv):
        if lv.key not in self.local_types and lv.key[0] not in ('mem', 'idx', 'as'):
            self.local_types[lv.key] = tn(n.get('cls', ''))
        return super().construct(n, lv)

    def simplify(self, t):
        if t[0] == 'mem' and t[2] == 'codepoint':
            x = t[1]
            if isinstance(x, tuple) and len(x) == 3 and x[0] in ('imm', 'as') and x[1] == 'character':
                x = x[2]
            if is_bits(x) or is_int(x):
                return x
            if isinstance(x, tuple) and x and x[0] in ('make', 'zero') and len(x) == 2 and x[1].endswith('::character'):
                return I(0)      # value-initialised
        return super().simplify(t)

    def load_default(self, k):
        if k[0] == 'mem' and k[2] == 'codepoint':
            x = self.simplify(k)
            if x != k:
                return x
        return super().load_default(k)

    # ---- streams ---------------------------------------------------------------
    def new_stream(self, **o):
        s = Stream(**o)
        i = len(self.streams)
        self.streams[i] = s
        return ('stream', i)

    def stream(self, v):
        key = None
        for _ in range(6):
            if isinstance(v, LV):
                if v.key[0] == 'global' and v.key[1].startswith('g:std::c'):
                    return self.streams.setdefault(v.key[1][2:], Stream())
                key = v.key
                v = self.load(v)
            elif isinstance(v, tuple) and v and v[0] == 'addr':
                v = LV(v[1])
            else:
                break
        if isinstance(v, tuple) and v and v[0] == 'stream':
            return self.streams[v[1]]
        raise Stop('an unknown stream: %s' % (v,))

    def global_value(self, k):
        return super().global_value(k)

    def byte(self, v):
        v = self.rv(v)
        if is_int(v):
            return const(v[1], 8)
        if is_bits(v):
            return self.resize(v, 8)
        raise Stop('not a byte: %s' % (show(v),))

    def bytes_of(self, v):
        """The bytes of a C++ string."""
        v0 = v
        s = self.seq_of(v)
        if s is not None:
            return [self.byte(x) for x in s[1]]
        v = self.rv(v)
        if isinstance(v, tuple) and v and v[0] == 'str':
            return [const(b, 8) for b in v[1].encode('utf-8', 'surrogateescape')]
        raise Stop('not a string: %s' % (show(v),))

    def e_zero(self, n):
        z = self.zero_array(n.get('t', ''))
        return z if z is not None else super().e_zero(n)

    @staticmethod
    def zero_array(t):
        t = bare(t)
        if t.startswith('std::array<') and t[:-1].split(',')[-1].strip().isdigit():
            e, k = t[len('std::array<'):-1].rsplit(',', 1)
            if e.strip() in INT_TYPES:
                return ('seq', (I(0),) * int(k))
        return None

    def ctor_hook(self, n, cls, args, ev):
        t = bare(n.get('t') or cls or '')
        if t.startswith('std::array<') and not args:
            return self.zero_array(t)
        if t.startswith('std::filesystem::') and t.endswith('path') and len(args) in (1, 2):
            return ('seq', tuple(self.bytes_of(ev(0))))
        if 'basic_string<' in t and 'view' not in t and len(args) >= 2 and bare(args[1].get('t', '')) == 'char' and self.intval(ev(0)) is not None:
            return ('seq', (self.byte(ev(1)),) * self.intval(ev(0)))
        if t.startswith('std::_Deque_iterator<') and len(args) == 1:
            v = self.it_value(ev(0))
            if isinstance(v, tuple) and v and v[0] == 'it':
                return v
        if 'basic_istringstream<' in t:
            return self.new_stream(data=self.bytes_of(ev(0)))
        if 'basic_ostringstream<' in t:
            return self.new_stream()
        if 'basic_ifstream<' in t or 'basic_ofstream<' in t:
            name = tuple(self.bytes_of(ev(0))) if args else None
            mode = self.rv(ev(1)) if len(args) > 1 else None
            there = name not in self.missing
            s = self.new_stream(data=self.files.get(name, ()), opened=name is not None and there, name=name)
            self.streams[s[1]].fail = not there
            self.streams[s[1]].mode = mode
            return s
        if 'basic_string<' in t and 'view' not in t and args:
            b = self.c_string(ev, args)
            if b is not None:
                return ('seq', tuple(b))
        return super().ctor_hook(n, cls, args, ev)

    def c_string(self, ev, args):
        """std::string from a pointer to characters: up to the first zero, or of the given length."""
        v = self.rv(ev(0))
        if not (isinstance(v, tuple) and v and v[0] == 'addr' and v[1][0] == 'idx'):
            return None
        key, i = v[1][1], v[1][2]
        xs = self.elems(key)
        if xs is None or not is_int(i):
            return None
        xs = list(xs)[i[1]:]
        if len(args) > 1 and 'allocator' not in args[1].get('t', ''):
            k = self.intval(ev(1))
            if k is None:
                return None
            if k > len(xs):
                self.out_of_bounds('string of %d characters from an array of %d' % (k, len(xs)), args[0])
            return [self.byte(x) for x in xs[:k]]
        out = []
        for x in xs:
            x = self.byte(x)
            if self.decide(self.nonzero(x)):
                out.append(x)
            else:
                return out
        self.out_of_bounds('no terminating zero', args[0])

    def int_of_byte(self, b):
        """int value of an unsigned byte."""
        b = self.resize(b, 32)
        k = value(b)
        return I(k) if k is not None else b

    def peek(self, s):
        if not s.good():
            s.fail = True      # the sentry fails
            return EOF
        if s.pos >= len(s.data):
            s.eof = True
            return EOF
        return self.int_of_byte(s.data[s.pos])

    def get(self, s):
        if not s.good():
            s.fail = True
            return EOF
        if s.pos >= len(s.data):
            s.eof = s.fail = True
            return EOF
        s.pos += 1
        return self.int_of_byte(s.data[s.pos - 1])

    def put_bytes(self, s, bs):
        s.out += bs

    def call_hook(self, n, q, fn, obj, args, ev):
        m = q.split('::')[-1] if q else ''
        if n.get('virt') and not n.get('qualified') and obj is not None and q not in self.VIRTUAL:
            o = self.object_of(obj)
            d = self.dyntype(o) if o is not None else None
            this = LV(('as', d, o))
            if o is None and isinstance(obj, LV) and obj.key in self.local_types:
                d, this = self.local_types[obj.key], obj
            if o is None and isinstance(obj, LV) and obj.key[0] == 'tmpobj':
                d, this = tn(obj.key[2]), obj
            if d is not None:
                f = self.final_overrider(n['f'], d)
                if f is not None:
                    return self.call_fn(f, this, [ev(i) for i in range(len(args))], n)
        if q and q.startswith(('std::basic_istream::', 'std::basic_ios::', 'std::basic_ifstream::', 'std::basic_ofstream::', 'std::basic_ostream::', 'std::basic_istringstream::', 'std::basic_ostringstream::')) and obj is not None:
            s = self.stream(obj)
            r = self.stream_call(s, m, n, obj, args, ev)
            if r is not None:
                return r
            raise Stop('stream operation ' + q)
        if q in ('std::filesystem::canonical', 'std::filesystem::weakly_canonical', 'std::filesystem::exists') and args:
            name = tuple(self.bytes_of(ev(0)))
            if m == 'exists':
                return I(int(name not in self.missing))
            if m == 'canonical' and name in self.missing:
                raise Throw('std::filesystem::filesystem_error', ('v', 'exception'), n)
            return ('seq', name)
        if q == 'std::operator<<' and len(args) == 2:
            s = self.stream(ev(0))
            v = self.rv(ev(1))
            t = bare(args[1].get('t', ''))
            if t in ('char', 'unsigned char', 'signed char'):
                s.out.append(self.byte(v))
            else:
                x = self.c_string(lambda i: ev(1), args[1:]) if isinstance(v, tuple) and v and v[0] == 'addr' else None
                s.out += x if x is not None else self.bytes_of(ev(1))
            return ev(0)
        if q == 'meevax::exact_integer_cast' and len(args) == 1:
            x = self.rv(ev(0))
            if isinstance(x, tuple) and x and x[0] == 'imm' and is_bits(x[2]):
                w = self.width((n.get('ta') or ['long'])[0])
                return self.resize(x[2], w[0] if w else 64)
        if q in ('std::numeric_limits::max', 'std::numeric_limits::min') and bare(n.get('t', '')) in INT_TYPES:
            w, signed = INT_TYPES[bare(n['t'])]
            hi, lo = ((1 << (w - 1)) - 1, -(1 << (w - 1))) if signed else ((1 << w) - 1, 0)
            return I(hi if q.endswith('max') else lo)
        if m == 'pop_front' and q.startswith('std::deque') and obj is not None:
            xs = self.seq_of(obj)
            if xs:
                if not xs[1]:
                    self.out_of_bounds('pop_front of an empty sequence', n)
                self.set_elems(obj.key, xs[1][1:])
                return UNSPEC
        if q in ('std::min', 'std::max') and len(args) == 2:
            a, b = self.intval(ev(0)), self.intval(ev(1))
            if a is not None and b is not None:
                return I(min(a, b) if q == 'std::min' else max(a, b))
        if q in ('std::char_traits::eof',):
            return EOF
        if q in ('std::char_traits::eq_int_type', 'std::char_traits::eq'):
            return self.binop('==', self.rv(ev(0)), self.rv(ev(1)), 'bool', None)
        if q in ('std::char_traits::to_char_type', 'std::char_traits::to_int_type'):
            b = self.byte(ev(0))
            return b if q.endswith('char_type') else self.int_of_byte(b)
        return super().call_hook(n, q, fn, obj, args, ev)

    def stream_call(self, s, m, n, obj, args, ev):
        if m == 'peek' and not args:
            return self.peek(s)
        if m == 'get' and not args:
            s.count = int(s.good() and s.pos < len(s.data))
            return self.get(s)
        if m in ('putback', 'unget'):
            s.eof = False
            if s.fail:
                return obj
            if s.pos == 0:
                s.fail = True
                return obj
            s.pos -= 1
            if m == 'putback':
                s.data[s.pos] = self.byte(ev(0))
            return obj
        if m == 'read' and len(args) == 2:
            p, k = self.rv(ev(0)), self.intval(ev(1))
            if k is None:
                return None
            s.count = 0
            if not s.good():
                s.fail = True
                return obj
            base = p[1] if isinstance(p, tuple) and p and p[0] == 'addr' else None
            if base is None:
                return None
            while s.count < k:
                if s.pos >= len(s.data):
                    s.eof = s.fail = True
                    break
                b = s.data[s.pos]
                if base[0] == 'idx':
                    i = base[2][1] + s.count
                    xs = self.elems(base[1])
                    if i >= len(xs):
                        self.out_of_bounds('read beyond a buffer of %d' % len(xs), n)
                    self.set_elems(base[1], xs[:i] + (self.int_of_byte(b),) + xs[i + 1:])
                elif s.count == 0:
                    self.store[base] = self.int_of_byte(b)
                else:
                    self.out_of_bounds('read beyond a variable', n)
                s.pos += 1
                s.count += 1
            return obj
        if m == 'write' and len(args) == 2:
            p, k = self.rv(ev(0)), self.intval(ev(1))
            if k is None or not (isinstance(p, tuple) and p and p[0] == 'addr'):
                return None
            if p[1][0] == 'idx':
                i = p[1][2][1]
                xs = self.elems(p[1][1])
                if i + k > len(xs):
                    self.out_of_bounds('write beyond a buffer of %d' % len(xs), n)
                s.out += [self.byte(x) for x in xs[i:i + k]]
            elif k == 1:
                s.out.append(self.byte(LV(p[1])))
            elif k:
                self.out_of_bounds('write beyond a variable', n)
            return obj
        if m == 'put' and len(args) == 1:
            s.out.append(self.byte(ev(0)))
            return obj
        if m == 'gcount':
            return I(s.count)
        if m == 'eof':
            return I(int(s.eof))
        if m in ('operator bool', 'operator!', 'fail', 'good'):
            ok = s.good() if m == 'good' else not s.fail
            return I(int(ok == (m in ('operator bool', 'good'))))
        if m == 'clear':
            s.eof = s.fail = False
            return UNSPEC
        if m == 'close':
            s.closed += 1
            s.opened = False
            return UNSPEC
        if m == 'is_open':
            return I(int(s.opened))
        if m == 'str' and not args:
            return ('seq', tuple(s.data if s.data else s.out))
        if m == 'flush':
            s.flushed += 1
            return obj
        if m == 'operator<<' and len(args) == 1:
            v = self.rv(ev(0))
            if isinstance(v, tuple) and v and v[0] == 'fn' and v[2].split('::')[-1] in ('flush', 'endl'):
                s.flushed += 1
                if v[2].endswith('endl'):
                    s.out.append(const(10, 8))
                return obj
        return None

    def final_overrider(self, key, d):
        """The function a virtual call reaches on an object of type d."""
        keys, todo = set(), [key]
        while todo:
            x = todo.pop()
            if x not in keys:
                keys.add(x)
                todo += self.F.overriders.get(x, ())
        level = ['meevax::kernel::' + d]
        while level:
            found = [f for c in level for f in self.F.by_cls().get(c, ()) if f['key'] in keys and f.get('body')]
            if found:
                return found[0]
            level = [b for c in level for b in (self.F.classes.get(bare(c)) or {'bases': []})['bases']]
        return None

    # ---- data ------------------------------------------------------------------
    def ch(self, w):
        return ('imm', 'character', w)

    nobj = 0

    def text(self, cps):
        """A string of the given code points."""
        self.nobj += 1
        return self.seq_obj('text%d' % self.nobj, 'string', 'characters', [('struct', ('make', 'character'), (('codepoint', c),)) for c in cps])

    def octets(self, bs):
        self.nobj += 1
        return self.seq_obj('octets%d' % self.nobj, 'homogeneous_vector<unsigned char>', 'values', [self.int_of_byte(b) for b in bs])

    nlist = 0

    def prim(self, R, name, *args):
        if name not in R:
            raise Stop('primitive %s is not registered' % name)
        self.nlist += 1
        a = LV(('arg', 'xs%d' % self.nlist))
        self.store[a.key] = self.list('args%d' % self.nlist, list(args))
        return self.copy_value(self.call_fn(R[name], None, [a]))

    def word32(self, v):
        v = self.rv(v)
        for _ in range(6):
            if isinstance(v, tuple) and v and v[0] == 'struct' and dict(v[2]).keys() == {'codepoint'}:
                v = self.rv(dict(v[2])['codepoint'])
            elif isinstance(v, tuple) and v and v[0] in ('imm', 'make') and len(v) == 3:
                v = self.rv(v[2])
            else:
                break
        if is_int(v):
            return const(v[1], 32)
        if is_bits(v):
            return self.resize(v, 32)
        raise Stop('not a number: %s' % (show(v),))

    def seen(self, v):
        """A result as plain data: ('chr', word), ('num', word), ('eof',), ('str', words), ('u8', words), ('bool', b)."""
        v = self.copy_value(v)
        if isinstance(v, tuple) and v:
            if v[0] == 'imm' and v[1] == 'character':
                return ('chr', self.word32(v[2]))
            if v[0] == 'imm' and v[1] == 'int':
                return ('num', self.word32(v[2]))
            if v[0] == 'imm' and v[1] == 'bool':
                return ('bool', self.decide(v[2]))
            t = self.dyntype(v)
            if t == 'eof' or v == ('global', 'g:meevax::eof_object'):
                return ('eof',)
            if t == 'string':
                s = self.seq_of(LV(('mem', ('as', 'string', v), 'characters')))
                if s is not None:
                    return ('str', tuple(self.word32(x) for x in s[1]))
            if t == 'homogeneous_vector<unsigned char>':
                s = self.seq_of(LV(('mem', ('as', t, v), 'values')))
                if s is not None:
                    return ('u8', tuple(self.word32(x) for x in s[1]))
            if v == ('global', 'g:meevax::unspecified'):
                return ('unspecified',)
        raise Stop('result %s' % (show(v),))

    def stream_of(self, port):
        """The stream behind a port object: the one stored in it, else the standard stream its conversion yields."""
        t = self.dyntype(port)
        for k, v in self.store.items():
            if k[0] == 'mem' and k[1] == ('as', t, port) and isinstance(v, tuple) and v and v[0] == 'stream':
                return self.streams[v[1]]
        names = {'standard_output_port': 'std::cout', 'standard_error_port': 'std::cerr', 'standard_input_port': 'std::cin'}
        if t in names:
            return self.streams.setdefault(names[t], Stream())
        raise Stop('no stream in ' + t)
