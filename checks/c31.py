"""C31: ports deliver and record characters and bytes in order, encoded as UTF-8."""
import itertools
import re
from engine.interp import *
from engine.bits import const, text, is_bits, value
from engine.kernel import tn
from . import names, prims
from .ports import Ports, Stream
from .common import where

NL, NUL_ = 10, 0
PORT = 'src/kernel/boot.cpp'


# ---- characters ----------------------------------------------------------------
def block(name, free, top=()):
    """A 32 bit word: the given leading bits, below them free bits of the input."""
    bs = tuple(('b', name, i) for i in range(free)) + tuple(reversed(top))
    return ('bits', bs + (0,) * (32 - len(bs)))


def ascii_block(name):
    return block(name, 3, (1, 1, 0, 1))        # h..o


def kinds(name):
    """One representative block of characters of every encoded length."""
    return {'a': ascii_block(name), 'n': const(NL, 32), '0': const(NUL_, 32), '2': block(name, 9, (1,)), '3': block(name, 14, (1,)), '4': block(name, 17, (1,))}


def chars(spec):
    return [kinds('c%d' % i)[x] for i, x in enumerate(spec)]


def all_blocks():
    """Blocks that make up all code points."""
    out = [('U+0', const(0, 32))]
    for hi in range(20):
        out.append(('U+%X..%X' % (1 << hi, (2 << hi) - 1), block('c', hi, (1,))))
    out.append(('U+100000..10FFFF', block('c', 16, (1, 0, 0, 0, 0))))
    return out


def spec_utf8(w):
    """UTF-8 of a code point block, by the definition of the encoding."""
    bs = w[1]
    hi = max([i for i, b in enumerate(bs) if b != 0] or [0])

    def tail(k):
        return ('bits', bs[6 * k:6 * k + 6] + (0, 1))
    if hi <= 6:
        return [('bits', bs[:7] + (0,))]
    if hi <= 10:
        return [('bits', bs[6:11] + (0, 1, 1)), tail(0)]
    if hi <= 15:
        return [('bits', bs[12:16] + (0, 1, 1, 1)), tail(1), tail(0)]
    return [('bits', bs[18:21] + (0, 1, 1, 1, 1)), tail(2), tail(1), tail(0)]


def encoded(cs):
    return [b for c in cs for b in spec_utf8(c)]


def halves(w):
    """Splits a block at its highest free bit."""
    bs = list(w[1])
    free = [i for i, b in enumerate(bs) if b not in (0, 1)]
    if not free:
        return []
    i = free[-1]
    return [('bits', tuple(bs[:i] + [v] + bs[i + 1:])) for v in (0, 1)]


def undecided(o):
    return o.kind == 'stop' and o.why and 'not decided by the known bits' in o.why


def say(x):
    if isinstance(x, tuple) and x and x[0] == 'bits':
        v = value(x)
        return ('%X' % v) if v is not None else text(x)
    if isinstance(x, tuple):
        return '(%s)' % ' '.join(say(y) for y in x)
    if isinstance(x, list):
        return '[%s]' % ' '.join(say(y) for y in x)
    return str(x)


# ---- media -----------------------------------------------------------------------
class Text:
    """The specified behaviour of a textual input port."""

    def __init__(self, cs):
        self.cs, self.pos = list(cs), 0

    def rest(self):
        return len(self.cs) - self.pos

    def step(self, op):
        if op == 'peek':
            return ('chr', self.cs[self.pos]) if self.rest() else ('eof',)
        if op == 'get':
            if not self.rest():
                return ('eof',)
            self.pos += 1
            return ('chr', self.cs[self.pos - 1])
        if op == 'ready':
            return ('bool', True)
        if op == 'line':
            if not self.rest():
                return ('eof',)
            i = self.pos
            while self.pos < len(self.cs) and self.cs[self.pos] != const(NL, 32):
                self.pos += 1
            r = tuple(self.cs[i:self.pos])
            self.pos = min(self.pos + 1, len(self.cs))
            return ('str', r)
        k = int(op)
        if not self.rest():
            return None if k == 0 else ('eof',)
        i = self.pos
        self.pos = min(self.pos + k, len(self.cs))
        return ('str', tuple(self.cs[i:self.pos]))


class Bytes:
    def __init__(self, bs):
        self.bs, self.pos = list(bs), 0

    def rest(self):
        return len(self.bs) - self.pos

    def num(self, b):
        return ('bits', b[1] + (0,) * 24)

    def step(self, op):
        if op in ('peek', 'get'):
            if not self.rest():
                return ('eof',)
            b = self.bs[self.pos]
            self.pos += op == 'get'
            return ('num', self.num(b))
        if op == 'ready':
            return ('bool', True)
        k = int(op)
        if not self.rest():
            return None if k == 0 else ('eof',)
        i = self.pos
        self.pos = min(self.pos + k, len(self.bs))
        return ('u8', tuple(self.num(b) for b in self.bs[i:self.pos]))


TEXT_OPS = {'peek': 'peek-char', 'get': 'get-char', 'line': 'get-line', 'ready': 'get-char-ready?'}
BYTE_OPS = {'peek': 'peek-u8', 'get': 'get-u8', 'ready': 'get-u8-ready?'}
NAME = 'name'


def open_input(k, R, medium, cs):
    if medium == 'string':
        return k.prim(R, 'open-input-string', k.text(cs))
    if medium == 'file':
        k.files[tuple(const(ord(c), 8) for c in NAME)] = encoded(cs)
        return k.prim(R, 'open-input-file', k.text([const(ord(c), 32) for c in NAME]))
    if medium == 'standard':
        k.streams['std::cin'] = Stream(data=encoded(cs))
        return k.prim(R, 'standard-input-port')
    raise Stop(medium)


def open_bytes(k, R, medium, bs):
    if medium == 'bytevector':
        return k.prim(R, 'open-input-u8vector', k.octets(bs))
    k.files[tuple(const(ord(c), 8) for c in NAME)] = list(bs)
    return k.prim(R, 'open-binary-input-file', k.text([const(ord(c), 32) for c in NAME]))


def apply_op(k, R, port, op, binary):
    table = BYTE_OPS if binary else TEXT_OPS
    if op in table:
        return k.seen(k.prim(R, table[op], port))
    return k.seen(k.prim(R, 'get-u8vector' if binary else 'get-string', ('imm', 'int', I(int(op))), port))


class Check:
    def __init__(self, r, F):
        self.r, self.F, self.R = r, F, prims.registry(F)
        self.n = 0

    def explore(self, setup):
        def go(k):
            k.setup()
            k.nobj = k.nlist = 0
            return setup(k)
        return names.explore(self.F, go, Ports)[1]

    def judge(self, family, label, prim, setup, want, what):
        """Every path must return a value equal to want (None: nothing is specified; 'throw': an error)."""
        fn = self.R.get(prim)
        if fn is None:
            self.r.bad(family, label, PORT, 'primitive %s is not registered' % prim)
            return
        self.n += 1
        bad = None
        for o in self.explore(setup):
            if o.kind == 'stop' and not o.oob:
                self.r.skip(family, label, where(fn), o.why)
                return
            if want == 'file error':
                if o.kind != 'throw' or o.oob or not re.fullmatch(r'(meevax::)?file_error', tn(o.type)):
                    bad = '%s: a file error must be signalled, got %s' % (what, say(o.value) if o.kind == 'return' else tn(o.type) if o.kind == 'throw' else o.oob)
                continue
            if want == 'throw':
                if o.kind != 'throw' or o.oob:
                    bad = '%s: an error must be signalled, got %s' % (what, say(o.value) if o.kind == 'return' else o.oob)
                continue
            if o.kind != 'return' or o.oob:
                bad = '%s: %s' % (what, 'accesses ' + str(o.oob[0][0]) if o.oob else 'signals ' + str(getattr(o, 'type', o.why)))
                continue
            if len(o.value) != len(want):
                bad = '%s: got %s, expected %s' % (what, say(o.value), say(want))
                continue
            for i, (g, w) in enumerate(zip(o.value, want)):
                if w is not None and g != w:
                    bad = '%s: step %d gives %s, expected %s%s' % (what, i + 1, say(g), say(w), ''.join(' when %s=%s' % (show(t)[:80], c) for t, c, _ in o.conds))
                    break
        if bad:
            self.r.bad(family, label, where(fn), bad)
        else:
            self.r.ok(family, label, where(fn))

    def by_blocks(self, family, label, prim, w, make):
        """make(block) -> (setup, want, what); blocks are split until every comparison is decided."""
        todo = [w]
        while todo:
            b = todo.pop()
            setup, want, what = make(b)
            outs = self.explore(setup)
            if any(undecided(o) for o in outs) and halves(b):
                todo += halves(b)
                continue
            self.judge(family, '%s %s' % (label, '' if b == w else text(b).lstrip('0')), prim, setup, want, what)


def check(r, F):
    r.rule('every sequence of port operations, interpreted from the source of the primitives over standard streams modelled as byte sequences, returns exactly the characters or bytes of the medium in order; code points and encodings are words of known and free bits, so one instance covers all characters of a block')
    r.assume('the standard streams behave as the C++ standard specifies; a read that reaches the end of a standard stream sets its end and failure state')
    c = Check(r, F)
    R = c.R

    # ---- the encoding, for every code point -------------------------------------
    for label, w in all_blocks():
        def enc(b):
            def setup(k):
                p = k.prim(R, 'open-output-file', k.text([const(ord('f'), 32)]))
                k.prim(R, 'put-char', k.ch(b), p)
                return (tuple(k.stream_of(p).out),)
            return setup, (tuple(spec_utf8(b)),), 'writing the character %s' % say(b)
        c.by_blocks('encoding', label, 'put-char', w, enc)

        def dec(b):
            def setup(k):
                k.files[(const(ord('f'), 8),)] = spec_utf8(b) + [const(65, 8)]
                p = k.prim(R, 'open-input-file', k.text([const(ord('f'), 32)]))
                return (k.seen(k.prim(R, 'get-char', p)), k.seen(k.prim(R, 'get-char', p)))
            return setup, (('chr', b), ('chr', const(65, 32))), 'reading the character %s' % say(b)
        c.by_blocks('decoding', label, 'get-char', w, dec)

        def pk(b):
            def setup(k):
                k.files[(const(ord('f'), 8),)] = spec_utf8(b) + [const(65, 8)]
                p = k.prim(R, 'open-input-file', k.text([const(ord('f'), 32)]))
                return (k.seen(k.prim(R, 'peek-char', p)), k.seen(k.prim(R, 'peek-char', p)), k.seen(k.prim(R, 'get-char', p)), k.seen(k.prim(R, 'get-char', p)))
            return setup, (('chr', b), ('chr', b), ('chr', b), ('chr', const(65, 32))), 'peeking at the character %s' % say(b)
        c.by_blocks('peeking', label, 'peek-char', w, pk)

        def s2u(b):
            def setup(k):
                return (k.seen(k.prim(R, 'string->u8vector', k.text([b, const(65, 32)]))),)
            return setup, (('u8', tuple(('bits', x[1] + (0,) * 24) for x in spec_utf8(b) + [const(65, 8)])),), 'the bytes of a string with the character %s' % say(b)
        c.by_blocks('string to bytes', label, 'string->u8vector', w, s2u)

        def u2s(b):
            def setup(k):
                return (k.seen(k.prim(R, 'u8vector->string', k.octets(spec_utf8(b) + [const(65, 8)]))),)
            return setup, (('str', (b, const(65, 32))),), 'the string of the bytes of the character %s' % say(b)
        c.by_blocks('bytes to string', label, 'u8vector->string', w, u2s)
    for label, lead in (('10xxxxxx', ('bits', tuple(('b', 'x', i) for i in range(6)) + (0, 1))), ('1100000x', ('bits', (('b', 'x', 0), 0, 0, 0, 0, 0, 1, 1))),
                        ('11110101', const(0xF5, 8)), ('1111011x', ('bits', (('b', 'x', 0), 1, 1, 0, 1, 1, 1, 1))), ('11111xxx', ('bits', tuple(('b', 'x', i) for i in range(3)) + (1,) * 5))):
        def inv(b):
            def setup(k):
                k.files[(const(ord('f'), 8),)] = [b] + [const(0x80, 8)] * 3
                return (k.seen(k.prim(R, 'get-char', k.prim(R, 'open-input-file', k.text([const(ord('f'), 32)])))),)
            return setup, 'throw', 'reading a character that begins with the byte %s' % say(b)
        c.by_blocks('invalid', label, 'get-char', lead, inv)

    # ---- textual input -------------------------------------------------------------
    texts = ['', 'a', 'n', '0', '2', '3', '4', 'aa', 'an', 'na', 'nn', 'a2', '3a', '4n', '0a', 'a0', 'n2', 'ana', 'a2n', 'nan', '23n', '40a', 'ann', 'a2n3', 'nn4a', '0n0a']
    for medium in ('string', 'file', 'standard'):
        for t in texts:
            ops = ['peek', 'get', 'line'] + [str(i) for i in range(len(t) + 2)]
            seqs = [()] + [(a,) for a in ops] + [(a, b) for a in ops for b in ops]
            for seq in seqs:
                if len(seq) == 2 and medium != 'string' and len(t) > 2:
                    continue
                full = seq + ('peek',) + ('get',) * (len(t) + 2)
                model = Text(chars(t))
                want = []
                for op in full:
                    want.append(model.step(op))

                def setup(k, full=full, medium=medium, t=t):
                    p = open_input(k, R, medium, chars(t))
                    return tuple(apply_op(k, R, p, op, False) for op in full)
                c.judge('textual input', '%s %s: %s' % (medium, t or 'empty', ' '.join(seq) or 'all'), TEXT_OPS.get(seq[0] if seq else 'get', 'get-string'), setup, tuple(want),
                        'the operations %s on a textual port with the characters [%s]' % (', '.join(full), say(chars(t))))
            if t:
                def ready(k, medium=medium, t=t):
                    p = open_input(k, R, medium, chars(t))
                    return (apply_op(k, R, p, 'ready', False), apply_op(k, R, p, 'get', False))
                c.judge('textual input', '%s %s: ready' % (medium, t), 'get-char-ready?', ready, (('bool', True), ('chr', chars(t)[0])), 'char-ready? before a character')

    # ---- binary input ---------------------------------------------------------------
    def octets(n):
        return [('bits', tuple(('b', 'o%d' % i, j) for j in range(8))) for i in range(n)]
    for medium in ('bytevector', 'file'):
        for n in range(5):
            ops = ['peek', 'get'] + [str(i) for i in range(n + 2)]
            for seq in [()] + [(a,) for a in ops] + [(a, b) for a in ops for b in ops]:
                full = seq + ('peek',) + ('get',) * (n + 2) + ('1', 'peek')
                model = Bytes(octets(n))
                want = tuple([model.step(op) for op in full])

                def setup(k, full=full, medium=medium, n=n):
                    p = open_bytes(k, R, medium, octets(n))
                    return tuple(apply_op(k, R, p, op, True) for op in full)
                c.judge('binary input', '%s %d: %s' % (medium, n, ' '.join(seq) or 'all'), BYTE_OPS.get(seq[0] if seq else 'get', 'get-u8vector'), setup, want,
                        'the operations %s on a binary port with %d bytes' % (', '.join(full), n))
            if n:
                def ready(k, medium=medium, n=n):
                    p = open_bytes(k, R, medium, octets(n))
                    return (apply_op(k, R, p, 'ready', True), apply_op(k, R, p, 'get', True))
                c.judge('binary input', '%s %d: ready' % (medium, n), 'get-u8-ready?', ready, (('bool', True), ('num', Bytes([]).num(octets(1)[0]))), 'u8-ready? before a byte')

    # ---- output -----------------------------------------------------------------------
    def open_out(k, medium):
        if medium == 'string':
            return k.prim(R, 'open-output-string')
        if medium == 'file':
            return k.prim(R, 'open-output-file', k.text([const(ord('f'), 32)]))
        return k.prim(R, 'standard-%s-port' % medium)
    pieces = [('c', 'a'), ('c', '0'), ('c', 'n'), ('c', '3'), ('s', ''), ('s', 'a'), ('s', 'a2'), ('s', '40n'), ('s', '0')]
    for medium in ('string', 'file', 'output', 'error'):
        for seq in [()] + [(a,) for a in pieces] + [(a, b) for a in pieces for b in pieces] + ([(a, b, d) for a in pieces[:4] for b in pieces[4:] for d in pieces[1:3]] if medium == 'string' else []):
            def piece(i, p):
                return [kinds('p%d%d' % (i, j))[x] for j, x in enumerate(p[1])]
            cs = [x for i, p in enumerate(seq) for x in piece(i, p)]

            def setup(k, seq=seq, medium=medium):
                p = open_out(k, medium)
                r = []
                for i, (how, what) in enumerate(seq):
                    x = piece(i, (how, what))
                    if how == 'c':
                        k.prim(R, 'put-char', k.ch(x[0]), p)
                    else:
                        k.prim(R, 'put-string', k.text(x), p)
                k.prim(R, 'flush', p)
                if medium == 'string':
                    # reading the contents does not consume them
                    return (k.seen(k.prim(R, 'get-output-string', p)), k.seen(k.prim(R, 'get-output-string', p)))
                return (tuple(k.stream_of(p).out), k.stream_of(p).flushed > 0)
            want = (('str', tuple(cs)),) * 2 if medium == 'string' else (tuple(encoded(cs)), True)
            c.judge('textual output', '%s: %s' % (medium, ' '.join('%s:%s' % p for p in seq) or 'nothing'), 'put-char' if seq and seq[0][0] == 'c' else 'put-string', setup, want, 'writing %s to a textual port' % say(cs))
    bpieces = [1, 'v0', 'v1', 'v2', 'v3']
    for medium in ('bytevector', 'file'):
        for seq in [()] + [(a,) for a in bpieces] + [(a, b) for a in bpieces for b in bpieces] + [(a, b, d) for a in bpieces for b in bpieces for d in bpieces[:3]]:
            def bp(i, p):
                return [('bits', tuple(('b', 'q%d%d' % (i, j), x) for x in range(8))) for j in range(1 if p == 1 else int(p[1:]))]
            bs = [x for i, p in enumerate(seq) for x in bp(i, p)]

            def setup(k, seq=seq, medium=medium):
                p = k.prim(R, 'open-output-u8vector') if medium == 'bytevector' else k.prim(R, 'open-binary-output-file', k.text([const(ord('f'), 32)]))
                for i, x in enumerate(seq):
                    if x == 1:
                        k.prim(R, 'put-u8', ('imm', 'int', k.int_of_byte(bp(i, x)[0])), p)
                    else:
                        k.prim(R, 'put-u8vector', k.octets(bp(i, x)), p)
                k.prim(R, 'flush', p)
                if medium == 'bytevector':
                    return (k.seen(k.prim(R, 'get-output-u8vector', p)), k.seen(k.prim(R, 'get-output-u8vector', p)))
                return (tuple(k.stream_of(p).out), k.stream_of(p).flushed > 0)
            want = (('u8', tuple(Bytes([]).num(b) for b in bs)),) * 2 if medium == 'bytevector' else (tuple(bs), True)
            c.judge('binary output', '%s: %s' % (medium, ' '.join(map(str, seq)) or 'nothing'), 'put-u8' if seq and seq[0] == 1 else 'put-u8vector', setup, want, 'writing %d bytes to a binary port' % len(bs))

    # ---- opening and closing ------------------------------------------------------------
    for op, kind in (('open-input-file', 'input'), ('open-output-file', 'output'), ('open-binary-input-file', 'input'), ('open-binary-output-file', 'output')):
        for nm in ('a', '2', 'a23', '4a'):
            def setup(k, op=op, nm=nm):
                name = [kinds('n%d' % i)[x] for i, x in enumerate(nm)]
                p = k.prim(R, op, k.text(name))
                s = k.stream_of(p)
                a = k.seen(k.prim(R, 'open?', p))
                before = s.closed
                k.prim(R, 'close', p)
                return (tuple(s.name or ()), a, before, s.closed, k.seen(k.prim(R, 'open?', p)))
            want = (tuple(encoded([kinds('n%d' % i)[x] for i, x in enumerate(nm)])), ('bool', True), 0, 1, ('bool', False))
            c.judge('files', '%s %s' % (op, nm), op, setup, want, '(%s name) opens the file of that name and close closes it' % op)
    for op in ('open-input-file', 'open-output-file', 'open-binary-input-file', 'open-binary-output-file'):
        for nm in ('a', '2a'):
            def setup(k, op=op, nm=nm):
                name = [kinds('n%d' % i)[x] for i, x in enumerate(nm)]
                k.missing.add(tuple(encoded(name)))
                k.prim(R, op, k.text(name))
                return ()
            c.judge('unopenable files', '%s %s' % (op, nm), op, setup, 'file error', '(%s name) of a file that cannot be opened' % op)
    preds = ['input-port?', 'output-port?', 'textual-port?', 'binary-port?', 'port?', 'eof-object?']
    for op, arg, yes in (('open-input-file', 'name', 'it'), ('open-output-file', 'name', 'ot'), ('open-binary-input-file', 'name', 'ib'), ('open-binary-output-file', 'name', 'ob'), ('open-input-string', 'name', 'it'),
                         ('open-output-string', None, 'ot'), ('open-input-u8vector', 'bytes', 'ib'), ('open-output-u8vector', None, 'ob'), ('standard-input-port', None, 'it'),
                         ('standard-output-port', None, 'ot'), ('standard-error-port', None, 'ot')):
        def setup(k, op=op, arg=arg):
            p = k.prim(R, op, *([k.text([const(97, 32)])] if arg == 'name' else [k.octets([])] if arg else []))
            return tuple(k.seen(k.prim(R, x, p)) for x in preds)
        c.judge('kinds of ports', op, op, setup, tuple(('bool', x) for x in ('i' in yes, 'o' in yes, 't' in yes, 'b' in yes, True, False)), 'the predicates %s on the port made by %s' % (', '.join(preds), op))
    # two ports do not share their position, nor a port its source
    for t in ('a2n', '34a'):
        def setup(k, t=t):
            s = k.text(chars(t))
            p, q = k.prim(R, 'open-input-string', s), k.prim(R, 'open-input-string', s)
            a = apply_op(k, R, p, 'get', False)
            key = ('mem', ('as', 'string', s), 'characters')
            k.store[key] = ('seq', ())
            return (a, apply_op(k, R, q, 'get', False), apply_op(k, R, p, 'get', False), apply_op(k, R, q, 'get', False))
        cs = [('chr', x) for x in chars(t)]
        c.judge('independence', 'string ports of %s' % t, 'open-input-string', setup, (cs[0], cs[0], cs[1], cs[1]), 'two ports of one string')

    def setup(k):
        s = k.octets(octets(3))
        p, q = k.prim(R, 'open-input-u8vector', s), k.prim(R, 'open-input-u8vector', s)
        a = apply_op(k, R, p, 'get', True)
        k.store[('mem', ('as', 'homogeneous_vector<unsigned char>', s), 'values')] = ('seq', ())
        return (a, apply_op(k, R, q, 'get', True), apply_op(k, R, p, '2', True), apply_op(k, R, q, 'get', True))
    n = [Bytes([]).num(b) for b in octets(3)]
    c.judge('independence', 'bytevector ports', 'open-input-u8vector', setup, (('num', n[0]), ('num', n[0]), ('u8', (n[1], n[2])), ('num', n[1])), 'two ports of one bytevector')
    for name, medium in (('open-output-string', 'string'), ('open-output-u8vector', 'bytevector')):
        def setup(k, name=name, medium=medium):
            p, q = k.prim(R, name), k.prim(R, name)
            if medium == 'string':
                k.prim(R, 'put-char', k.ch(const(97, 32)), p)
                a = k.prim(R, 'get-output-string', p)
                k.prim(R, 'put-char', k.ch(const(98, 32)), p)
                return (k.seen(a), k.seen(k.prim(R, 'get-output-string', q)), k.seen(k.prim(R, 'get-output-string', p)))
            k.prim(R, 'put-u8', ('imm', 'int', I(97)), p)
            a = k.prim(R, 'get-output-u8vector', p)
            k.prim(R, 'put-u8', ('imm', 'int', I(98)), p)
            return (k.seen(a), k.seen(k.prim(R, 'get-output-u8vector', q)), k.seen(k.prim(R, 'get-output-u8vector', p)))
        tag = 'str' if medium == 'string' else 'u8'
        c.judge('independence', name, name, setup, ((tag, (const(97, 32),)), (tag, ()), (tag, (const(97, 32), const(98, 32)))), 'two output ports')
    r.need_count('textual input', 500)
    r.analysed['port programs'] = c.n
