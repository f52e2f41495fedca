"""C07: the tagged word: every kind of immediate datum and heap reference keeps
its type and its value, and kinds never overlap."""
from engine.interp import *
from engine.bits import Bits, word, const, text, value, is_bits
from engine import facts as ef
from .common import where

CLS = 'meevax::nan_boxing_pointer'
KINDS = ['bool', 'int', 'float', 'double', 'meevax::kernel::character', 'meevax::kernel::instruction', 'meevax::kernel::pair *', 'std::nullptr_t']
PAIR = 'meevax::kernel::pair *'
CHAR = 'meevax::kernel::character'
INSN = 'meevax::kernel::instruction'
SELF = ('obj', 'x')


class NB(Bits):
    max_recur, max_depth, max_paths = 3, 30, 256
    keep_typeid = True

    def pack(self, v, t):
        t = bare(t)
        if t == CHAR:
            if isinstance(v, tuple) and v and v[0] == 'struct':
                vs = [x for _, x in v[2]]
                return self.as_word(vs[0], 32) if len(vs) == 1 else v
            return v
        if v == NULL:
            return const(0, 64)
        w = self.width(t)
        x = self.as_word(v, w[0]) if w else None
        return x if x is not None else v

    def width(self, t):
        return (32, False) if bare(t) == CHAR else (32, False) if bare(t) == INSN else super().width(t)

    def unpack(self, v, t):
        if bare(t) == CHAR:
            return ('struct', ('make', CHAR), (('codepoint', self.resize(v, 32)),))
        return super().unpack(v, t)

    def switch_eq(self, v, c):
        return self.boolean(self.binop('==', self.rv(v), self.rv(c), 'bool'))

    def other_cast(self, n, v):
        if is_bits(v) and n['c'] in ('PointerToIntegral', 'IntegralToPointer'):
            return self.resize(v, 64)
        return super().other_cast(n, v)

    def e_typeid(self, n):
        t = n.get('of') or n.get('t')
        return ('typeid', bare(t)) if t else super().e_typeid(n)


def inputs():
    """(kind, case, symbolic value, bits) covering every value of every kind."""
    b = ('bits', (('b', 'b', 0),) + (0,) * 7)
    yield 'bool', 'any', b, b
    for t in ('int', 'float', INSN):
        w = word('x', 32)
        yield t, 'any', w, w
    w = word('c', 32)
    yield CHAR, 'any', ('struct', ('make', CHAR), (('codepoint', w),)), w
    p = ('bits', word('p', 48)[1] + (0,) * 16)
    yield PAIR, 'any canonical address', p, p
    yield 'std::nullptr_t', 'null', NULL, None
    d = word('d', 64)[1]
    for i in range(52, 63):
        x = ('bits', d[:i] + (0,) + d[i + 1:])
        yield 'double', 'exponent bit %d clear (finite)' % (i - 52), x, x
    for s in (0, 1):
        x = ('bits', (0,) * 52 + (1,) * 11 + (s,))
        yield 'double', '%sinfinity' % '+-'[s], x, x
    for i in range(52):
        x = ('bits', d[:i] + (1,) + d[i + 1:52] + (1,) * 11 + d[63:])
        yield 'double', 'NaN with fraction bit %d set' % i, x, 'nan'


def strip(t):
    return bare(t).replace('enum ', '').replace('struct ', '')


def fix(v, fixed):
    return ('bits', tuple(fixed.get(b, b) for b in v[1])) if is_bits(v) else v


def all_paths(M, thunk):
    """(value, condition text, bits fixed by the condition) of every path."""
    out = []

    def go():
        v = M.rv(thunk())
        return v, M.fixed_bits()
    for p in M.explore(go):
        if p.outcome[0] != 'return':
            raise ef.AnalysisError('path ends with %s %s' % (p.outcome[0], str(p.outcome[1])[:100]))
        v, fixed = p.outcome[1]
        cond = ' with ' + ' and '.join('bits %s%s' % ('' if c else 'not ', ' '.join('%s%d=%d' % (b[1], b[2], x) for b, x in t[1])) for t, c, _ in p.conds if t[0] == 'bitsare') if p.conds else ''
        out.append((v, cond, fixed))
    return out


def check(r, F):
    r.rule('each constructor of the tagged word is evaluated over known and input bits for every value of its kind (doubles split by the first clear exponent bit, infinities and NaNs by a set fraction bit; the split is exhaustive): the accessors for type, truth of being a heap reference, signature and value are evaluated on the resulting word and return the kind and exactly the input bits')
    r.rule('words of two different kinds, and two heap references or immediates whose payloads differ, differ in a bit decided from the masks alone')
    r.assume('heap addresses are canonical user-space addresses: their upper 16 bits are zero')
    r.assume('std::bit_cast reinterprets bits; a double is IEEE 754 binary64 (static_assert in the source)')
    ctors, words, fns = {}, [], {}
    for fn in F.by_q.get(CLS + '::nan_boxing_pointer', []):
        ps = fn['params']
        if len(ps) == 1 and not is_ref(ps[0]['t']):
            ctors[strip(ps[0]['t'])] = fn
    r.need(len(ctors) >= 5, 'constructors of the tagged word not found')
    one = {n: (F.by_q.get('%s::%s' % (CLS, n)) or [None])[0] for n in ('type', 'signature', 'payload', 'get', 'unsafe_get', 'operator bool')}
    ases = {strip(f['ta'][0]): f for f in F.by_q.get(CLS + '::as', []) if f.get('ta')}
    M = NB(F)
    n_acc = 0

    def one_path(thunk, label):
        ps = all_paths(M, thunk)
        if len(ps) != 1:
            raise ef.AnalysisError('%s: %d paths' % (label, len(ps)))
        return ps[0][0]

    def call_on(fn, w):
        def t():
            M.store[('mem', SELF, 'data')] = w
            v = M.call_fn(fn, LV(SELF), [])
            return M.copy_value(v)
        return t

    for kind, case, val, bits in inputs():
        fn = ctors.get(kind)
        inst = '%s, %s' % (kind.replace('meevax::kernel::', ''), case)
        if fn is None:  # no immediate of this kind is ever made
            continue
        at = where(fn)

        def build():
            M.call_fn(fn, LV(SELF), [val])
            return M.rv(M.load(LV(('mem', SELF, 'data'))))
        try:
            w = one_path(build, 'constructor')
            w = M.as_word(w, 64)
            if w is None:
                raise ef.AnalysisError('the stored word is not a known-bits word')
        except (ef.AnalysisError, TooManyPaths) as e:
            r.skip('value', inst, at, str(e)[:120])
            continue
        w = M.resize(w, 64)
        words.append((kind, case, w, at))
        # type
        for name, want in (('type', ('typeid', kind)), ('operator bool', int(kind == PAIR))):
            f = one[name]
            if f is None:
                continue
            try:
                rs = all_paths(M, call_on(f, w))
            except (ef.AnalysisError, TooManyPaths) as e:
                r.skip(name, inst, where(f), str(e)[:120])
                continue
            n_acc += 1
            bad = ''
            for got, cond, fixed in rs:
                if name == 'type':
                    ok = isinstance(got, tuple) and got[0] == 'typeid' and strip(got[1]) == kind
                else:
                    got = M.boolean(got)
                    if isinstance(got, tuple) and got and got[0] in ('bitsare', 'not', 'nonzero'):
                        got = ('depends on', got)
                    ok = got == I(want)
                if not ok:
                    bad = 'the word %s built from %s%s: %s() is %s, expected %s' % (text(w), inst, cond, name, show(got), show(want) if name == 'type' else bool(want))
            r.check(not bad, name, inst, where(f), bad)
        # heap reference accessors
        for name in ('get', 'unsafe_get'):
            f = one[name]
            if f is None or (name == 'unsafe_get' and kind != PAIR):
                continue
            try:
                rs = all_paths(M, call_on(f, w))
            except (ef.AnalysisError, TooManyPaths) as e:
                r.skip(name, inst, where(f), str(e)[:120])
                continue
            n_acc += 1
            bad = ''
            for got, cond, fixed in rs:
                g = got if is_bits(got) else const(0, 64) if got in (NULL, I(0)) else got
                wnt = fix(bits if kind == PAIR else const(0, 64), fixed)
                if fix(g, fixed) != wnt:
                    bad = 'the word %s built from %s%s: %s() is %s, expected %s' % (text(w), inst, cond, name, text(got), text(wnt))
            r.check(not bad, name, inst, where(f), bad)
        # value
        f = ases.get(kind)
        if f is not None and bits is not None:
            try:
                rs = all_paths(M, call_on(f, w))
            except (ef.AnalysisError, TooManyPaths) as e:
                r.skip('value', inst, where(f), str(e)[:120])
                continue
            n_acc += 1
            bad = ''
            for got, cond, fixed in rs:
                g = fix(M.pack(got, kind), fixed)
                if bits == 'nan':
                    ok = is_bits(g) and all(x == 1 for x in g[1][52:63]) and any(x == 1 for x in g[1][:52])
                    want = 'a NaN'
                else:
                    ok = g == fix(bits, fixed)
                    want = text(fix(bits, fixed))
                if not ok:
                    bad = 'the word %s built from %s%s reads back as %s, expected %s' % (text(w), inst, cond, text(g) if is_bits(g) else show(g), want)
            r.check(not bad, 'value', inst, where(f), bad)
    # separation
    for i, (k1, c1, w1, at1) in enumerate(words):
        for k2, c2, w2, at2 in words[:i]:
            if k1 == k2:
                continue
            differ = any(a != b and a in (0, 1) and b in (0, 1) for a, b in zip(w1[1], w2[1]))
            # one of the clear bits of a finite double separates it
            r.check(differ, 'separate', '%s (%s) / %s (%s)' % (k1.replace('meevax::kernel::', ''), c1, k2.replace('meevax::kernel::', ''), c2), at1,
                    'a word of kind %s (%s) can equal a word of kind %s (%s): %s and %s' % (k1, c1, k2, c2, text(w1), text(w2)))
    # copies and resets
    for fn in F.by_q.get(CLS + '::reset', []) + F.by_q.get(CLS + '::nan_boxing_pointer', []):
        ps = fn['params']
        if not ps or not is_ref(ps[0]['t']):
            continue
        src = word('src', 64)

        def t():
            M.store[('mem', ('obj', 'y'), 'data')] = src
            M.store[('mem', SELF, 'data')] = word('old', 64)
            if fn.get('ctor') and not fn.get('inits') and (fn.get('body') or {}).get('k') in (None, 'nop', 'block'):
                raise Stop('defaulted')
            M.call_fn(fn, LV(SELF), [LV(('obj', 'y'))])
            return M.rv(M.load(LV(('mem', SELF, 'data'))))
        try:
            got = one_path(t, fn['q'])
        except (ef.AnalysisError, TooManyPaths) as e:
            if 'defaulted' not in str(e):
                r.skip('copy', fn['q'], where(fn), str(e)[:120])
            continue
        r.check(got == src, 'copy', fn['q'], where(fn), 'copying a tagged word stores %s instead of the source word' % (text(got),))
    for fn in F.by_q.get(CLS + '::reset', []):
        ps = fn['params']
        if ps and bare(ps[0]['t']) == 'std::nullptr_t':
            def t():
                M.store[('mem', SELF, 'data')] = word('old', 64)
                M.call_fn(fn, LV(SELF), [NULL])
                return M.as_word(M.rv(M.load(LV(('mem', SELF, 'data')))), 64)
            try:
                got = one_path(t, fn['q'])
            except (ef.AnalysisError, TooManyPaths) as e:
                r.skip('clear', fn['q'], where(fn), str(e)[:120])
                continue
            null = [w for k, c, w, a in words if k == 'std::nullptr_t']
            r.check(not null or got == null[0], 'clear', fn['q'], where(fn), 'resetting stores %s, the null word is %s' % (text(got), text(null[0]) if null else '?'))
    equality(F, r, M, words)
    r.analysed['constructors'] = len(ctors)
    r.analysed['accessor evaluations'] = n_acc
    r.analysed['functions inlined'] = len(M.inlined)
    r.need_count('value', 60)
    r.need_count('type', 60)
    r.need_count('separate', 100)


def equality(F, r, M, words):
    for op, same in (('operator==', 1), ('operator!=', 0)):
        for fn in F.by_q.get('meevax::' + op, []):
            ps = fn['params']
            if len(ps) != 2 or 'nan_boxing_pointer' not in ps[0]['t']:
                continue
            seen = set()
            for i, (k1, c1, w1, _) in enumerate(words):
                if (k1, w1) in seen:
                    continue
                seen.add((k1, w1))
                for k2, c2, w2, _ in words[:i + 1]:
                    if k1 == k2 and w1 != w2:
                        continue

                    def t():
                        M.store[('mem', ('obj', 'x'), 'data')] = w1
                        M.store[('mem', ('obj', 'y'), 'data')] = w2
                        return M.boolean(M.rv(M.call_fn(fn, None, [LV(('obj', 'x')), LV(('obj', 'y'))])))
                    ps = M.explore(t)
                    if len(ps) != 1 or ps[0].outcome[0] != 'return':
                        r.skip('equal', '%s/%s' % (k1, k2), where(fn), 'not decided')
                        continue
                    want = I(same if k1 == k2 else 1 - same)
                    r.check(ps[0].outcome[1] == want, 'equal', '%s %s (%s) (%s)' % (op, k1, c1, 'itself' if k1 == k2 else k2 + ', ' + c2), where(fn),
                            '%s of the words %s and %s is %s' % (op, text(w1), text(w2), show(ps[0].outcome[1])))
                    # one differing payload bit
                    if k1 == k2 and k1 != 'std::nullptr_t':
                        for j, b in enumerate(w1[1]):
                            if b not in (0, 1):
                                x = ('bits', w1[1][:j] + (0,) + w1[1][j + 1:])
                                y = ('bits', w1[1][:j] + (1,) + w1[1][j + 1:])

                                def t2():
                                    M.store[('mem', ('obj', 'x'), 'data')] = x
                                    M.store[('mem', ('obj', 'y'), 'data')] = y
                                    return M.boolean(M.rv(M.call_fn(fn, None, [LV(('obj', 'x')), LV(('obj', 'y'))])))
                                ps = M.explore(t2)
                                if len(ps) != 1 or ps[0].outcome[0] != 'return':
                                    r.skip('equal', '%s bit %d' % (k1, j), where(fn), 'not decided')
                                    continue
                                r.check(ps[0].outcome[1] == I(1 - same), 'equal', '%s %s (%s) differing in bit %d' % (op, k1, c1, j), where(fn),
                                        'words that differ in bit %d compare %s' % (j, show(ps[0].outcome[1])))
