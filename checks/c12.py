"""C12: range and conversion operations on sequences move exactly the elements
the range names, for every valid range of every shape up to the bound."""
from engine.interp import *
from . import prims
from .seqs import *


def ranges(n):
    """Argument suffixes (start end) and the range they denote, for a sequence of n elements."""
    out = [((), 0, n)]
    out += [((s,), s, n) for s in range(n + 1)]
    out += [((s, e), s, e) for s in range(n + 1) for e in range(s, n + 1)]
    return out


def nums(xs):
    return [num(x) for x in xs]


def check(r, F):
    R = prims.registry(F)
    r.rule('copy, fill, append and the conversions between sequences and lists produce exactly the elements start <= i < end in order, in a new object; the mutating forms change exactly the named range of their target and nothing else')
    r.rule('copying a range onto an overlapping range of the same sequence behaves as if the source range were copied first')
    bound = 3
    K = kinds()
    chars, vec = K[0], K[1]
    u8 = next(x for x in K if x.name == 'u8vector')
    for kd in K:
        full = kd.name in ('string', 'vector', 'u8vector', 'f64vector')
        b = bound if full else 2
        nm = kd.name
        for n in range(b + 1):
            raw = kd.raw(0, n)
            for suf, s, e in ranges(n):
                lab = '%d elements range %s' % (n, ','.join(map(str, suf)) or 'default')
                mk = lambda k, n=n, suf=suf: [kd.obj(k, 0, n)] + nums(suf)
                judge(r, F, R, 'copy', nm + '-copy', lab, mk, expect_fresh(kd, raw[s:e]))
                judge(r, F, R, 'to-list', nm + '->list', lab, mk, expect_list(raw[s:e]))
                if nm in ('string', 'vector'):
                    x = kd.new('fill')
                    judge(r, F, R, 'fill', nm + '-fill!', lab, lambda k, n=n, suf=suf: [kd.obj(k, 0, n), kd.arg(k, 'fill')] + nums(suf),
                          expect_effect(kd, 0, raw[:s] + [x] * (e - s) + raw[e:], raw))
                if nm == 'vector':
                    judge(r, F, R, 'convert', 'vector->string', lab, mk, expect_fresh(chars, raw[s:e]))
                if nm == 'string':
                    judge(r, F, R, 'convert', 'string->vector', lab, mk, expect_fresh(vec, raw[s:e]))
                    judge(r, F, R, 'convert', 'string->u8vector', lab, mk, expect_fresh(u8, [('utf8', x) for x in raw[s:e]]))
            judge(r, F, R, 'from-list', 'list->' + nm, 'of %d' % n, lambda k, n=n: [k.list('l', [kd.arg(k, str(j)) for j in range(n)])], expect_fresh(kd, [kd.new(str(j)) for j in range(n)]))
            judge(r, F, R, 'construct', nm, '%d arguments' % n, lambda k, n=n: [kd.arg(k, str(j)) for j in range(n)], expect_fresh(kd, [kd.new(str(j)) for j in range(n)]))
            judge(r, F, R, 'construct', 'make-' + nm, 'size %d' % n, lambda k, n=n: [num(n), kd.arg(k, 'x')], expect_fresh(kd, [kd.new('x')] * n))
        # copies between different objects
        for n in range(b + 1):
            for m in range(b + 1):
                src, dst = kd.raw(1, m), kd.raw(0, n)
                for suf, s, e in ranges(m):
                    for at in range(n + 1):
                        if at + (e - s) > n:
                            continue
                        want = dst[:at] + src[s:e] + dst[at + (e - s):]
                        lab = 'to %d elements at %d from %d elements range %s' % (n, at, m, ','.join(map(str, suf)) or 'default')
                        judge(r, F, R, 'copy!', nm + '-copy!', lab, lambda k, n=n, m=m, at=at, suf=suf: [kd.obj(k, 0, n), num(at), kd.obj(k, 1, m)] + nums(suf), expect_effect(kd, 0, want, dst))
        # copies within one object
        n = 4 if full else 3
        raw = kd.raw(0, n)
        for suf, s, e in ranges(n):
            for at in range(n + 1):
                if at + (e - s) > n or len(suf) != 2:
                    continue
                want = raw[:at] + raw[s:e] + raw[at + (e - s):]

                def mk(k, n=n, at=at, suf=suf):
                    o = kd.obj(k, 0, n)
                    return [o, num(at), o] + nums(suf)
                judge(r, F, R, 'overlap', nm + '-copy!', 'within %d elements at %d range %s' % (n, at, ','.join(map(str, suf))), mk, expect_effect(kd, 0, want, raw))
        for lens in [()] + [(a,) for a in range(3)] + [(a, c) for a in range(3) for c in range(3)] + [(1, 2, 1), (0, 1, 2), (2, 0, 1)]:
            want = [x for i, m in enumerate(lens) for x in kd.raw(i, m)]
            judge(r, F, R, 'append', nm + '-append', 'of lengths %s' % (','.join(map(str, lens)) or 'none'), lambda k, lens=lens: [kd.obj(k, i, m) for i, m in enumerate(lens)], expect_fresh(kd, want))
    r.need_count('copy', 60)
    r.need_count('copy!', 300)
    r.analysed['sequence kinds'] = 12
    r.assume('sequences longer than the explored shapes go through the same iterator arithmetic')
