"""C11: element access reads or writes exactly the indexed element; an index
outside the sequence raises an error and touches nothing."""
from engine.interp import *
from . import prims
from .seqs import *


def check(r, F):
    R = prims.registry(F)
    r.rule('ref returns exactly element i and set! replaces exactly element i for every 0 <= i < length; every other index raises an error before any element is read or written')
    r.rule('length is the number of elements')
    bound = 4
    for kd in kinds():
        for n in range(bound):
            judge(r, F, R, 'length', kd.name + '-length', 'of %d' % n, lambda k, n=n: [kd.obj(k, 0, n)], expect_value_num(n))
            for i in list(range(-1, n + 2)) + [2 ** 31 - 1, -2 ** 31]:
                lab = 'index %d of %d' % (i, n)
                ok = 0 <= i < n
                raw = kd.raw(0, n)
                judge(r, F, R, 'ref', kd.name + '-ref', lab, lambda k, n=n, i=i: [kd.obj(k, 0, n), num(i)], expect_value(raw[i]) if ok else expect_raise)
                want = raw[:i] + [kd.new('new')] + raw[i + 1:] if ok else None
                judge(r, F, R, 'set!', kd.name + '-set!', lab, lambda k, n=n, i=i: [kd.obj(k, 0, n), num(i), kd.arg(k, 'new')], expect_effect(kd, 0, want, raw) if ok else expect_raise)
    r.need_count('ref', 250)
    r.need_count('set!', 250)
    r.need_count('length', 40)
    r.analysed['sequence kinds'] = 12
    r.assume('the index is an exact integer representable in a machine word')


def expect_value_num(n):
    return expect_value(num(n))
