"""A small reader for specification terms written as s-expressions."""
import re
from .interp import NULL, I

TOK = re.compile(r'\s*(\(|\)|[^\s()]+)')


def read(text):
    toks = TOK.findall(text)
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            out = []
            while toks[pos] != ')':
                out.append(rd())
            pos += 1
            return out
        return t
    x = rd()
    assert pos == len(toks), text
    return x


def term(x, env, simplify):
    """Specification s-expression -> term."""
    if isinstance(x, str):
        x2 = x
        if x2 in env:
            return env[x2]
        if x2 == 'null':
            return NULL
        if re.fullmatch(r'-?\d+', x2):
            return I(int(x2))
        return ('v', x2)
    h = x[0]
    a = [term(y, env, simplify) for y in x[1:]]
    if h == 'cons':
        return ('cons', a[0], a[1])
    if h == 'cons*':
        r = a[-1]
        for y in reversed(a[:-1]):
            r = ('cons', y, r)
        return r
    if h == 'list':
        r = NULL
        for y in reversed(a):
            r = ('cons', y, r)
        return r
    m = re.fullmatch(r'c([ad]+)r', h)
    if m:
        r = a[0]
        for ch in reversed(m.group(1)):
            r = simplify(('car' if ch == 'a' else 'cdr', r))
        return r
    if h == 'tail':
        return simplify(('tail', a[0], a[1]))
    if h == 'int':
        return ('as', 'int', a[0])
    if h == 'make':
        return ('make', x[1]) + tuple(a[1:])
    return (h,) + tuple(a)


def parse(text, env, simplify):
    return term(read(text), env, simplify)
