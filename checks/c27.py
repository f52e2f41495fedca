"""Every library provides the bindings it is specified to, and refers to nothing unbound."""
import os

from engine.scheme import *
from engine.schemelib import Unresolved
from . import schemes
from .common import VERIF

# Auxiliary syntax: matched as an identifier without binding in this implementation, as R7RS 4.3.2 allows to any
# program that does not import a different binding for it.
AUXILIARY = {'...', '=>', '_', 'else', 'unquote', 'unquote-splicing'}


def specified():
    out = {}
    for l in open(os.path.join(VERIF, 'oracle', 'exports.txt')):
        if l.strip():
            n, names = l.split('): ', 1)
            out[n + ')'] = names.split()
    return out


def check(r, F):
    r.rule('each library named in the report or in a SRFI exports each name of its specification, bound once its body has been loaded; each export, each imported name and each free identifier compiled in the body of a library is bound after loading')
    r.assume('the expander is idealised as in R7RS; identifiers in macro templates count where the library uses the macro')
    s, I, R = schemes.setup(F)
    loaded = {}
    for lib in sorted(s.decls):
        where = s.where(lib, '')
        try:
            loaded[lib] = {x.name: c for x, c in s.exports(lib).items()}
        except Unresolved as x:
            r.bad('loading', lib, where, str(x))
        except SyntaxErr as x:
            r.bad('loading', lib, where, 'syntax error: %s' % x)
        except SchemeError as x:
            r.bad('loading', lib, where, 'error while loading: %s' % show(canon(x.obj)))
        except Stop as x:
            r.bad('loading', lib, where, 'error while loading: %s' % show(x.outcome if isinstance(x.outcome, tuple) else canon(x.outcome)))
        except (AnalysisLimit, RecursionError) as x:
            r.skip('loading', lib, where, str(x))
        else:
            r.ok('loading', lib, where)
    for lib, names in specified().items():
        if lib not in s.decls:
            r.bad('specified', lib, 'library', 'no definition of this library')
            continue
        e = loaded.get(lib)
        if e is None:
            continue
        for n in names:
            if n in AUXILIARY:
                continue
            r.check(n in e and e[n].value is not UNDEF, 'specified', '%s of %s' % (n, lib), s.where(lib, n), 'not exported' if n not in e else 'exported without a value')
    for lib, e in loaded.items():
        for n, c in sorted(e.items()):
            r.check(c.value is not UNDEF, 'exports', '%s of %s' % (n, lib), s.where(lib, n), 'exported without a value')
    for lib, origin, n in s.problems:
        if n in AUXILIARY and origin == 'export':
            continue
        other = s.tables.get(lib, {}).get(S(n))
        if origin != 'export' and other is not None and other.value is not UNDEF:
            continue    # the library has it from elsewhere
        r.bad('imports', '%s of %s in %s' % (n, origin, lib), s.where(lib, ''), '%s provides no %s' % (origin, n) if origin != 'export' else 'exported name %s is not defined' % n)
    r.ok('imports', 'every other imported name', 'library')
    seen = {}
    for b, form in s.m.c.created:
        lib = s.at.get(id(b), '')
        line = getattr(form, 'line', 0) if form is not None else 0
        d = form.cdr.car if isinstance(form, Pair) and isinstance(form.cdr, Pair) else None
        d = d.car if isinstance(d, Pair) else d
        name = d.name if isinstance(d, Sym) else 'line %s' % line
        key = '%s in %s of %s' % (b.name, name, lib)
        before = seen.get(key, (True,))[0]
        seen[key] = before and b.value is not UNDEF, (s.files.get(lib, ('library', 0))[0], line)
    for key, (bound, (f, line)) in sorted(seen.items()):
        r.check(bound, 'references', key, '%s:%s' % (f, line), 'free identifier without a definition')
    r.analysed['libraries'] = len(loaded)
    r.need_count('loading', 40)
    r.need_count('specified', 900)
    r.need_count('exports', 1000)
