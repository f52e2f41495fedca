"""Decides programs over the Scheme libraries: every path of the implementation's
definitions against the reference semantics (engine/schemeref.py)."""
import multiprocessing
import os
import signal
import sys
import time

from engine import facts
from engine.scheme import *
from engine.schemelib import System, Unresolved
from engine.schemeref import Reference, Implementation, compare, explain
from . import prims
from .common import VERIF

sys.setrecursionlimit(20000)
IMP = '(scheme base) (scheme case-lambda) (scheme lazy) (scheme process-context) (srfi 8) (srfi 31)'
_state = {}


def setup(F):
    if 's' not in _state:
        s = System(facts.REPO, prims.bindings(F), prims.constants(F))
        _state['s'] = s
        _state['I'] = Implementation(s)
    return _state['s'], _state['I'], reference()


def reference(*extra):
    k = ('R',) + extra
    if k not in _state:
        _state[k] = Reference(*[os.path.join(VERIF, 'oracle', n + '.ss') for n in ('prelude',) + extra])
    return _state[k]


class Item:
    """One program template; lib/name say which definition it is about."""
    __slots__ = ('family', 'label', 'src', 'lib', 'name', 'opts', 'imports')

    def __init__(self, family, label, src, lib, name, imports=IMP, **opts):
        self.family, self.label, self.src, self.lib, self.name, self.imports, self.opts = family, label, src, lib, name, imports, opts


class _Late(Exception):
    pass


def _judge(i):
    it = _state['items'][i]
    if time.time() > _state['deadline']:
        return 'skip', 0, 'time budget of the check'

    def ring(*_):
        raise _Late()
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, it.opts.get('seconds', 20))
    try:
        o = {k: v for k, v in it.opts.items() if k not in ('seconds', 'oracle')}
        v = compare(_state['I'], reference(*it.opts.get('oracle', ())), it.src, it.imports, **o)
        if v.bad:
            return 'bad', v.paths, explain(v.bad)
        if v.limit:
            return 'skip', v.paths, v.limit
        return 'ok', v.paths, ''
    except _Late:
        return 'skip', 0, 'time bound'
    except AnalysisLimit as x:
        return 'skip', 0, str(x)
    except RecursionError:
        return 'skip', 0, 'recursion'
    except Unresolved as x:
        return 'skip', 0, 'import: %s' % x
    except Exception as x:  # a defect of the analyser is never an alarm
        return 'skip', 0, 'analyser: %s: %s' % (type(x).__name__, x)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run(r, F, items, jobs=8):
    s, I, R = setup(F)
    for imp in sorted({it.imports for it in items}):
        try:
            I.env(imp)
        except (Unresolved, AnalysisLimit):
            pass
        except (SchemeError, SyntaxErr, Stop) as x:
            r.bad('loading', imp, 'library', 'a library cannot be loaded: %s' % (x,))
            return
    for extra in {it.opts.get('oracle', ()) for it in items}:
        reference(*extra)
    _state['items'] = items
    _state['deadline'] = time.time() + _state.get('budget', 600)
    n = min(jobs, os.cpu_count() or 1)
    if n > 1 and len(items) > 8:
        with multiprocessing.get_context('fork').Pool(n) as p:
            res = p.map(_judge, range(len(items)), chunksize=max(1, len(items) // (n * 8)))
    else:
        res = [_judge(i) for i in range(len(items))]
    paths = 0
    for it, (what, k, text) in zip(items, res):
        paths += k
        where = s.where(it.lib, it.name)
        if what == 'ok':
            r.ok(it.family, it.label, where)
        elif what == 'bad':
            r.bad(it.family, it.label, where, '%s\n%s' % (' '.join(it.src.split()), text))
        else:
            r.skip(it.family, it.label, where, text)
    r.analysed['programs over the Scheme libraries'] = r.analysed.get('programs over the Scheme libraries', 0) + len(items)
    r.analysed['paths of those programs'] = r.analysed.get('paths of those programs', 0) + paths
    r.analysed['Scheme libraries loaded'] = len(s.loaded) if hasattr(s, 'loaded') else len(s.files) if hasattr(s, 'files') else 0


def common_rules(r):
    r.rule('the macros and procedures are the definitions in library/*.ss, evaluated over opaque operands: each path of the program must make the calls of opaque procedures, and end with the value or error, that the reference semantics gives under the same assumptions about opaque values')
    r.assume('primitives of the C++ kernel behave as modelled in engine/schemelib.py (decided separately by C01-C15); the expander is idealised as in R7RS')
