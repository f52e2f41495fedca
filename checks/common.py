"""Bookkeeping shared by all checks: obligations, findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine.facts import AnalysisError  # noqa: E402


class Report:
    """Obligations of one property.

    ok(...)      an instance of the rule that was analysed and holds
    bad(...)     an instance that is violated (a specific construct)
    need(...)    the analysis itself must have found something (else error exit)
    """

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obligations = []     # (kind, instance, where)
        self.violations = []      # (ident, text)
        self.notes = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.analysed = {}
        self.undecided = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, kind, instance, where=''):
        self.obligations.append((kind, instance, where, True))
        self.counts[kind] = self.counts.get(kind, 0) + 1

    def bad(self, kind, instance, where, text):
        """instance: stable identifier of the failing construct (no line numbers)."""
        self.obligations.append((kind, instance, where, False))
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.violations.append(('%s:%s' % (kind, instance), where, text))

    def skip(self, kind, instance, where='', why=''):
        """An instance the analysis could not decide (reported, never an alarm)."""
        self.undecided.append((kind, instance, where, why))

    def check(self, cond, kind, instance, where, text):
        if cond:
            self.ok(kind, instance, where)
        else:
            self.bad(kind, instance, where, text)
        return cond

    def need(self, cond, text):
        if not cond:
            raise AnalysisError(text)

    def need_count(self, kind, n):
        got = self.counts.get(kind, 0)
        got += sum(1 for u in self.undecided if u[0] == kind)
        if got < n:
            if not self.obligations:
                raise AnalysisError('rule "%s" matched %d instances, at least %d were confirmed by hand' % (kind, got, n))
            self.skip(kind, 'coverage', '', 'matched %d instances, at least %d were confirmed by hand' % (got, n))

    def assume(self, text):
        self.assumptions.append(text)


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # KNOWN property=<id> finding=<identifier> -- description
            if line.startswith('known: '):
                rest = line[len('known: '):]
                a, _, desc = rest.partition(' -- ')
                parts = a.split(' ', 1)
                prop = parts[0].split('=', 1)[1]
                ident = parts[1].split('=', 1)[1]
                out[(prop, ident)] = desc
    return out


def finish(r, level='other', quiet=False):
    known = known_findings()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    new, old = [], []
    for ident, where, text in r.violations:
        (old if (r.prop, ident) in known else new).append((ident, where, text))
    n = len(r.obligations)
    good = sum(1 for o in r.obligations if o[3])
    samples = []
    seen = set()
    for k, inst, where, okk in r.obligations:
        if k not in seen:
            seen.add(k)
            samples.append('%s: %s%s' % (k, inst, ' (%s)' % where if where else ''))
    expl = 'Static analysis of the resolved program; rules: ' + ' | '.join(r.rules)
    cov = {'explanation': expl, 'obligations': n, 'discharged': good,
           'instances_by_rule': dict(sorted(r.counts.items())), 'samples': samples[:40],
           'analysed': r.analysed, 'exhaustive': not r.undecided,
           'undecided': ['%s: %s (%s)' % (u[0], u[1], u[3]) for u in r.undecided[:40]]}
    ev = {'property': r.prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': r.assumptions, 'wall_s': round(time.time() - r.t0, 2), 'violations': len(new)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, r.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d instances analysed, %d hold; by rule: %s' % (r.prop, n, good, ', '.join('%s=%d' % kv for kv in sorted(r.counts.items()))))
    for k, v in sorted(r.analysed.items()):
        print('  analysed %s: %s' % (k, v))
    if r.undecided:
        print('  undecided: %d instances, e.g. %s' % (len(r.undecided), '; '.join('%s %s (%s)' % (u[0], u[1], u[3]) for u in r.undecided[:4])))
    for note in r.notes:
        print('  note: ' + note)
    for ident, where, text in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (r.prop, ident, where, text.split('\n')[0]))
    if new:
        path = os.path.join(d, 'violation-%s.txt' % r.prop)
        with open(path, 'w') as f:
            for ident, where, text in new:
                f.write('%s\n  at %s\n  %s\n\n' % (ident, where, text.replace('\n', '\n  ')))
        for ident, where, text in new[:20]:
            print('  %s\n    at %s\n    %s' % (ident, where, text.replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (r.prop, path))
        return 1
    return 0


def where(fn, node=None):
    if node is not None and isinstance(node, dict) and node.get('l'):
        return '%s:%d (%s)' % (fn['file'], node['l'], fn['q'])
    return '%s:%d (%s)' % (fn['file'], fn['l'], fn['q'])
