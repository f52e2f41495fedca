"""python3 -m checks.run PROPERTY...: runs the checks of the given properties."""
import importlib
import os
import sys
import traceback

from . import common, premises


def main(argv):
    sys.setrecursionlimit(20000)
    status = 0
    from engine import facts
    F = None
    for prop in argv:
        mod = importlib.import_module('checks.' + prop.lower())
        r = common.Report(prop)
        try:
            if F is None and getattr(mod, 'NEEDS_FACTS', True):
                F = facts.load()
            mod.check(r, F)
            premises.run(prop, r, F)
            s = common.finish(r, getattr(mod, 'LEVEL', 'other'))
        except Exception as e:
            if not isinstance(e, facts.AnalysisError):
                traceback.print_exc()
            # What was decided stands even if the rest could not be analysed; nothing decided at all is no answer.
            if r.obligations:
                print('%s: analysis incomplete: %s' % (prop, e))
                r.skip('analysis', 'incomplete', '', str(e)[:300])
                s = common.finish(r, getattr(mod, 'LEVEL', 'other'))
            else:
                print('%s: ANALYSIS ERROR: %s' % (prop, e))
                s = 2
        status = max(status, s) if s != 1 else (status if status == 2 else 1)
    return status


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
