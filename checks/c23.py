"""C23: records."""
from . import control, schemes


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, control.items(control.records))
    for fam, n in (('records', 40),):
        r.need_count(fam, n)
