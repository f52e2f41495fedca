"""C22: promises."""
from . import control, schemes


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, control.items(control.promises))
    for fam, n in (('promises', 18), ('chains', 1000), ('re-entrant', 30)):
        r.need_count(fam, n)
