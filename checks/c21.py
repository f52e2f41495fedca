"""C21: exceptions."""
from . import control, schemes


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, control.items(control.exceptions))
    for fam, n in (('guard', 150), ('handlers', 15), ('errors', 20)):
        r.need_count(fam, n)
