"""C20: parameter objects."""
from . import control, schemes


def check(r, F):
    schemes.common_rules(r)
    schemes.run(r, F, control.items(control.params))
    for fam, n in (('parameters', 25), ('bindings', 100)):
        r.need_count(fam, n)
