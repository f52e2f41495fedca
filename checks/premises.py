"""What a property about procedures or forms that Scheme code defines takes for
granted of the C++ code below: the obligations of another check that concern
exactly the instructions, core forms and primitives the property relies on are
decided again and reported under the property itself."""
import importlib
import re

from engine.facts import AnalysisError


class Forward:
    """A report that passes on the obligations it selects."""

    def __init__(self, r, name, select):
        self.r = r
        self.name = name
        self.select = select
        self.obligations = []
        self.counts = {}
        self.undecided = []
        self.analysed = {}

    def fam(self, kind):
        return 'premise %s' % kind

    def rule(self, text):
        pass

    assume = rule

    def ok(self, kind, instance, where=''):
        self.obligations.append(kind)
        if self.select(kind, str(instance)):
            self.r.ok(self.fam(kind), instance, where)

    def bad(self, kind, instance, where, text):
        self.obligations.append(kind)
        if self.select(kind, str(instance)):
            self.r.bad(self.fam(kind), instance, where, text)

    def skip(self, kind, instance, where='', why=''):
        if self.select(kind, str(instance)):
            self.r.skip(self.fam(kind), instance, where, why)

    def check(self, cond, kind, instance, where, text):
        (self.ok(kind, instance, where) if cond else self.bad(kind, instance, where, text))
        return cond

    def need(self, cond, text):
        if not cond:
            raise AnalysisError(text)

    def need_count(self, kind, n):
        pass


def names(*rx):
    rx = re.compile('(%s)(/|$| )' % '|'.join(rx))
    return lambda k, i: bool(rx.match(i))


def kinds(*ks):
    return lambda k, i: k in ks


def both(p, q):
    return lambda k, i: p(k, i) and q(k, i)


FORMS = names('atom', 'call', 'if', 'begin', 'lambda', 'set!', 'quote')
SELECT = names('secd_load_.*', 'secd_select', 'secd_tail_select', 'secd_join', 'secd_call/closure', 'secd_tail_call/closure', 'secd_call/procedure', 'secd_tail_call/procedure', 'secd_return', 'secd_cons', 'secd_drop', 'secd_store_.*')
CONT = names('secd_load_continuation', 'secd_call/continuation', 'secd_tail_call/continuation', 'secd_call/closure', 'secd_tail_call/closure', 'secd_return', 'secd_current', 'secd_install', 'apply')
REG = names('secd_current', 'secd_install', 'apply')
ACCESS = r'c[ad]{1,4}r|cons|list|append|reverse|length|null\?|pair\?|list-tail|set-c[ad]r!'

PREMISES = {
    'C16': [('c01', SELECT), ('c02', FORMS), ('c08', kinds('eqv?')), ('c09', names('memv', 'memq'))],
    'C17': [('c01', names('apply', 'secd_letrec', 'secd_tail_letrec', 'secd_dummy', 'secd_call/closure', 'secd_tail_call/closure', 'secd_load_.*', 'secd_store_.*')), ('c02', names('lambda', 'letrec', 'define', 'set!', 'atom', 'call', 'begin')),
            ('c09', names(ACCESS)), ('c12', lambda k, i: k == 'convert' and 'vector' in i), ('c30', kinds('letrec', 'internal definitions', 'variables'))],
    'C18': [('c02', kinds('transformer')), ('c09', names(ACCESS, 'assq', 'memq', 'list-copy')), ('c30', kinds('global macros', 'local macros', 'internal macros', 'hidden macros', 'nested uses', 'macros that define', 'late definitions'))],
    'C19': [('c01', CONT), ('c02', names('call/cc', 'current', 'install', 'begin')), ('c09', names('cons', 'c[ad]{1,2}r', 'pair\\?', 'null\\?')), ('c30', kinds('continuations'))],
    'C20': [('c01', REG), ('c02', names('current', 'install')), ('c09', names('assq', 'cons', 'c[ad]{1,2}r', 'append', 'null\\?', 'pair\\?'))],
    'C21': [('c32', lambda k, i: True), ('c01', CONT), ('c02', names('call/cc', 'current', 'install'))],
    'C22': [('c09', names('cons', 'c[ad]r', 'set-c[ad]r!')), ('c08', lambda k, i: k == 'type predicates' and i.startswith('(box?'))],
    'C23': [('c09', names(ACCESS)), ('c11', lambda k, i: 'vector' in i and not re.search(r'[usf]\d+vector', i))],
    'C24': [('c12', kinds('convert')), ('c01', names('apply')), ('c08', kinds('eqv?', 'equal?')), ('c09', names(ACCESS)), ('c11', kinds('ref', 'length'))],
    'C25': [('c08', kinds('eqv?', 'eq?')), ('c09', lambda k, i: True)],
    'C26': [('c31', lambda k, i: True), ('c09', names('cons', 'c[ad]{1,2}r', 'null\\?', 'pair\\?')), ('c08', kinds('eq?'))],
    'C28': [('c02', kinds('transformer')), ('c09', names('assq', 'cons', 'c[ad]{1,2}r')), ('c30', kinds('global macros', 'local macros', 'internal macros', 'nested uses', 'closed forms', 'late definitions'))],
}


def run(prop, r, F):
    for module, select in PREMISES.get(prop, ()):
        m = importlib.import_module('checks.' + module)
        fwd = Forward(r, module, select)
        n = len(r.obligations) + len(r.undecided)
        try:
            if module == 'c30':
                m.run(fwd, F, [i for i in m.items() if select(i.family, '')])
            else:
                m.check(fwd, F)
        except AnalysisError as e:
            r.skip('premise', module, '', str(e)[:300])
            continue
        if len(r.obligations) + len(r.undecided) == n:
            r.skip('premise', module, '', 'no obligation selected')
    if prop in PREMISES:
        r.rule('premises: the instructions, core forms and primitives the property relies on behave as specified')
