"""C29: import sets, export specs, library declarations and cond-expand select
exactly the bindings and the clauses the report says."""
import itertools
from engine.interp import *
from .names import *
from .common import where

IMPORT_SET, COND, ENV, LIB = 'meevax::import_set', 'meevax::conditional_expand', 'meevax::environment', 'meevax::library'


def only(F, q, n=None):
    fs = fn_of(F, q, lambda f: n is None or len(f['params']) == n)
    return fs[0] if len(fs) == 1 else None


# ---------------------------------------------------------------- cond-expand
def holds(req, feats, libs):
    if isinstance(req, str):
        return req == 'else' or req in feats
    op = req[0]
    if op == 'library':
        return req[1] in libs
    if op == 'and':
        return all(holds(x, feats, libs) for x in req[1:])
    if op == 'or':
        return any(holds(x, feats, libs) for x in req[1:])
    if op == 'not':
        return not holds(req[1], feats, libs)
    raise KeyError(op)


FEATS, LIBS = ('f1', 'yes', 'f2'), (('a', 'b'), ('srfi', 1))
ATOMS = ['yes', 'no', ('library', ('srfi', 1)), ('library', ('srfi', 2))]


def requirements():
    one = list(ATOMS)
    for op in ('and', 'or'):
        one.append((op,))
        one += [(op, x) for x in ATOMS]
        one += [(op, x, y) for x in ATOMS[:3] for y in ATOMS[:3]]
        one += [(op,) + t for t in itertools.product(('yes', 'no'), repeat=3)]
    one += [('not', x) for x in ATOMS]
    small = ['yes', 'no', ('and', 'yes', 'no'), ('or', 'no', 'yes'), ('not', 'yes'), ('not', 'no'), ('and',), ('or',)]
    two = [(op, x, y) for op in ('and', 'or') for x in small[2:] for y in small[:4]]
    two += [(op, y, x) for op in ('and', 'or') for x in small[2:] for y in small[:2]]
    two += [('not', x) for x in small[2:]] + [('not', ('not', ('not', 'yes'))), ('not', ('library', ('srfi', 1)))]
    return one + two


def clause_sets():
    for r in requirements():
        yield ((r, 'x1', 'x2'), ('else', 'z'))
        yield ((r, 'x1'),)
    pick = ['yes', 'no', 'else', ('not', 'yes'), ('library', ('srfi', 2))]
    for n in (2, 3):
        for t in itertools.product(pick, repeat=n):
            if 'else' in t[:-1]:
                continue
            yield tuple((q, 'x%d' % i, 'y%d' % i) for i, q in enumerate(t))
    yield ()
    yield (('yes',), ('else', 'z'))
    yield (('no', 'a'), ('yes',), ('else', 'z'))


def cond_expand(r, F):
    fn = only(F, COND)
    if not fn:
        return
    for cs in clause_sets():
        label = 'cond-expand ' + ' '.join(render(c) for c in cs)

        def go(k):
            k.features = k.datum(FEATS)
            k.set_libraries([(render(x), ('v', 'L%d' % i)) for i, x in enumerate(LIBS)])
            a = LV(('arg', 'c'))
            k.store[a.key] = k.datum(cs)
            return k.show(k.call_fn(fn, None, [a]))
        want = next((c[1:] for c in cs if holds(c[0], FEATS, LIBS)), ())
        judge(r, 'cond-expand', label, fn, F, go, render(want), 'the selected clause is')


def render(x):
    if isinstance(x, tuple):
        return '(%s)' % ' '.join(render(y) for y in x)
    return str(x)


def judge(r, family, label, fn, F, go, want, what, cls=None):
    k, outs = explore(F, go, cls or Modules)
    if any(o.kind == 'stop' for o in outs):
        o = next(o for o in outs if o.kind == 'stop')
        r.skip(family, label, where(fn), str(o.why)[:160])
        return
    if not outs:
        r.skip(family, label, where(fn), 'no path')
        return
    for o in outs:
        got = o.value if o.kind == 'return' else 'an exception'
        if o.oob:
            r.bad(family, label, where(fn, o.oob[0][1]) if isinstance(o.oob[0][1], dict) else where(fn), '%s: reads %s' % (label, o.oob[0][0]))
            return
        if got != want:
            r.bad(family, label, where(fn), '%s: %s %s; specified is %s%s' % (label, what, got, want, conds(o)))
            return
    r.ok(family, label, where(fn))


def conds(o):
    return ' (on the path where %s)' % '; '.join('%s is %s' % (show(c[0])[:80], c[1]) for c in o.conds[:3]) if o.conds else ''


# ---------------------------------------------------------------- libraries
def val(s):
    return ('v', 'value-of-' + s)


class Modules(Names):
    """Evaluating a command or definition is recorded, not performed."""
    def setup(self):
        super().setup()
        self.trace = []
        self.files = {}

    def call_hook(self, n, q, fn, obj, args, ev):
        if q in ('meevax::syntactic_environment::compile', 'meevax::dynamic_environment::execute') and args:
            v = self.rv(ev(0))
            if q.endswith('compile'):
                return ('compiled', self.env_key(obj), v)
            if isinstance(v, tuple) and v and v[0] == 'compiled':
                self.trace.append(('evaluate', self.place(v[1]), self.show(v[2])))
                self.define_effect(v)
                return ('v', 'unspecified')
        if q == 'meevax::include' and 'input_file_port' not in str(args[0].get('t')) and self.rv(ev(1) if len(args) > 1 else NULL) == NULL:
            fold = any('case_insensitive' in str(t) for t in n.get('ta') or ())
            names = self.rv(ev(0))
            out = []
            while names != NULL:
                f = self.car_(names)
                if f not in self.files:
                    raise Stop('file %s' % (f,))
                out += [Raw(self.datum(x)) for x in self.files[f]]
                self.trace.append(('include-ci' if fold else 'include', self.show(f)))
                names = self.cdr_(names)
            return self.datum(out)
        if q == 'meevax::interaction_environment':
            return LV(('interaction',))
        return super().call_hook(n, q, fn, obj, args, ev)

    def obj_eq(self, a, b, ne):
        x, y = self.rv(a), self.rv(b)
        if all(isinstance(z, tuple) and z and z[0] == 'v' and str(z[1]).startswith('value-of-') for z in (x, y)):
            return I(int((x == y) != bool(ne)))     # the values are distinct objects
        return super().obj_eq(a, b, ne)

    def env_key(self, obj):
        return obj.key if isinstance(obj, LV) else obj

    def place(self, key):
        return self.places.get(key, key)

    def define_effect(self, v):
        """(define x ...) binds x in the environment it is evaluated in."""
        form = v[2]
        if self.dyntype(form) == 'pair' and self.show(self.car_(form)) == 'define':
            name = self.show(self.car_(self.cdr_(form)))
            key = (self.cell(v[1], 'cdr') or LV(('cdr', v[1]))).key
            self.store[key] = self.new_pair(self.identity(name, val(name)), self.copy_value(self.load(LV(key))))

    def bind(self, name, lib):
        self.places[('mem', ('as', 'library', lib), 'evaluator')] = name

    places = {}


def model(form, libs):
    """The import set a form denotes: {name: value}."""
    if form[0] in ('only', 'except', 'prefix', 'rename') and len(form) > 1 and isinstance(form[1], tuple):
        s = model(form[1], libs)
        if form[0] == 'only':
            return {x: s[x] for x in form[2:]}
        if form[0] == 'except':
            return {x: s[x] for x in s if x not in form[2:]}
        if form[0] == 'prefix':
            return {form[2] + x: s[x] for x in s}
        m = dict(form[2:])
        return {m.get(x, x): s[x] for x in s}
    return dict(libs[form])


def modifiers(names):
    names = sorted(names)
    a, b = names[0], names[min(1, len(names) - 1)]
    out = [('only', a), ('only', *names), ('only',), ('except', a), ('except',), ('prefix', 'p-'), ('rename', (a, 'q')), ('rename',)]
    if a != b:
        out += [('only', b), ('only', b, a), ('except', b, a), ('rename', (a, b), (b, a)), ('rename', (a, 'x'), (b, 'y')), ('rename', (b, 'q'))]
    return out


def import_forms():
    base = ('m', 1)
    libs = {base: {'a': val('a'), 'b': val('b'), 'cc': val('cc')}, ('m',): {'a': val('other-a')}}
    lv = [base]
    out = [base, ('m',)]
    for depth in range(3):
        nxt = []
        for f in lv:
            s = model(f, libs)
            if not s:
                continue
            for i, m in enumerate(modifiers(s)):
                g = (m[0], f) + m[1:]
                if len(model(g, libs)) < len(s) and m[0] == 'rename':
                    continue    # two bindings of one name
                if depth == 2 and (len(out) + i) % 3:
                    continue
                nxt.append(g)
        out += nxt
        lv = nxt
    return libs, out


def setup_libs(k, libs):
    k.places = {}
    es = []
    for name, s in libs.items():
        l = k.library(render(name), sorted(s), sorted(s.items()) + [('hidden', val('hidden'))])
        es.append((render(name), l))
        k.bind(render(name), l)
    k.set_libraries(es)


def pairs_of(d):
    return sorted((x, v[1]) for x, v in d.items())


def import_sets(r, F):
    fn = only(F, IMPORT_SET)
    if not fn:
        return
    libs, forms = import_forms()
    for form in forms:
        def go(k):
            setup_libs(k, libs)
            a = LV(('arg', 'form'))
            k.store[a.key] = k.datum(form)
            return sorted((x, v[1]) for x, v in k.identities(k.call_fn(fn, None, [a])))
        judge(r, 'import set', render(form), fn, F, go, pairs_of(model(form, libs)), 'denotes the bindings')


# ---------------------------------------------------------------- exports
DEFS = {x: ('begin', ('define', x, 0)) for x in 'abc'}


def declaration_cases():
    B = lambda *xs: ('begin',) + tuple(('define', x, 0) for x in xs)
    yield 'exports before definitions', (('export', 'a', 'b'), B('a', 'b')), {'a': 'a', 'b': 'b'}
    yield 'exports after definitions', (B('a', 'b'), ('export', 'b', 'a')), {'a': 'a', 'b': 'b'}
    yield 'only exported names', (('export', 'b'), B('a', 'b', 'c')), {'b': 'b'}
    yield 'no exports', (B('a'),), {}
    yield 'rename', (('export', ('rename', 'a', 'x')), B('a')), {'x': 'a'}
    yield 'rename and plain', (('export', 'b', ('rename', 'a', 'x'), 'a'), B('a', 'b')), {'x': 'a', 'a': 'a', 'b': 'b'}
    yield 'swapping renames', (('export', ('rename', 'a', 'b'), ('rename', 'b', 'a')), B('a', 'b')), {'a': 'b', 'b': 'a'}
    yield 'two export declarations', (('export', 'a'), ('export', 'b', 'c'), B('a', 'b', 'c')), {x: x for x in 'abc'}
    yield 'three export declarations', (('export', 'a'), B('a', 'b'), ('export', 'b'), B('c'), ('export', ('rename', 'c', 'd'))), {'a': 'a', 'b': 'b', 'd': 'c'}
    yield 'empty export', (('export',), ('export', 'a'), B('a')), {'a': 'a'}
    yield 'several begins', (('export', 'a', 'b', 'c'), B('a'), B('b'), B(), B('c')), {x: x for x in 'abc'}
    yield 're-exported import', (('import', ('m', 1)), ('export', 'a', 'cc')), {'a': 'a', 'cc': 'cc'}
    yield 're-exported renamed import', (('import', ('prefix', ('m', 1), 'p-')), ('export', ('rename', 'p-a', 'q'))), {'q': 'a'}
    yield 'import of two sets', (('import', ('only', ('m', 1), 'a'), ('rename', ('m',), ('a', 'z'))), ('export', 'a', 'z')), {'a': 'a', 'z': 'other-a'}
    yield 'cond-expand chooses', (('export', 'a'), ('cond-expand', ('no', B('b')), ('yes', B('a'), ('export', 'c'), B('c')), ('else', B('b')))), {'a': 'a', 'c': 'c'}
    yield 'cond-expand falls to else', (('export', 'a'), ('cond-expand', ('no', B('b')), ('else', B('a')))), {'a': 'a'}
    yield 'cond-expand selects nothing', (('export', 'a'), ('cond-expand', ('no', B('b'))), B('a')), {'a': 'a'}
    yield 'nested cond-expand', (('cond-expand', ('yes', ('cond-expand', ('no', ('export', 'b')), ('else', ('export', 'a'))))), B('a', 'b')), {'a': 'a'}
    yield 'included declarations', (('include-library-declarations', 'file1'), B('b')), {'b': 'b', 'a': 'a'}
    yield 'included definitions', (('export', 'a', 'c'), ('include', 'file2', 'file3')), {'a': 'a', 'c': 'c'}
    yield 'included folded definitions', (('export', 'a', 'c'), ('include-ci', 'file3', 'file2')), {'a': 'a', 'c': 'c'}


FILES = {'file1': (('export', 'b', 'a'), ('begin', ('define', 'a', 0))), 'file2': (('define', 'a', 0),), 'file3': (('define', 'c', 0), ('g', 'x'))}


def flatten(decl, out):
    """The commands a declaration evaluates, in order."""
    op = decl[0]
    if op == 'begin':
        out += [('evaluate', render(x)) for x in decl[1:]]
    elif op == 'cond-expand':
        for d in next((c[1:] for c in decl[1:] if holds(c[0], FEATS, LIBS)), ()):
            flatten(d, out)
    elif op in ('include', 'include-ci'):
        for f in decl[1:]:
            out.append((op, f))
        for f in decl[1:]:
            out += [('evaluate', render(x)) for x in FILES[f]]
    elif op == 'include-library-declarations':
        for f in decl[1:]:
            out.append(('include', f))
            for d in FILES[f]:
                flatten(d, out)
    return out


def exports(r, F):
    fn = only(F, LIB + '::import_set')
    if not fn:
        return
    libs, _ = import_forms()
    for name, decls, want in declaration_cases():
        for again in (False, True):
            def go(k):
                setup_libs(k, libs)
                k.features = k.datum(FEATS)
                k.files = {k.sym(f): FILES[f] for f in FILES}
                l = k.library('new', (), (), decls)
                k.bind('new', l)
                k.store[('mem', ('as', 'library', l), 'export_specs')] = NULL
                this = LV(('as', 'library', l))
                v = k.call_fn(fn, this, [])
                if again:
                    v = k.call_fn(fn, this, [])
                got = sorted((x, y[1]) for x, y in k.identities(v))
                return got, [(t[0], t[-1]) for t in k.trace], sorted({str(t[1]) for t in k.trace if t[0] == 'evaluate'} - {'new'})
            trace = []
            for d in decls:
                flatten(d, trace)
            w = (sorted((x, 'value-of-' + y) for x, y in want.items()), trace, [])
            judge(r, 'export', name + (', imported twice' if again else ''), fn, F, go, w, '(bindings, commands evaluated, other environments used) are')


# ---------------------------------------------------------------- import into an environment
def imports(r, F):
    fn = only(F, ENV + '::import', 1)
    if not fn:
        return
    libs = {('m', 1): {'a': val('a'), 'b': val('b')}, ('m',): {'a': val('other-a'), 'd': val('d')}, ('n',): {'a': val('a'), 'e': val('e')}}
    cases = [('into an empty environment', [('m', 1)], (), False), ('beside other bindings', [('m', 1)], ('x',), False),
             ('two libraries', [('m', 1), ('only', ('m',), 'd')], ('x',), False),
             ('the same library twice', [('m', 1), ('m', 1)], (), False),
             ('the same binding from two libraries', [('m', 1), ('n',)], (), False),
             ('the same binding renamed twice', [('prefix', ('m', 1), 'p'), ('prefix', ('m', 1), 'p')], (), False),
             ('different bindings of one name', [('m', 1), ('m',)], (), False),
             ('different bindings of one name, reversed', [('m',), ('m', 1)], (), False),
             ('a renamed clash', [('m', 1), ('rename', ('m',), ('d', 'b'))], (), False),
             ('an avoided clash', [('m', 1), ('prefix', ('m',), 'p-')], (), False),
             ('a nothing', [('only', ('m', 1))], ('x',), False),
             ('different bindings of one name at the prompt', [('m', 1), ('m',)], (), True),
             ('at the prompt', [('m', 1), ('n',)], ('x',), True)]
    for name, forms, before, prompt in cases:
        def go(k):
            setup_libs(k, libs)
            k.obj('envobj', 'environment')
            key = ('as', 'environment', ('v', 'envobj'))
            other = k.obj('promptobj', 'environment')
            k.store[('interaction',)] = ('v', 'envobj') if prompt else other
            for e in (('v', 'envobj'), other):
                k.store[('car', e)] = NULL
                k.store[('cdr', e)] = k.datum([Raw(k.identity(x, val('old-' + x))) for x in before])
            for f in forms:
                a = LV(('arg', 'form'))
                k.store[a.key] = k.datum(f)
                try:
                    k.call_fn(fn, LV(key), [a])
                except Throw:
                    return 'error'
            seen = {}
            for x, v in k.identities(k.load(LV(('cdr', ('v', 'envobj'))))):
                seen.setdefault(x, v[1])
            return sorted(seen.items())
        want = {x: 'value-of-old-' + x for x in before}
        for f in forms:
            for x, v in model(f, libs).items():
                if not prompt and x in want and want[x] != v[1]:
                    want = None
                    break
                want[x] = v[1]
            if want is None:
                break
        judge(r, 'import', name, fn, F, go, 'error' if want is None else sorted(want.items()), 'the environment binds')


def top_level(r, F):
    fn = only(F, ENV + '::evaluate', 1)
    if not fn:
        return
    libs = {('m', 1): {'a': val('a'), 'b': val('b')}, ('n',): {'e': val('e')}}
    D = ('define', 'x', 0)
    cases = [('an expression', ('f', 'x'), ({}, [('evaluate', '(f x)')])),
             ('a variable', 'x', ({}, [('evaluate', 'x')])),
             ('a number', 3, ({}, [('evaluate', '3')])),
             ('a combination', (('f', 'x'), 'y'), ({}, [('evaluate', '((f x) y)')])),
             ('import', ('import', ('m', 1)), ({'a': 'a', 'b': 'b'}, [])),
             ('import of two', ('import', ('only', ('m', 1), 'b'), ('prefix', ('n',), 'p')), ({'b': 'b', 'pe': 'e'}, [])),
             ('import of nothing', ('import',), ({}, [])),
             ('include', ('include', 'file2', 'file3'), ({'a': 'a', 'c': 'c'}, [('include', 'file2'), ('include', 'file3'), ('evaluate', '(define a 0)'), ('evaluate', '(define c 0)'), ('evaluate', '(g x)')])),
             ('include-ci', ('include-ci', 'file2'), ({'a': 'a'}, [('include-ci', 'file2'), ('evaluate', '(define a 0)')])),
             ('included import', ('include', 'file4'), ({'e': 'e', 'a': 'a'}, [('include', 'file4'), ('evaluate', '(define a 0)')])),
             ('a new library', ('define-library', ('new', 2), ('export', 'a'), ('begin', D)), ({}, []))]
    for name, form, (binds, trace) in cases:
        def go(k):
            setup_libs(k, libs)
            k.files = {k.sym(f): x for f, x in dict(FILES, file4=(('import', ('n',)), ('define', 'a', 0))).items()}
            e = k.obj('envobj', 'environment')
            k.store[('interaction',)] = e
            k.store[('car', e)] = k.store[('cdr', e)] = NULL
            a = LV(('arg', 'form'))
            k.store[a.key] = k.datum(form)
            k.call_fn(fn, LV(('as', 'environment', e)), [a])
            got = sorted((x, v[1]) for x, v in k.identities(k.load(LV(('cdr', e)))))
            ls = []
            for i in k.store[('libraries',)][1]:
                ent = ('mem', ('entry', ('libraries',), i), 'first')
                l = k.load(LV(('mem', ('entry', ('libraries',), i), 'second')))
                ls.append((k.store[ent][1], k.show(k.load(LV(('mem', ('as', 'library', l), 'declarations'))))))
            return got, [(t[0], t[-1]) for t in k.trace], sorted(ls)
        ls = [(render(x), '()') for x in libs]
        if name == 'a new library':
            ls.append(('(new 2)', render(form[2:])))
        judge(r, 'top level', name, fn, F, go, (sorted((x, 'value-of-' + y) for x, y in binds.items()), trace, sorted(ls)), '(bindings, commands, libraries) are')


def check(r, F):
    r.rule('The functions that process import sets, library declarations, top-level forms and cond-expand are interpreted on every form of the enumerated grammar, over symbols and libraries that are known only by their names, with the values bound left opaque; the bindings, the clause or the commands they yield must be the ones the report defines.')
    r.assume('identifiers that an only, except or rename form names are in its import set, and no import set gives one name two bindings')
    cond_expand(r, F)
    import_sets(r, F)
    exports(r, F)
    imports(r, F)
    top_level(r, F)
    for f, n in (('cond-expand', 250), ('import set', 250), ('export', 40), ('import', 13), ('top level', 11)):
        r.need_count(f, n)
