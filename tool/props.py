"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(V, 'tool', 'props_table.py')).read())

TRUST = 'Trusted: clang 18 front end, /verif/tool/facts.cpp, /verif/engine (abstract interpreter), the specification tables in the check.'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'],
                                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                                            'observe_at': list(p['observe']), 'hook_needed': None}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -m engine.facts',
         'checks': [], 'not_applicable': [],
         'notes': 'All checks are static: they parse the current working tree of /repo (C++ with clang 18 libTooling, Scheme with engine/scheme.py) and decide from the resolved program; nothing of meevax is built or run by a check. No hooks are needed in /repo.'}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 -m checks.run ' + p['id'],
                                'thorough_cmd': 'python3 -m checks.run ' + p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'],
                                'technique': p['technique'], 'level': 'other', 'level_note': p['note'] + ' ' + TRUST})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')

    exec(open(os.path.join(V, 'tool', 'design_props.py')).read(), globals())
    t = open(os.path.join(V, 'tool', 'design_template.md')).read()
    out = []
    for p in P:
        if not p['na']:
            out.append('### %s %s\n\n%s\n\n*Rule.* %s\n\n*Why not tests.* %s\n\n*Technique.* %s. %s\n' % (p['id'], p['title'], p['statement'], D[p['id']], p['why'], p['technique'], p['note']))
    na = ['* **%s %s.** %s' % (p['id'], p['title'], p['na']) for p in P if p['na']]
    seeds = []
    for sd in ('seeded', 'planted_more', 'planted_scheme'):     # the second: changes of library/*.ss
        sd = os.path.join(V, sd)
        for i in sorted(os.listdir(sd)):
            m = json.load(open(os.path.join(sd, i, 'meta.json')))
            seeds.append('| %s | %s | %s |' % (i, m.get('caught', m['property']), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
    t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', '\n'.join(na)).replace('@@SEEDS@@', '| change | caught by | breaks |\n|---|---|---|\n' + '\n'.join(seeds))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)


main()
