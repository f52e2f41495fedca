"""Development helper: python3 tool/plant.py SPEC.py   writes seeded/<id>/ from a spec
 (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO=scheme text or DEMO_SH)."""
import json, os, subprocess, sys, shutil, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Runs demo.ss with the built interpreter; the script prints "demo: ok" when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
export LD_LIBRARY_PATH="$PWD/_build/lib"
out=$(timeout 120 "$PWD/_build/bin/meevax" "$here/demo.ss" 2>&1 </dev/null)
echo "$out" | tail -5
case "$out" in *"demo: ok"*) exit 0;; *) exit 1;; esac
'''


def plant(ns):
    W = '/tmp/plantwt'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    os.makedirs(W)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (W, W), shell=True, check=True)
    for f, a, b in ns['EDITS']:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(a) == 1, (ns['ID'], f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    d = os.path.join(V, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if 'DEMO_SH' in ns:
        open(os.path.join(d, 'demo.sh'), 'w').write(ns['DEMO_SH'])
        for n, k in (('demo.ss', 'DEMO'), ('demo.cpp', 'CPP')):
            if ns.get(k):
                open(os.path.join(d, n), 'w').write(ns[k])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        open(os.path.join(d, 'demo.ss'), 'w').write(ns['DEMO'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(W)


for spec in sys.argv[1:]:
    for part in open(spec).read().split('\n#----\n'):
        ns = {}
        exec(part, ns)
        plant(ns)
        print('planted', ns['ID'])
