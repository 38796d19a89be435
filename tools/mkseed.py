#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from tools/seeds_*.py.
Each entry: id, property, [(file, old, new), ...], needs, breaks, demo source."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


for f in sorted(glob.glob(V + '/tools/seeds_*.py')):
    exec(open(f).read())
only = set(sys.argv[1:])
d = tempfile.mkdtemp(prefix='mkseed')
subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (d, d), shell=True)
for id, prop, edits, needs, breaks, demo in S:
    if only and id not in only:
        continue
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    for fn, old, new in edits:
        p = os.path.join(d, fn)
        s = open(p).read()
        assert s.count(old) == 1, (id, fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', d, 'diff'])
    o = os.path.join(V, 'seeded', id)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(diff)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(o + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository; exit 0 on the unchanged tree
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/pvenv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
shutil.rmtree(d)
print(len(S), 'seeds')
