#!/usr/bin/env python3
"""development helper: run checks on quick unconfirmed mutations (tools/muts_*.py).
usage: mut.py [--ref] [NAME-or-PROP...]   --ref: behaviour-keeping edits, every check listed must stay quiet"""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, R = [], []


def mut(name, prop, *edits):
    M.append((name, prop.split(), edits))


def ref(name, props, *edits):
    R.append((name, props.split(), edits))


for f in sorted(glob.glob(V + '/tools/muts_*.py')):
    exec(open(f).read())
isref = '--ref' in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith('--')]


def prep(name, edits):
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    i = 0
    edits = list(edits)
    if edits and isinstance(edits[0], str):
        edits = [tuple(edits)]
    for e in edits:
        fn, old, new = e[:3]
        cnt = e[3] if len(e) > 3 else 1
        p = os.path.join(d, fn)
        s = open(p).read()
        assert s.count(old) == cnt, (name, fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    return d


for name, props, edits in (R if isref else M):
    if sel and name not in sel and not (set(sel) & set(props)):
        continue
    d = prep(name, edits)
    for p in props:
        t = time.time()
        e = dict(os.environ, PYTHONHASHSEED='0', VERIF_REPO=d, VERIF_EVID='/tmp/mut/evid')
        try:
            q = subprocess.run(['python3-vt', '-m', 'engine.run', p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            rc, o = q.returncode, q.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            rc, o = 124, 'timeout'
        l = [x for x in o.split('\n') if x.strip()]
        if isref:
            tag = 'quiet' if rc == 0 and 'VIOLATION' not in o else 'ALARM(%d)' % rc
        else:
            tag = 'caught' if rc == 1 and 'VIOLATION property=' + p in o else 'MISSED(%d)' % rc
        print('%-10s %-4s %-28s %4.0fs %s' % (tag, p, name, time.time() - t, '' if tag in ('quiet',) else ' | '.join(l[-2:])[:230]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
