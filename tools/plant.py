#!/usr/bin/env python3
"""development helper: confirm planted changes in scratch copies and run checks on them.
usage: plant.py [--notest] [--all-checks] ID..."""
import json, os, subprocess, sys, shutil, glob, time
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
PY = '/opt/pvenv/bin/python'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(i, notest):
    d = '/tmp/plant/%s' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('cp -a /repo %s' % d, '/')
    r = {'id': i}
    s = '%s/seeded/%s' % (V, i)
    rc, o = sh('bash %s/demo.sh' % s, d, {'PYTHONPATH': d}, 300)
    r['demo_clean'] = rc
    if rc: r['o'] = o[-600:]
    rc, o = sh('git apply %s/patch.diff' % s, d)
    if rc:
        r['apply'] = o
        return r
    rc, o = sh('bash %s/demo.sh' % s, d, {'PYTHONPATH': d}, 300)
    r['demo_bug'] = rc
    r['msg'] = o.strip().split('\n')[-1][-160:]
    if not notest:
        rc, o = sh('%s -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s.xml ababe' % (PY, d), d, {'PYTHONPATH': d})
        sh('%s -W ignore -m nose --with-xunit --xunit-file=%s.nose.xml ababe/mlearn/tests/arrange_test_default.py' % (PY, d), d, {'PYTHONPATH': d})
        sh('/usr/bin/python3 /opt/vp/results.py %s.json junit:%s.xml "junit:%s.nose*.xml"' % (d, d, d), d)
        res = json.load(open(d + '.json'))
        ok = set(res.get('passed', res.get('pass', [])))
        bad = stable - ok
        r['tests'] = 'ok' if not bad else sorted(bad)[:5]
    return r


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    notest = '--notest' in sys.argv
    ids = a or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda i: one(i, notest), ids))
    for r in rs:
        i = r['id']
        d = '/tmp/plant/' + i
        p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        t = time.time()
        rc, o = sh('timeout 900 python3-vt -m engine.run %s' % p, V, {'VERIF_REPO': d, 'VERIF_EVID': '/tmp/plant/evid'})
        r['check'] = '%s rc=%d %.0fs' % (p, rc, time.time() - t)
        l = [x for x in o.split('\n') if x.strip()]
        r['why'] = ' | '.join(l[-3:])[:300] if rc == 1 else ' | '.join(l)[-600:]
        print(json.dumps(r), flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
