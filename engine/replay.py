"""Runs harness cases on the real package (PyPy, real numpy/scipy/spglib).

usage: python replay.py CASES.json OUT.json      (list of cases)
       python replay.py CASE.json                (one violation, human readable)
A case is {"module": ..., "fn": ..., "cfg": {...}, "inputs": {...}}.
"""
from __future__ import division, print_function
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def unusable(e):
    """an exception in the harness that says the code under test returned
    nothing, or too little, where it returns something usable when it works"""
    t = str(e)
    if isinstance(e, (TypeError, AttributeError)):
        return any(w in t for w in ('NoneType', 'interpreted as an integer', 'non-iterator', 'is not iterable'))
    return isinstance(e, (IndexError, KeyError, ZeroDivisionError)) or \
        isinstance(e, ValueError) and 'ambiguous' not in t and 'truth value' not in t


def run_case(case):
    import importlib
    from engine import api
    for k in [k for k in sys.modules if k == 'ababe' or k.startswith('ababe.')]:
        del sys.modules[k]
    hm = importlib.import_module('harness.' + case['module'])
    ctx = api.ConcreteCtx(case['inputs'])
    old = sys.stdout
    olde = sys.stderr
    res = {}
    cwd = os.getcwd()
    try:
        import io
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        with ctx.quiet_bars():
            getattr(hm, case['fn'])(ctx, case['cfg'])
        res['status'] = 'ok'
    except api.Violated as e:
        res['status'] = 'violated'
        res['msg'] = str(e)
    except api.Skip:
        res['status'] = 'skip'
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        res['status'] = 'exception'
        res['msg'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['exc'] = type(e).__name__
        res['inrepo'] = any('/ababe/' in f[0] and not '/harness/' in f[0] for f in tb)
        if not res['inrepo'] and unusable(e):
            res['status'] = 'violated'
            res['msg'] = 'the result cannot be used: ' + res['msg']
        res['tb'] = ['%s:%s %s' % (f[0], f[1], f[2]) for f in tb][-6:]
    finally:
        sys.stdout = old
        sys.stderr = olde
        os.chdir(cwd)
    res['nchecks'] = ctx.nchecks
    try:
        json.dumps(ctx.obs)
        res['obs'] = ctx.obs
    except Exception:
        res['obs'] = {}
    return res


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    if len(sys.argv) > 2:
        out = []
        for c in cases:
            out.append(run_case(c))
            with open(sys.argv[2], 'w') as f:
                json.dump(out, f)
        if not cases:
            with open(sys.argv[2], 'w') as f:
                json.dump([], f)
    else:
        c = cases if isinstance(cases, dict) else cases[0]
        r = run_case(c)
        print('harness  %s.%s' % (c['module'], c['fn']))
        print('config   %s' % json.dumps(c['cfg']))
        print('inputs   %s' % json.dumps(c['inputs']))
        print('outcome  %s %s' % (r['status'], r.get('msg', '')))
        for t in r.get('tb', []):
            print('   ', t)
        sys.exit(1 if r['status'] in ('violated', 'exception') else 0)


if __name__ == '__main__':
    main()
