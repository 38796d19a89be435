"""Decides one property: explores its harnesses symbolically over the current
/repo sources, replays counterexamples and path witnesses on the real package,
writes the evidence file and sets the exit status.

usage: python3-vt -m engine.run PROPERTY [--tier quick|thorough] [--job SUBSTR]
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = os.environ.get('VERIF_PYPY', '/opt/pvenv/bin/python')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8',
           LC_ALL='C.UTF-8', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')

NWORK = int(os.environ.get('VERIF_JOBS', '8'))


# ------------------------------------------------------------------ worker side
class Recorder(object):
    """functions of the package that were executed symbolically"""

    def __init__(self):
        self.seen = set()
        self.on = False
        try:
            mon = sys.monitoring
            self.tool = 3
            mon.use_tool_id(self.tool, 'verif')
            mon.register_callback(self.tool, mon.events.PY_START, self.start)
            mon.set_events(self.tool, mon.events.PY_START)
            self.on = True
        except (AttributeError, ValueError):
            pass

    def start(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/ababe'):
            n = code.co_qualname
            if n != '<module>':
                self.seen.add('%s:%s' % (fn[len(REPO) + 1:], n))
        return sys.monitoring.DISABLE


_rec = None


class _Alarm(object):
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        from engine import sym

        def h(*a):
            raise sym.PathBudget('path time limit')
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def unusable(e):
    """an exception in the harness that says the code under test returned
    nothing, or too little, where it returns something usable when it works"""
    t = str(e)
    if isinstance(e, (TypeError, AttributeError)):
        return any(w in t for w in ('NoneType', 'interpreted as an integer', 'non-iterator', 'is not iterable'))
    return isinstance(e, (IndexError, KeyError, ZeroDivisionError)) or \
        isinstance(e, ValueError) and 'ambiguous' not in t and 'truth value' not in t


def replay(cases, timeout=120):
    """run cases on the real package; None entries when the process died"""
    d = tempfile.mkdtemp(prefix='verifr')
    a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    with open(a, 'w') as f:
        json.dump(cases, f)
    hang = False
    err = ''
    try:
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(VERIF, 'engine', 'replay.py'), a, b],
                           cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        err = p.stdout.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired:
        hang = True
    try:
        with open(b) as f:
            out = json.load(f)
    except Exception:
        out = []
    n = len(out)
    while len(out) < len(cases):
        out.append({'status': 'hang' if hang and len(out) == n else 'lost', 'msg': err})
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return out


def same_failure(kind, r):
    if kind == 'check':
        return r['status'] == 'violated' or (r['status'] == 'exception' and r.get('inrepo'))
    if kind in ('exc', 'cut'):
        return (r['status'] == 'exception' and r.get('inrepo')) or r['status'] == 'violated'
    if kind == 'hang':
        return r['status'] in ('hang', 'violated') or (r['status'] == 'exception' and r.get('inrepo'))
    return False


def in_repo(tb):
    return any(f.filename.startswith(REPO + '/') for f in tb)


def run_job(job):
    global _rec
    sys.setrecursionlimit(5000)
    if _rec is None:
        _rec = Recorder()
    from engine import sym, symctx
    from engine.sym import (PathInfeasible, PathViolation, PathBudget, Unsupported,
                            PathControl, Stats)
    hm = importlib.import_module('harness.' + job['module'])
    fn = getattr(hm, job['fn'])
    cfg = job['cfg']
    st = Stats()
    res = {'job': job, 'violations': [], 'unconfirmed': [], 'witnesses': [], 'known': [],
           'complete': True, 'remaining': 0, 'reached': 0, 'samples': []}
    rnd = random.Random(job.get('seed', 1))
    work = [[]]
    t0 = time.time()
    deadline = t0 + job['budget']
    opts = dict(getattr(fn, 'opts', {}))
    pathlimit = opts.pop('path_s', 60)
    pathlimit = job['cfg'].get('path_s', pathlimit)
    keepw = job.get('witnesses', 3)
    nwit = 0
    nhang = 0
    confirmed = False
    failures = 0
    ncut = 0
    cutcases = []
    cwd = os.getcwd()
    while work and not confirmed:
        if time.time() > deadline:
            res['complete'] = False
            res['remaining'] = len(work)
            break
        prefix = work.pop()
        ctx = symctx.SymCtx(st, prefix, **opts)
        ctx.deadline = deadline
        sym.CUR = ctx
        kind = None
        try:
            with _Alarm(min(pathlimit, max(1, deadline - time.time()))):
                fn(ctx, cfg)
            st.paths += 1
            res['reached'] += 1 if ctx.reached else 0
            # witness
            nwit += 1
            if len(res['witnesses']) < keepw or rnd.random() < keepw / float(nwit):
                m = ctx.ensure_model()
                if m is not None:
                    w = {'inputs': ctx.input_values(m),
                         'obs': {k: ctx.eval_obs(v, m) for k, v in ctx.obs.items()}}
                    if len(res['witnesses']) < keepw:
                        res['witnesses'].append(w)
                    else:
                        res['witnesses'][rnd.randrange(keepw)] = w
        except PathInfeasible:
            st.infeasible += 1
        except PathViolation as e:
            st.paths += 1
            res['reached'] += 1
            kind, msg, models = 'check', e.msg, e.models
        except PathBudget as e:
            if str(e) == 'time budget' or time.time() > deadline:
                res['complete'] = False
                work.append(prefix)
                res['remaining'] = len(work)
                break
            if str(e) == 'path time limit':
                nhang += 1
                st.cut('path abandoned after %d s' % pathlimit)
                if nhang <= 2:
                    kind, msg = 'hang', 'does not terminate'
                    models = _models(ctx)
            else:
                st.cut(str(e))
        except Unsupported as e:
            st.paths += 1
            st.cut('unsupported: %s' % e)
            kind, msg, models = 'cut', 'unsupported: %s' % e, _models(ctx, rnd if ncut < 60 or rnd.random() < .02 else None)
        except PathControl:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            st.paths += 1
            if in_repo(tb):
                kind = 'exc'
                loc = [f for f in tb if f.filename.startswith(REPO + '/')][-1]
                msg = 'raises %s: %s (in %s)' % (type(e).__name__, str(e)[:200], loc.name)
                models = _models(ctx)
            else:
                if unusable(e):
                    kind, msg, models = 'exc', 'the result cannot be used (%s: %s)' % (type(e).__name__, str(e)[:160]), _models(ctx)
                else:
                    kind, msg, models = 'cut', 'harness error', _models(ctx, rnd if ncut < 60 or rnd.random() < .02 else None)
                st.cut('harness error %s: %s at %s' % (
                    type(e).__name__, str(e)[:160],
                    ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.chdir(cwd)
        work.extend(ctx.alts)
        if kind == 'cut':
            # the encoding does not reach past this point: solver models of the
            # path so far are run on the real code, a sample of them per job
            for m in models:
                ncut += 1
                c = {'module': job['module'], 'fn': job['fn'], 'cfg': cfg, 'inputs': m}
                if len(cutcases) < CUTCASES:
                    cutcases.append(c)
                elif rnd.random() < CUTCASES / float(ncut):
                    cutcases[rnd.randrange(CUTCASES)] = c
            continue
        if kind is not None:
            failures += 1
            if failures > 12:
                st.cut('more candidate failures on this job not examined')
                continue
            cases = [{'module': job['module'], 'fn': job['fn'], 'cfg': cfg, 'inputs': m} for m in models]
            out = replay(cases, 150) if cases else []
            hit = None
            for c, r in zip(cases, out):
                if same_failure(kind, r):
                    hit = (c, r)
                    break
            rec = {'kind': kind, 'msg': msg, 'cases': cases[:1],
                   'replay': [{'status': r['status'], 'msg': r.get('msg', '')[:300]} for r in out]}
            if hit is not None:
                rec['case'], rec['replayed'] = hit
                rec['msg'] = hit[1].get('msg') or msg
                rec['symmsg'] = msg
                k = known_match(job, rec)
                if k is not None:
                    if k not in res['known']:
                        res['known'].append(k)
                else:
                    res['violations'].append(rec)
                    confirmed = True
            elif kind == 'check':
                res['unconfirmed'].append(rec)
            else:
                st.cut('not reproduced on the real code: %s' % msg[:160])
    if cutcases and not confirmed:
        for c, r in zip(cutcases, replay(cutcases, 200)):
            if same_failure('cut', r):
                rec = {'kind': 'cut', 'msg': r.get('msg', ''), 'case': c, 'replayed': r, 'symmsg': ''}
                k = known_match(job, rec)
                if k is None:
                    res['violations'].append(rec)
                    break
                if k not in res['known']:
                    res['known'].append(k)
        st.cuts['(models of cut paths run on the real code)'] = len(cutcases)
    sym.CUR = None
    res['stats'] = st.as_dict()
    res['functions'] = sorted(_rec.seen)
    res['wall'] = time.time() - t0
    from engine import loader
    res['sources'] = sorted(loader.SOURCES)
    return res


CUTCASES = 40


def _models(ctx, rnd=None, n=8):
    try:
        m = ctx.ensure_model()
        out = [ctx.input_values(m)] if m is not None else []
    except BaseException:
        return []
    if rnd is not None and out and len(ctx.inputs):
        try:
            out += ctx.diverse_models(rnd, n)
        except BaseException:
            pass
    return out


_known = None


def known_findings():
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        try:
            with open(p) as f:
                _known = json.load(f).get('open', [])
        except OSError:
            _known = []
    return _known


def known_match(job, rec):
    for i, k in enumerate(known_findings()):
        if k['property'] != job['property'] or k.get('fn', job['fn']) != job['fn']:
            continue
        if any(job['cfg'].get(a) != b for a, b in k.get('cfg', {}).items()):
            continue
        if k.get('msg') and k['msg'] not in rec['msg']:
            continue
        return i
    return None


# ------------------------------------------------------------------- main side
def write_replay(prop, rec):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(rec['case'], sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(blob.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump(dict(rec['case'], violation=rec['msg'], property=prop,
                       how='%s %s/engine/replay.py %s' % (PYPY, VERIF, p)), f, indent=1)
    return p


def close_obs(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close_obs(a[k], b[k]) for k in a)
    return a == b


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    os.environ.setdefault('PYTHONHASHSEED', '0')
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from harness import index
    spec = index.PROPS[a.prop]
    jobs = []
    for module in spec['modules']:
        hm = importlib.import_module('harness.' + module)
        for fn, cfg in hm.jobs(a.prop, tier):
            jobs.append({'property': a.prop, 'module': module, 'fn': fn, 'cfg': cfg,
                         'seed': seed, 'tier': tier,
                         'budget': cfg.pop('_budget', 240 if tier == 'quick' else 2400),
                         'witnesses': cfg.pop('_wit', 2)})
    if a.job:
        jobs = [j for j in jobs if a.job in j['fn'] + json.dumps(j['cfg'])]
    if a.list:
        for j in jobs:
            print(j['fn'], json.dumps(j['cfg']))
        return 0
    total = spec.get('total_s', 600) if tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix='verifw')
    # everything any worker or replay writes stays below the scratch folder
    tempfile.tempdir = os.environ['TMPDIR'] = ENV['TMPDIR'] = scratch
    os.chdir(scratch)
    results = []
    violation = None
    inproc = len(jobs) == 1 and a.v
    lost = []
    try:
        if inproc:
            it = map(run_job, jobs)
            pool = None
        else:
            mpc = mp.get_context('fork')
            pool = mpc.Pool(min(NWORK, len(jobs)) or 1, maxtasksperchild=20)
            # heavier jobs first
            order = sorted(jobs, key=lambda j: -j['cfg'].get('_w', 0))
            it = [pool.apply_async(run_job, (j,)) for j in order]
        pend = list(it) if pool is not None else None
        if pool is None:
            for r in it:
                results.append(r)
        else:
            while pend:
                if time.time() - t0 > total:
                    lost = pend
                    break
                nxt = []
                for h in pend:
                    if h.ready():
                        r = h.get()
                        results.append(r)
                        if a.v:
                            s = r['stats']
                            print('%-24s %-60s %6.1fs paths=%d forks=%d q=%d ob=%d %s%s%s' % (
                                r['job']['fn'], json.dumps(r['job']['cfg'])[:60], r['wall'],
                                s['paths'], s['forks'], s['queries'], s['obligations'],
                                '' if r['complete'] else 'INCOMPLETE(%d) ' % r['remaining'],
                                ('cuts=%s ' % json.dumps(s['cuts'])) if s['cuts'] else '',
                                'VIOL' if r['violations'] else ''), flush=True)
                        if r['violations']:
                            violation = (r['job'], r['violations'][0])
                            break
                    else:
                        nxt.append(h)
                pend = nxt
                if violation:
                    break
                time.sleep(0.02)
            pool.terminate()
    finally:
        os.chdir(VERIF)
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
        tempfile.tempdir = None
        os.environ.pop('TMPDIR', None)
        ENV.pop('TMPDIR', None)
    for r in results:
        if r['violations'] and violation is None:
            violation = (r['job'], r['violations'][0])
    if inproc:
        print(json.dumps({k: v for k, v in results[0].items() if k != 'witnesses'}, indent=1, default=str)[:6000])
        print(json.dumps(results[0]['witnesses'][:2], default=str)[:3000])
    # ---- validate path witnesses on the real package
    wit = []
    for r in results:
        for w in r['witnesses']:
            wit.append((r['job'], w))
    validated = mismatch = skipped = 0
    mism = []
    if wit and violation is None:
        chunks = [wit[i::NWORK] for i in range(NWORK)]
        chunks = [c for c in chunks if c]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(NWORK) as ex:
            outs = list(ex.map(lambda c: replay(
                [{'module': j['module'], 'fn': j['fn'], 'cfg': j['cfg'], 'inputs': w['inputs']}
                 for j, w in c], 400 if tier == 'quick' else 2400), chunks))
        for c, out in zip(chunks, outs):
            for (j, w), r in zip(c, out):
                case = {'module': j['module'], 'fn': j['fn'], 'cfg': j['cfg'], 'inputs': w['inputs']}
                if r['status'] == 'ok':
                    bad = [k for k in w['obs'] if k not in r['obs'] or not close_obs(w['obs'][k], r['obs'][k])]
                    if bad:
                        mismatch += 1
                        mism.append({'case': case, 'what': bad, 'sym': [w['obs'][k] for k in bad],
                                     'real': [r['obs'].get(k) for k in bad]})
                    else:
                        validated += 1
                elif r['status'] == 'violated' or (r['status'] == 'exception' and r.get('inrepo')):
                    rec = {'kind': 'witness', 'msg': r.get('msg', ''), 'case': case}
                    k = known_match(j, rec)
                    if k is not None:
                        for q in results:
                            if q['job'] is j or q['job'] == j:
                                if k not in q['known']:
                                    q['known'].append(k)
                    elif violation is None:
                        violation = (j, rec)
                else:
                    skipped += 1
                    mism.append({'case': case, 'what': r['status'], 'msg': r.get('msg', '')[:400],
                                 'tb': r.get('tb')})
    # ---- verdict and evidence
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    cuts, gaps, funcs, srcs = {}, [], set(), set()
    for r in results:
        for k, v in r['stats']['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        gaps += r['stats']['gaps']
        funcs.update(r['functions'])
        srcs.update(r['sources'])
    unconf = [(r['job'], u) for r in results for u in r['unconfirmed']]
    known = sorted({k for r in results for k in r['known']})
    incomplete = [{'fn': r['job']['fn'], 'cfg': r['job']['cfg'], 'unexplored_prefixes': r['remaining']}
                  for r in results if not r['complete']]
    vac = [{'fn': r['job']['fn'], 'cfg': r['job']['cfg']} for r in results
           if not r['reached'] and not r['violations'] and r['complete']]
    rc = 0
    if violation is not None:
        rc = 1
    samples = []
    for j, w in wit[:3]:
        samples.append({'harness': j['fn'], 'cfg': j['cfg'], 'path_witness_inputs': w['inputs'],
                        'observed': w['obs']})
    if violation is not None:
        samples.insert(0, {'violation': violation[1]['msg'], 'case': violation[1]['case']})
    if not samples:
        samples = [{'harness': r['job']['fn'], 'cfg': r['job']['cfg'], 'paths': r['stats']['paths']}
                   for r in results[:3]]
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0)),
            'transitions': int(tot.get('branches', 0)),
            'traces_validated_against_impl': validated,
            'samples': json.loads(json.dumps(samples, default=str))[:4],
            'harness_jobs': len(results),
            'functions_encoded': sorted(funcs),
            'sources': sorted(os.path.relpath(s, REPO) for s in srcs),
            'bounds': [{'harness': r['job']['fn'], 'cfg': r['job']['cfg'], 'paths': r['stats']['paths'],
                        'complete': r['complete'], 'seconds': round(r['wall'], 2)} for r in results],
            'solver_queries': int(tot.get('queries', 0)),
            'solver_seconds': round(tot.get('solver_s', 0.0), 3),
            'obligations': int(tot.get('obligations', 0)),
            'obligations_discharged_by_solver': int(tot.get('discharged_solver', 0)),
            'obligations_decided_by_path_condition': int(tot.get('discharged_syntactic', 0)),
            'forks': int(tot.get('forks', 0)),
            'infeasible_paths': int(tot.get('infeasible', 0)),
            'unknown_answers': int(tot.get('unknown', 0)),
            'cuts': cuts, 'gaps': gaps[:20],
            'incomplete_jobs': incomplete,
            'jobs_not_run': len(lost),
            'vacuous_jobs': vac,
            'witness_replays_skipped': skipped,
            'encoding_mismatches': mism[:5],
            'unconfirmed_counterexamples': [u[1] for u in unconf[:5]],
            'exhaustive': not incomplete and not lost and not cuts and not gaps,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation is not None else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known_findings()[k]['what']))
    c = ev['coverage']
    print('%s %s: jobs=%d paths=%d obligations=%d (solver %d) queries=%d solver=%.1fs validated=%d wall=%.1fs'
          % (a.prop, tier, len(results), c['states'], c['obligations'],
             c['obligations_discharged_by_solver'], c['solver_queries'], c['solver_seconds'],
             validated, ev['wall_s']))
    if cuts:
        print('  cuts: %s' % json.dumps(cuts))
    if incomplete or lost:
        print('  incomplete jobs: %d, not run: %d' % (len(incomplete), len(lost)))
        if a.v:
            for x in incomplete:
                print('   ', json.dumps(x))
    if mism:
        print('  witness mismatches: %d, skipped: %d' % (mismatch, skipped))
        if a.v:
            print(json.dumps(mism[:3], default=str)[:3000])
    if vac:
        print('  jobs that reached no assertion: %s' % json.dumps(vac)[:500])
    if violation is not None:
        p = write_replay(a.prop, violation[1])
        print('  %s %s' % (violation[0]['fn'], json.dumps(violation[0]['cfg'])))
        print('  %s' % violation[1]['msg'])
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
    elif unconf:
        print('  UNCONFIRMED: a counterexample of the encoding did not reproduce on the real code: %s' % unconf[0][1]['msg'])
        if a.v:
            print(json.dumps(unconf[0][1])[:3000])
    return rc


if __name__ == '__main__':
    sys.exit(main())
