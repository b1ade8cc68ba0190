"""check <property> <quick|thorough>"""
import json
import os
import resource
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
PY = sys.executable


def work(args):
    prop, tier, name = args
    import signal
    sys.setrecursionlimit(20000)
    from symfx import replay, explore
    cases, m = replay.load_cases(prop, tier)
    c = cases[name]
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    try:
        r = explore.explore(c, tier)
    except MemoryError:
        r = explore.Result(c)
        r.inconclusive.append('out of memory')
        r.wall = 0
    except BaseException as e:
        import traceback
        r = explore.Result(c)
        r.inconclusive.append('engine error: %s: %s' % (type(e).__name__, e))
        if os.environ.get('SYMFX_TRACE'):
            traceback.print_exc()
        r.wall = 0
    return dict(case=r.case, stats=r.stats, failures=r.failures, inconclusive=r.inconclusive, witnesses=r.witnesses,
                functions=sorted(r.functions), wall=r.wall)


def replay_batch(prop, tier, jobs):
    if not jobs:
        return []
    with tempfile.TemporaryDirectory() as d:
        jf, of = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
        n = min(8, max(1, len(jobs) // 12))
        procs = []
        for k in range(n):
            part = jobs[k::n]
            a, b = jf + str(k), of + str(k)
            with open(a, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'jobs': part}, f)
            procs.append((k, b, subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'symfx', 'replay.py'), a, b],
                                                 cwd=d, env=dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                                                                 OPENBLAS_NUM_THREADS='1'))))
        res = [None] * len(jobs)
        for k, b, p in procs:
            p.wait()
            try:
                with open(b) as f:
                    out = json.load(f)
            except Exception:
                out = [{'violations': [], 'assume_failed': False, 'error': 'replay process failed', 'used': {}}] * len(jobs[k::n])
            for i, r in zip(range(k, len(jobs), n), out):
                res[i] = r
        return res


def known_findings(prop):
    """entries `prop | case | label | text` (case/label may end with *)"""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                q = [x.strip() for x in line.split('|')]
                if q[0] == prop:
                    out.append(q)
    except FileNotFoundError:
        pass
    return out


def match(pat, s):
    return s.startswith(pat[:-1]) if pat.endswith('*') else s == pat


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    verbose = os.environ.get('VERBOSE')
    t0 = time.time()
    from symfx import replay
    cases, mod = replay.load_cases(prop, tier)
    from symfx import explore  # noqa: loaded before the workers are forked
    import scipy.linalg, scipy.signal, jinja2  # noqa
    names = [n for n in cases if only is None or only in n]
    names.sort(key=lambda n: -cases[n].opts.get('cost', 1))
    results = []
    ctx = multiprocessing.get_context('fork')
    found = {}          # (case, concrete label) -> (info, inputs)
    confirmed = set()   # (case, label)
    tallies = dict(validated=0, replayed=0)
    problems = []
    kf = known_findings(prop)

    def do_replay(rs, fails):
        """replay the candidates of failed assertions (fails) or the witnesses of clean paths"""
        jobs, meta = [], []
        for r in rs:
            if fails:
                for label, f in r['failures'].items():
                    for c in f['cands']:
                        jobs.append({'case': r['case'], 'inputs': c})
                        meta.append((r, label))
            else:
                for w in r['witnesses']:
                    jobs.append({'case': r['case'], 'inputs': w, 'loose': True})
                    meta.append((r, None))
        outs = replay_batch(prop, tier, jobs)
        new = False
        for (r, label), job, o in zip(meta, jobs, outs):
            for lab, info in o['violations']:
                if (r['case'], lab) not in found:
                    found[r['case'], lab] = (info, job['inputs'], o.get('used'))
                    new = new or not any(match(q[1], r['case']) and match(q[2], lab) for q in kf)
                if label is not None:
                    confirmed.add((r['case'], label))
            if label is not None:
                tallies['replayed'] += 1
            elif not o['error'] and not o['assume_failed'] and not o['violations']:
                tallies['validated'] += 1
            if o['error']:
                problems.append('%s: replay: %s' % (r['case'], o['error']))
            if verbose and (o['error'] or o['violations'] or o.get('harness_exc')):
                print('   replay', r['case'], '| for:', label, '| assume_failed' if o['assume_failed'] else '', o['violations'][:3], o['error'], o.get('harness_exc', ''), flush=True)
        return new

    limit = float(os.environ.get('SYMFX_WALL', 660 if tier == 'quick' else 6 * 3600))
    stopped = None
    ex = ProcessPoolExecutor(max_workers=min(8, max(1, len(names))), mp_context=ctx, max_tasks_per_child=None)
    futs = {ex.submit(work, (prop, tier, n)): n for n in names}
    pending = set(futs)
    end = t0 + limit
    while pending:
        done, pending = wait(pending, timeout=max(0.1, min(5.0, end - time.time())), return_when=FIRST_COMPLETED)
        batch = []
        for f in done:
            try:
                r = f.result()
            except BaseException as e:
                r = dict(case=futs[f], stats={}, failures={}, inconclusive=['worker died: %s' % e], witnesses=[],
                         functions=[], wall=0)
            results.append(r)
            if r['failures']:
                batch.append(r)
            if verbose:
                print('  case %-40s %6.1fs %s fails=%s inc=%s' % (r['case'], r['wall'], {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r['stats'].items()},
                      {k: (v['status'], v['info'], len(v['cands'])) for k, v in r['failures'].items()}, r['inconclusive'][:3]), flush=True)
        if batch and do_replay(batch, True) and not verbose:
            # a violation is confirmed: a little more time for the other cases
            end = min(end, time.time() + (20 if tier == 'quick' else 120))
        if time.time() > end and pending:
            stopped = '%d of %d cases not finished when the run was stopped' % (len(pending), len(names))
            break
    if stopped:
        for p in list(getattr(ex, '_processes', {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    else:
        ex.shutdown()
    results.sort(key=lambda r: r['case'])
    # ------------------------------------------------------------ witnesses of the paths
    do_replay(results, False)
    validated = tallies['validated']
    inconclusive = []
    for r in results:
        for label, f in r['failures'].items():
            if (r['case'], label) not in confirmed:
                inconclusive.append('%s: %s: %s but no candidate reproduces (%s)' % (r['case'], label, f['status'], f['info']))
        for x in r['inconclusive']:
            inconclusive.append('%s: %s' % (r['case'], x))
    # ------------------------------------------------------------ verdict
    if stopped:
        inconclusive.append(stopped)
    viol, known = [], []
    for (case, lab), (info, inputs, used) in sorted(found.items()):
        hit = [q for q in kf if match(q[1], case) and match(q[2], lab)]
        if hit:
            known.append((case, lab, hit[0]))
        else:
            viol.append((case, lab, info, inputs, used))
    for q in kf:
        if any(k[2] is q for k in known):
            print('KNOWN-FINDING: property=%s %s' % (prop, q[3]))
    rd = os.path.join(HERE, 'replays', prop)
    if viol:
        os.makedirs(rd, exist_ok=True)
    for i, (case, lab, info, inputs, used) in enumerate(viol):
        path = os.path.join(rd, '%d.json' % i)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': case, 'label': lab, 'what': info, 'inputs': inputs, 'used': used,
                       'rerun': '%s %s %s' % (PY, os.path.join(HERE, 'symfx', 'replay.py'), path)}, f, indent=1)
        if i < 10:
            print('  violated: case %s: %s: %s' % (case, lab, info))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {
        'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0) + tot.get('paths', 0),
        'traces_validated_against_impl': validated,
        'samples': [{'case': r['case'], 'paths': r['stats'].get('paths', 0), 'assertions': r['stats'].get('assertions', 0),
                     'witness': (r['witnesses'] or [None])[0]} for r in results][:12],
        'cases': len(results),
        'functions_encoded': funcs,
        'assertions': tot.get('assertions', 0),
        'assertions_decided_by_normal_form': tot.get('decided_by_normal_form', 0),
        'queries_discharged_unsat': tot.get('discharged', 0),
        'assertion_queries': tot.get('queries', 0),
        'feasibility_queries': tot.get('feasibility_queries', 0),
        'solver_s': round(tot.get('solver_s', 0.0), 2),
        'counterexample_candidates_replayed': tallies['replayed'],
        'bounds': getattr(mod, 'BOUNDS', ''),
        'known_findings': [q[3] for q in kf if any(k[2] is q for k in known)],
        'inconclusive': inconclusive[:20],
    }
    if level == 'translation_validation':
        cov['programs'] = tot.get('paths', 0)
        cov['disagreements_checked'] = tot.get('assertions', 0)
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d assertions (%d by normal form, %d unsat queries), %d feasibility queries, '
          'solver %.1f s, %d witnesses replayed, wall %.1f s' % (
              prop, tier, len(results), tot.get('paths', 0), tot.get('assertions', 0), tot.get('decided_by_normal_form', 0),
              tot.get('discharged', 0), tot.get('feasibility_queries', 0), tot.get('solver_s', 0), validated, wall))
    if viol:
        return 1
    if inconclusive:
        for x in inconclusive[:10]:
            print('INCONCLUSIVE: %s' % x)
        return 2
    if not validated and not known:
        print('INCONCLUSIVE: no path was validated against the real code')
        return 2
    if problems and verbose:
        print(problems[:5])
    return 0


if __name__ == '__main__':
    sys.exit(main())
