"""check driver:  python -m pvsym.cli P01 [--tier quick|thorough] [--job RE] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Job:
    def __init__(self, name, harness, tier='quick', funcs=None, bounds=None, **kw):
        self.name, self.harness, self.tier, self.kw = name, harness, tier, kw
        self.funcs, self.bounds = funcs, bounds
        self.params = kw.pop('params', {})


def _run(job, conn, left):
    try:
        job.kw['time_limit'] = max(5, min(job.kw.get('time_limit', 200), left))
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.setpgid(0, 0)
        from pvsym import engine
        r = engine.Run(job.name, job.harness, job.params, **job.kw).go()
    except MemoryError:
        r = dict(name=job.name, crash='out of memory')
    except Exception:
        r = dict(name=job.name, crash=traceback.format_exc()[-2500:])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(name=job.name, crash='result not sendable: %r' % e))
    conn.close()


def run_jobs(jobs, ncpu, hard_deadline, verbose=False, fatal=lambda j, r: False):
    ctx = mp.get_context('fork')
    pend, live, out = list(jobs), [], []
    pend.sort(key=lambda j: -j.kw.get('time_limit', 200))
    stop = False
    while pend or live:
        while pend and len(live) < ncpu and not stop:
            j = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_run, args=(j, b, hard_deadline - time.time() - 20), daemon=True)
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        if stop and pend:
            for j in pend:
                out.append((j, dict(name=j.name, skipped='a violation was already found')))
            pend = []
        time.sleep(0.02)
        nl = []
        for j, p, a, t0 in live:
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(name=j.name, crash='worker died')
            elif not p.is_alive():
                got = dict(name=j.name, crash='worker died (exit %s)' % p.exitcode)
            elif time.time() - t0 > j.kw.get('time_limit', 200) + 60 or time.time() > hard_deadline:
                got = dict(name=j.name, crash='killed: time limit')
            if got is None:
                nl.append((j, p, a, t0))
                continue
            if p.is_alive():
                p.join(0.2)
            if p.is_alive():
                p.kill()
            p.join(1)
            a.close()
            out.append((j, got))
            if got.get('violations') and fatal(j, got):
                stop = True
                hard_deadline = min(hard_deadline, time.time() + 90)
            if verbose:
                show(got)
        live = nl
    return out


def show(r):
    if 'crash' in r:
        print('  %-52s CRASH %s' % (r['name'], r['crash']))
        return
    if 'skipped' in r:
        print('  %-52s skipped' % r['name'])
        return
    print('  %-52s paths %d (inf %d) obl %d/%d triv %d val %d/skip %d wit %d ref %d  %.1fs' % (
        r['name'], r['paths'], r['infeasible'], r['discharged'], r['obligations'], r['trivial'],
        r['validated'], r['validation_skipped'], r['witnesses'], r['refinements'], r['wall_s']))
    for v in r['violations']:
        print('     VIOLATES %s  %s  %s' % (v['label'], v['inputs'], v['choices']))
        print('        ', v['failures'])
    seen = set()
    for i in r['inconclusive']:
        k = (i['label'], i['why'][:100])
        if k not in seen:
            seen.add(k)
            print('     INCONCLUSIVE %s: %s' % (i['label'], i['why']))
    for e in r['validation_errors'][:3]:
        print('     VALIDATION', e)
    if r.get('error'):
        print('     ', r['error'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true', help='undecided obligations make the exit status 2')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('PVSYM_JOBS', '8')))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from pvsym import engine            # noqa  (loads pvlib from /repo)
    mods = [f[:-3] for f in os.listdir(os.path.join(HERE, 'props')) if f.lower().startswith(a.prop.lower() + '_') and f.endswith('.py')]
    if len(mods) != 1:
        print('no harness module for', a.prop)
        return 2
    P = importlib.import_module('props.' + mods[0])
    jobs = [j for j in P.jobs(a.tier)]
    if a.job:
        jobs = [j for j in jobs if re.search(a.job, j.name)]
    if a.list:
        for j in jobs:
            print(j.name)
        return 0
    for j in jobs:
        j.kw.setdefault('seed', seed)
        if a.tier == 'quick':
            j.kw.setdefault('time_limit', 240)
        else:
            j.kw['time_limit'] = j.kw.get('time_limit', 240) * 4
            j.kw.setdefault('budget', (4000, 20000, 60000))
    hard = t0 + (720 if a.tier == 'quick' else 7200)
    kn = known()

    def fatal(j, r):
        return not a.job and any(not any(matches(k, P.PROPERTY, v, j) for k in kn) for v in r['violations'])
    out = run_jobs(jobs, a.j, hard, a.v, fatal)
    return report(a, P, out, t0, seed)


def known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def matches(k, prop, v, job):
    if k.get('status') != 'known' or k['property'] != prop:
        return False
    m = k['match']
    if 'job' in m and not re.fullmatch(m['job'], v['job']):
        return False
    if 'label' in m and not re.fullmatch(m['label'], v['label']):
        return False
    if 'where' in m:
        env = dict(v['inputs'])
        env.update({'c_' + n: c for n, c in v['choices'].items()})
        try:
            if not eval(m['where'], {'__builtins__': {'abs': abs}}, env):
                return False
        except Exception:
            return False
    return True


def report(a, P, out, t0, seed):
    prop = P.PROPERTY
    ev_dir = os.environ.get('PVSYM_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    viol, inc, kf = [], [], []
    kn = known()
    agg = dict(paths=0, decisions=0, forks=0, obligations=0, discharged=0, trivial=0, validated=0,
               validation_skipped=0, witnesses=0, refinements=0, spurious=0, infeasible=0)
    st = dict(queries=0, feas_queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0)
    by, samples, per_job = {}, [], []
    for j, r in out:
        if 'crash' in r:
            inc.append('%s: %s' % (j.name, r['crash']))
            continue
        if 'skipped' in r:
            continue
        for k in agg:
            agg[k] += r[k]
        for k in st:
            st[k] += r['stats'][k]
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for s in r['samples'][:1]:
            samples.append(dict(job=j.name, **s))
        per_job.append(dict(job=j.name, functions=j.funcs, bounds=j.bounds, paths=r['paths'],
                            obligations=r['obligations'], discharged=r['discharged'],
                            validated=r['validated'], labels=r['labels'], wall_s=r['wall_s']))
        for v in r['violations']:
            k = next((k for k in kn if matches(k, prop, v, j)), None)
            if k is not None:
                kf.append((k, v))
            else:
                viol.append((j, v))
        for i in r['inconclusive']:
            # paths of a job that already has a confirmed violation are not chased further
            if not r['violations']:
                inc.append('%s / %s: %s' % (j.name, i['label'], i['why']))
        for e in r['validation_errors']:
            if not r['violations']:
                inc.append('%s: translator disagrees with the real code: %s' % (j.name, e))
    seenk = set()
    for k, v in kf:
        if k['id'] not in seenk:
            seenk.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    files = []
    for n, (j, v) in enumerate(viol[:20]):
        p = os.path.join(ev_dir, 'replay', '%s-%d.json' % (prop, n))
        with open(p, 'w') as f:
            json.dump(dict(property=prop, module=P.__name__, job=j.name, **{k: v[k] for k in v if k != 'job'}), f, indent=1, default=str)
        files.append(p)
        print('counterexample in %s: %s' % (j.name, v['label']))
        print('   inputs  %s %s' % (v['inputs'], v['choices'] or ''))
        for f_ in v['failures'][:3]:
            print('   real code: %s' % (f_,))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for i in sorted(set(inc))[:25]:
        print('UNDECIDED %s' % i[:1500])
    cov = dict(
        states=agg['paths'], transitions=agg['decisions'],
        traces_validated_against_impl=agg['validated'],
        samples=samples[:12],
        functions=sorted({f for j, r in out for f in (j.funcs or getattr(P, 'FUNCTIONS', []))}),
        bounds=getattr(P, 'BOUNDS', ''),
        outside=getattr(P, 'OUTSIDE', ''),
        paths_infeasible=agg['infeasible'], forks=agg['forks'],
        obligations=agg['obligations'], obligations_discharged=agg['discharged'],
        discharged_by=by, path_witnesses=agg['witnesses'],
        witnesses_not_comparable=agg['validation_skipped'],
        refinement_lemmas=agg['refinements'], spurious_models=agg['spurious'],
        solver_queries=st['queries'], feasibility_queries=st['feas_queries'],
        solver_seconds=round(st['solver_s'], 2), unsat=st['unsat'], sat=st['sat'], unknown=st['unknown'],
        undecided=sorted(set(inc))[:40], jobs=per_job)
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(P, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    if len(json.dumps(ev, default=str)) > 400000:
        # many similar jobs: the labels of the first ones stand for all
        for e in per_job[40:]:
            e.pop('labels')
        for e in per_job[400:]:
            e.pop('functions'), e.pop('bounds')
    if not a.job:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1 if len(per_job) < 100 else None, default=str)
    print('%s %s: %d jobs, %d paths, %d/%d obligations discharged, %d witnesses replayed, %d queries, %.1f s solver, %.1f s wall' % (
        prop, a.tier, len(out), agg['paths'], agg['discharged'], agg['obligations'], agg['validated'],
        st['queries'] + st['feas_queries'], st['solver_s'], time.time() - t0))
    if viol:
        return 1
    if inc:
        # nothing that was decided is violated; what was not decided is listed
        # above and in the evidence and is no part of the claim
        print('%s: %d item(s) left undecided' % (prop, len(set(inc))))
        if not agg['discharged'] or a.strict:
            return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
