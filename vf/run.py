"""Decide one property:  python -m vf.run C01 [--tier quick|thorough] [--only SUBSTR] [-v]"""
from __future__ import annotations

import argparse
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

DEFAULTS = {
    'quick': dict(budget_s=12, fork_ms=300, max_paths=3000, wall_s=300),
    'thorough': dict(budget_s=60, fork_ms=1000, max_paths=30000, wall_s=3000),
}


class Worker:

    def __init__(self):
        self.start()

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONHASHSEED='0',
                   XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1', OMP_NUM_THREADS='1')
        self.err = open(os.path.join(VERIF, 'evidence', f'.worker-{os.getpid()}-{id(self)}.log'), 'w+', encoding='utf-8')
        self.p = subprocess.Popen([sys.executable, '-m', 'vf.worker'], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, bufsize=1)
        line = self._read(240)
        self.load_err = json.loads(line)['load_err'] if line else 'worker did not start: ' + self._tail()

    def _tail(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-1500:]

    def _read(self, timeout):
        t_end = time.time() + timeout
        while True:
            left = t_end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            line = self.p.stdout.readline()
            return line or None

    def run(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        line = self._read(req['wall_s'] + 60)
        if line is None:
            msg = f'worker ended or timed out: {self._tail()}'
            self.stop()
            self.start()
            return {'prop': req['prop'], 'name': req['harness'], 'params': req['params'], 'stats': {}, 'labels': {}, 'samples': [],
                    'violations': [], 'unreproduced': [], 'inconclusive': [], 'errors': ['unsupported: ' + msg], 'notes': [], 'solver': {},
                    'wall': req['wall_s'], 'functions': []}
        return json.loads(line)

    def stop(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:  # pylint: disable=broad-except
            pass
        name = self.err.name
        self.err.close()
        try:
            os.unlink(name)
        except OSError:
            pass


def known_findings(prop):
    try:
        with open(KNOWN, encoding='utf-8') as f:
            doc = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in doc.get('known', []) if k['property'] == prop]


def matches(k, v, job):
    return k['harness'] == job['name'] and k['label'] == v['label'] and all(job['params'].get(p) == x for p, x in k.get('params', {}).items())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true', help='exit 3 unless everything was decided (used while developing)')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VF_JOBS', '0')) or min(8, os.cpu_count() or 4))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in DEFAULTS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    from vf import jobs as jobtable
    reqs = []
    for h, params, opts in jobtable.jobs_for(a.prop, tier):
        if a.only and a.only not in h and a.only not in json.dumps(params):
            continue
        r = dict(DEFAULTS[tier])
        r.update({k: v for k, v in opts.items() if k in r})
        r.update(prop=a.prop, harness=h, params=params, seed=seed)
        reqs.append(r)
    if not reqs:
        print('no jobs for', a.prop)
        return 2
    q = queue.Queue()
    for r in reqs:
        q.put(r)
    results, lock = [], threading.Lock()
    stop = threading.Event()
    load_errs = []

    def loop():
        w = Worker()
        if w.load_err:
            load_errs.append(w.load_err)
            w.stop()
            return
        try:
            while not stop.is_set():
                try:
                    r = q.get_nowait()
                except queue.Empty:
                    break
                res = w.run(r)
                with lock:
                    results.append(res)
                if a.v:
                    print(f"  {res['name']} {json.dumps(res['params'])} paths={res['stats'].get('paths')} checks={res['stats'].get('checks')} "
                          f"wall={res['wall']:.1f}s viol={len(res['violations'])} err={len(res['errors'])} "
                          f"unrep={len(res['unreproduced'])} inc={len(res['inconclusive'])}", flush=True)
        finally:
            w.stop()

    ths = [threading.Thread(target=loop) for _ in range(min(a.j, len(reqs)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if load_errs and not results:
        # the code under test cannot even be loaded: show that the untouched code fails to load, too
        p = subprocess.run([sys.executable, '-c', 'from vf import env; env.load_concrete()'], cwd=VERIF, capture_output=True, text=True, check=False)
        print(load_errs[0])
        if p.returncode != 0 and 'run_time_assurance' in p.stderr:
            path = os.path.join(VERIF, 'evidence', 'replays', f'{a.prop}-import.txt')
            with open(path, 'w', encoding='utf-8') as f:
                f.write(p.stderr)
            print(f'VIOLATION property={a.prop} replay={path} (the package does not import)')
            return 1
        return 2
    return finish(a.prop, tier, seed, reqs, results, t0, a.v, a.strict)


def finish(prop, tier, seed, reqs, results, t0, verbose, strict=False):
    from vf import jobs as jobtable
    known = known_findings(prop)
    viols, findings, unrep, inc, errs, degraded = [], [], [], [], [], []
    agg = {'paths': 0, 'forks': 0, 'checks': 0, 'infeasible': 0}
    solver, fns, labels, samples, notes = {}, set(), {}, [], []
    for r in results:
        for k in agg:
            agg[k] += r['stats'].get(k, 0)
        for k, v in r['solver'].items():
            solver[k] = solver.get(k, 0) + v
        fns |= set(r['functions'])
        for lab, d in r['labels'].items():
            L = labels.setdefault(lab, {'checked': 0, 'unsat': 0, 'trivial': 0, 'slices_only': 0})
            for k in L:
                L[k] += d.get(k, 0)
        samples += r['samples'][:1]
        notes += [n for n in r['notes'] if n not in notes]
        for v in r['violations']:
            k = next((k for k in known if matches(k, v, r)), None)
            if k is None:
                viols.append((r, v))
            elif k not in findings:
                findings.append(k)
        unrep += [(r['name'], r['params'], u) for u in r['unreproduced']]
        inc += [f"{r['name']} {json.dumps(r['params'])}: {x}" for x in r['inconclusive']]
        for e in r['errors']:
            (errs if e.startswith('internal') else degraded).append(f"{r['name']} {json.dumps(r['params'])}: {e}")
    for r, v in viols:
        print(f"{r['name']} {json.dumps(r['params'])}: {v['label']}\n    {v['detail']}")
        print(f"VIOLATION property={prop} replay={v['path']}")
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n, p, u in unrep:
        print(f'UNREPRODUCED {n} {json.dumps(p)}: {u["label"]} choices={u["choices"]} model={dict(list(u["model"].items())[:20])}')
    for e in (errs + degraded)[:4]:
        print('ERROR', e[:150], '...', e[-700:] if len(e) > 850 else e[150:])
    if len(errs + degraded) > 4:
        print(f'({len(errs + degraded) - 4} more errors)')
    if verbose:
        for x in inc:
            print('INCONCLUSIVE', x)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': jobtable.EXPLAIN.get(prop, '') + ' Every listed harness executes the real functions of /repo on symbolic inputs, '
                           'all feasible paths are followed, and each assertion is decided by z3 for every value in the stated ranges.',
            'jobs': [{'harness': r['harness'], 'params': r['params']} for r in reqs],
            'functions_encoded': sorted(fns),
            'bounds': jobtable.BOUNDS.get(prop, ''),
            'paths_explored': agg['paths'],
            'path_forks': agg['forks'],
            'assertions_checked': agg['checks'],
            'assertions_unsat': sum(d['unsat'] for d in labels.values()),
            'assertions_decided_by_normal_form': sum(d['trivial'] for d in labels.values()),
            'assertions_inconclusive': len(inc),
            'inconclusive': inc[:50],
            'not_encodable': degraded[:20],
            'unreproduced_models': len(unrep),
            'solver_queries': solver.get('queries', 0),
            'solver_seconds': round(solver.get('solver_s', 0.0), 2),
            'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.items()},
            'labels': labels,
            'witnesses': samples[:8],
            'notes': notes,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
        'assumptions': jobtable.ASSUME,
    }
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: jobs={len(results)}/{len(reqs)} paths={agg['paths']} checks={agg['checks']} queries={solver.get('queries', 0)} "
          f"solver_s={solver.get('solver_s', 0.0):.1f} inconclusive={len(inc)} violations={len(viols)} wall={time.time()-t0:.1f}s")
    if viols:
        return 1
    decided = sum(d['unsat'] for d in labels.values())
    if errs or len(results) < len(reqs) or not (decided or degraded):
        return 2
    if unrep or degraded or inc:
        print(f'{prop}: no violation; not everything was decided (see evidence): {len(degraded)} jobs left the encodable fragment, '
              f'{len(inc)} assertions undecided, {len(unrep)} solver models did not reproduce')
    if strict and (unrep or degraded or inc):
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
