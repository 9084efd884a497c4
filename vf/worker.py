"""Executes symbolic jobs: one JSON request per line on stdin, one JSON reply per line on the original stdout."""
from __future__ import annotations

import json
import os
import resource
import sys
import warnings


def main():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (20 * 2**30, 20 * 2**30))
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    from vf import env
    env.setup_paths()
    from vf import core, npsym, registry, solve, sym
    try:
        env.load_symbolic()
        load_err = None
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        load_err = traceback.format_exc(limit=-6)
    out.write(json.dumps({'ready': True, 'load_err': load_err}) + '\n')
    seen_mods = set()
    for line in sys.stdin:
        req = json.loads(line)
        h = registry.load(req['harness'])
        mod = sys.modules[h.fn.__module__]
        for m in [mod] + [sys.modules[k] for k in list(sys.modules) if k.startswith('vf.harness') or k in ('vf.lib', 'vf.gen')]:
            if m.__name__ not in seen_mods:
                seen_mods.add(m.__name__)
                npsym.instrument_module(m)
        sym.reset_pool()
        for k in solve.STATS:
            solve.STATS[k] = 0 if not isinstance(solve.STATS[k], float) else 0.0
        env.ENCODED.clear()
        env.restart_monitor()
        job = core.Job(req['prop'], req['harness'], h.fn, req['params'], seed=req['seed'], budget_s=req['budget_s'], fork_ms=req['fork_ms'],
                       max_paths=req['max_paths'], wall_s=req['wall_s'])
        try:
            job.explore()
        except Exception as e:  # pylint: disable=broad-except
            import traceback
            job.errors.append('internal: ' + traceback.format_exc(limit=-6))
            job.wall = 0
        r = job.result()
        r['functions'] = sorted(env.ENCODED)
        out.write(json.dumps(r, default=str) + '\n')


if __name__ == '__main__':
    main()
