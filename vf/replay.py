"""Concrete replay of a counterexample on the unmodified code of /repo.  usage: python -m vf.replay FILE"""
from __future__ import annotations

import json
import sys
import traceback
import warnings


def main(path):
    with open(path, encoding='utf-8') as f:
        doc = json.load(f)
    from vf import core, env, registry
    env.load_concrete()
    warnings.simplefilter('ignore')
    h = registry.load(doc['harness'])
    rc = 0
    for i, m in enumerate(doc['models']):
        rc = one(doc, m, h, core, env)
        if rc == 1:
            print(f'MODEL {i}')
            return 1
    return rc


def one(doc, m, h, core, env):
    model = {k: n / d for k, (n, d) in m['reals'].items()}
    model.update({'bool:' + k: v for k, v in m['bools'].items()})
    ctx = core.CTX = core.ConcCtx(model, m['choices'])
    try:
        h.fn(ctx, **doc['params'])
    except core.Violated as e:
        print('inputs:', json.dumps({k: model[k] for k in sorted(model)}), 'choices:', json.dumps(m['choices']))
        print(f'REPRODUCED {e.label} {e.detail}')
        return 1
    except core.NotReproduced:
        print('NOT-REPRODUCED the inputs violate an assumption of the property')
        return 3
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if any(fr.filename.startswith(env.REPO + '/run_time_assurance') for fr in tb):
            print(f'REPRODUCED the code raised {type(e).__name__}: {str(e)[:300]}')
            return 1
        print('NOT-REPRODUCED exception outside the code under test')
        return 4
    print('NOT-REPRODUCED all checks of the harness hold on this input')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
