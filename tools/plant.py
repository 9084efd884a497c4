"""python3 tools/plant.py SPEC.py [id...]: builds and confirms planted bugs described in SPEC.py (BUGS list) under /verif/seeded."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

SEED = os.environ.get('SEED_DIR', '/verif/seeded')
WT = '/tmp/wt'
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_prelude.py'), encoding='utf-8').read()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inbox(wt, cmd, timeout=600):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {wt} /repo && cd /repo && {cmd}'], capture_output=True, text=True, timeout=timeout)


def one(b, check=True, tests=True):
    bid = b['id']
    wt = f'{WT}/{bid}'
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(WT, exist_ok=True)
    sh(f'cp -a /repo {wt}')
    msgs = []
    try:
        for f, old, new, *first in b['edits']:
            p = f'{wt}/{f}'
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1 and not (first and s.count(old)):
                return bid, f'EDIT FAILED: {s.count(old)} occurrences in {f}: {old[:60]!r}'
            open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
        d = f'{SEED}/{bid}'
        os.makedirs(d, exist_ok=True)
        diff = sh(f'git -C {wt} diff').stdout
        open(f'{d}/patch.diff', 'w', encoding='utf-8').write(diff)
        open(f'{d}/demo.py', 'w', encoding='utf-8').write(PRELUDE + '\n\n# ---- demonstration\n' + b['demo'].strip('\n') + '\n')
        open(f'{d}/demo.sh', 'w', encoding='utf-8').write('#!/bin/bash\n# exit 0: behaves as promised; nonzero: broken\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w', encoding='utf-8'), indent=1)
        r = sh(f'cd /repo && bash {d}/demo.sh')
        if r.returncode != 0:
            msgs.append('DEMO FAILS ON CLEAN: ' + (r.stdout + r.stderr)[-600:])
        r = inbox(wt, f'bash {d}/demo.sh')
        if r.returncode == 0:
            msgs.append('DEMO PASSES WITH BUG')
        else:
            msgs.append('demo: ' + (r.stdout + r.stderr).strip().splitlines()[-1][:160])
        if tests:
            out = f'/tmp/wt/{bid}.json'
            inbox(wt, f'bash /opt/vp/test.sh {out}')
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res = json.load(open(out))
            passed = set(res.get('passed', []))
            lost = base - passed
            if lost:
                msgs.append(f'TESTS FAIL: {sorted(lost)[:3]}')
            os.unlink(out)
        if check:
            for prop in [b['prop']] + b.get('also', []):
                env = dict(os.environ, VF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick')
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'vf.run', prop, '--tier', 'quick', '-j', '4'], cwd='/verif', env=env, capture_output=True, text=True, timeout=1500)
                v = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION')]
                lab = [ln.strip() for ln in r.stdout.splitlines() if 'label' in ln or ln.startswith('  ')][:2]
                msgs.append(f'{prop}: ' + (f'CAUGHT {lab[:1]}' if r.returncode == 1 and v else f'MISSED rc={r.returncode} {r.stdout.strip().splitlines()[-1:]}'))
        return bid, ' | '.join(msgs)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ns = {}
    exec(compile(open(sys.argv[1], encoding='utf-8').read(), sys.argv[1], 'exec'), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    bugs = [b for b in ns['BUGS'] if not ids or b['id'] in ids]
    with cf.ThreadPoolExecutor(2) as ex:
        for bid, m in ex.map(lambda b: one(b, '--nocheck' not in sys.argv, '--notests' not in sys.argv), bugs):
            print(bid, m, flush=True)


if __name__ == '__main__':
    main()
