import json
import sys

from vf import env, registry


def main():
    env.load_concrete()
    prop, tier = sys.argv[1:3]
    hs = registry.load_all()
    out, exp, bnd = [], [], []
    for h in hs.values():
        if prop not in h.prop:
            continue
        doc = (h.fn.__doc__ or '').strip()
        exp.append(f'{h.name}: {" ".join(doc.split())}')
        if 'bounds' in h.opts:
            bnd.append(f"{h.name}: {h.opts['bounds']}")
        for p in h.quick + (h.thorough if tier == 'thorough' else []):
            out.append([h.name, p, {k: v for k, v in h.opts.items() if k != 'bounds'}])
    print(json.dumps({'jobs': out, 'explain': ' | '.join(exp), 'bounds': ' | '.join(bnd)}))


main()
