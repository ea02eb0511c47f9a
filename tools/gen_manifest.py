"""Write MANIFEST.json from the table below and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

NA = {
    'C50': 'convergence of an iterative numerical method within a bounded number of iterations quantifies over run-time floating point behaviour; no sound static argument in reach bounds it',
    'C51': 'termination and accuracy of the GJK search depend on the geometry met at run time; no ranking argument exists for the loop as written',
    'C52': 'a statement about whole trajectories with floating point error; only its per-step ingredients (C04, C09, C11, C12) are decidable from the source',
    'C53': 'termination of the halving loop depends on the penetrations met at run time (and is not guaranteed by the algorithm after a position correction)',
    'C54': 'convergence of gradient descent on a non-convex simulation loss is a run-time quantity',
    'C55': 'wall-clock behaviour is not determined by the source',
}
TECH = {
    'default': 'abstract interpretation of the syntax trees over a value-number domain (rational normal forms, gated by path conditions)',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    import importlib
    have = {}
    from bin_check import MODS
    for m in MODS:
        try:
            mod = importlib.import_module('checks.' + m)
        except ModuleNotFoundError:
            continue
        tech = getattr(mod, 'TECH', {})
        for k in mod.CHECKS:
            have[k] = tech.get(k, TECH['default'])
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in have:
            checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s' % i, 'thorough_cmd': 'python3 bin/check.py %s --thorough' % i,
                           'technique': have[i], 'level': 'other',
                           'level_note': 'static analysis: every obligation is decided from the current sources for all symbolic inputs of the scenes listed in the evidence; real arithmetic, library calls by their models'})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no static check built (yet)')})
    json.dump({'version': 1, 'setup_cmd': 'python3 bin/check.py --selftest', 'checks': checks, 'not_applicable': na},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(V, 'tools'))
    main()
