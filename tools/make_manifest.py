"""Write MANIFEST.json from properties.jsonl and the notes below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B'

NOTES = {
    'C01': 'differential against a scalar tree walk, over generated forests with garbage in unused slots',
    'C02': 'differential against explicit tree walks, over generated trees and forests',
    'C03': 'exact arithmetic oracle on distinct values, all integer types and floats with exact midpoints',
    'C04': 'double precision definition of the grid',
    'C05': 'differential against counting cutpoints below the value, all search methods',
    'C06': 'recomputation of predictions from raw predictors, metamorphic relation on intervals',
    'C07': 'invariant over the history of generated chains, starting from generated states',
    'C08': 'invariant over the history of generated chains; generated one-step states',
    'C09': 'invariant over the history of generated chains',
    'C10': 'reference model of the move decision recomputed in double precision for each tree of each step',
    'C11': 'goodness of fit of sampled proposals against exact probabilities enumerated from the state, two-stage confirmation',
    'C12': 'exact enumeration of small tree spaces and joint distribution (prior/data) tests, two-stage confirmation',
    'C13': 'standardization of sampled values with the exact conditionals in generated chains, two-stage confirmation',
    'C14': 'metamorphic relation with the unthinned chain; recording callback',
    'C15': 'metamorphic relations (repeat, jit, vmap, key from seed), snapshots of the inputs',
    'C16': 'captured log parsed and compared with an independent recording callback',
    'C17': 'metamorphic relation, bit-exact on dyadic data',
    'C18': 'numpy/scipy reference in double precision, and distribution of prior draws',
    'C19': 'differential with the unbatched function, byte accounting',
    'C20': 'metamorphic relations (options, data order)',
    'C21': 'differential with numpy and scipy',
    'C22': 'generated degenerate datasets and settings',
    'C23': 'fault injection in well-formed trees; parsing of printed trees',
    'C24': 'metamorphic relations (containers, increasing maps of predictors), rejection of incompatible inputs',
    'C25': 'differential of compiled against direct execution',
    'C26': 'definition of each field of the initial state',
    'C27': 'recomputation of attributes and diagnostics from the saved samples, also corrupted ones',
    'C29': 'bound on the memory and length of compiled programs, over sizes spanning many orders of magnitude; nothing is executed',
    'C28': 'the invariants, differential and metamorphic relations of other properties, with 64 bit types enabled',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    checks = []
    for p in props:
        pid = p['id']
        assert os.path.exists(os.path.join(HERE, 'checks', f'{pid.lower()}.py')), pid
        checks.append(dict(
            property=pid,
            quick_cmd=f'{PY} check.py {pid} --tier quick',
            thorough_cmd=f'{PY} check.py {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json',
            technique='property-based testing (Hypothesis generators with shrinking): ' + NOTES[pid],
            level='exploration',
            level_note='Randomized search over generated cases: no violation found in the explored cases is not a proof. CPU' + (', 64 bit types.' if pid == 'C28' else ', 32 bit types.'),
        ))
    m = dict(version=1, setup_cmd=f'{PY} tools/selfcheck.py', checks=checks, not_applicable=[])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
