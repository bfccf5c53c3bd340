"""Writes MANIFEST.json: every property with a check is claimed."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PY = '/opt/venv/bin/python'
TECH = 'property-based testing (Hypothesis) against '
ORACLE = {
    'C01': 'a path simulator written from the definition',
    'C02': 'a path simulator: sets of pairwise contractions of original tensors',
    'C03': 'a reference model of the tree (indices surviving below each node)',
    'C04': 'a reference model of the tree, over generated histories of updates',
    'C05': 'exact integer recomputation of the cost, over histories of updates',
    'C06': 'recomputed widths of sliced trees, over histories of updates',
    'C07': 'exact recomputation of the sliced cost, over histories of updates',
    'C08': 'a second optimizer run in lock-step, with pickling at any point',
    'C09': 'the documented formula in exact/high precision and binomial bounds',
    'C10': 'exact integer/rational evaluation of the documented formulas',
    'C11': 'recomputed costs and reference einsum of the returned paths',
    'C12': 'recomputed sliced costs, widths and reference sliced einsum',
    'C13': 'differential runs over n_jobs, scheduling and number of runs',
    'C14': 'reference einsum before and after loading, replay of fuse paths',
    'C15': 'reference einsum (joint index space)',
    'C16': 'a path simulator and exhaustive search for allowed contractions',
    'C17': 'reference einsum with Kronecker deltas',
    'C18': 'reference einsum and numpy linear algebra',
    'C19': 'a state-vector simulator',
    'C20': 'a state-vector simulator and the front ends\' own simulators',
    'C21': 'dense linear algebra on the union of the qubits',
    'C22': 'the exact output distribution, with statistical bounds',
    'C23': 'round trip through every format, with byte-level checks of files',
    'C24': 'one abstract network rendered in every input form',
    'C25': 'a Python set of positions; crash detection in a child process',
    'C26': 'exact rationals and mpmath-like high precision references',
    'C27': 'frozenset plus a list of first occurrences',
    'C28': 'sequential execution, resource census before and after',
    'C29': 'an independent well-formedness predicate and a model of exchanges',
    'C30': 'an independent consistency predicate',
    'C31': 'independent graph computations on generated networks',
    'C32': 'the library call with the same options, run as child processes',
}
checks = []
claimed = set()
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    i = json.loads(line)['id']
    if not (ROOT / 'checks' / f'{i.lower()}.py').exists():
        continue
    claimed.add(i)
    checks.append(
        dict(property=i,
             quick_cmd=f'{PY} run.py {i} --tier quick',
             thorough_cmd=f'{PY} run.py {i} --tier thorough',
             technique=TECH + ORACLE[i],
             level='exploration',
             level_note='Generated inputs and histories within the bounds of '
             'DESIGN.md, judged by an independent oracle; shows absence of '
             'violations only on what was explored.'))
na = []
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    i = json.loads(line)['id']
    if i not in claimed:
        na.append(dict(property=i, reason='the check is not written yet'))
m = dict(version=1,
         setup_cmd=f'{PY} lib/build_core.py',
         checks=checks,
         not_applicable=na)
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed')
