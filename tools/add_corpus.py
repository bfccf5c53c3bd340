"""add_corpus.py PROP SUB NAME CASE: a regression case every run starts with."""
import ast
import json
import sys
from pathlib import Path

prop, sub, name, case = sys.argv[1:]
ast.literal_eval(case)
d = Path(__file__).resolve().parents[1] / 'corpus' / prop
d.mkdir(parents=True, exist_ok=True)
(d / f'{name}.json').write_text(json.dumps(
    dict(property=prop, sub=sub, case=case, error='', traceback=''),
    indent=1) + '\n')
