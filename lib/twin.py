"""A second process with another hash seed: what must not depend on the order
of sets is computed there again.

`twin(module, function, case)` calls the function in that process and returns
its answer (a string).  Started as a program, this file is that process.
"""
import ast
import importlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_P = {}


def twin(module, function, case, hash_seed=4242):
    p = _P.get(hash_seed)
    if p is None:
        p = _P[hash_seed] = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)],
            env=dict(os.environ, PYTHONHASHSEED=str(hash_seed)),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    try:
        p.stdin.write(repr((module, function, repr(case))) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ''
    if not line:
        _P.pop(hash_seed)
        raise AssertionError('the other process ended')
    ok, ans = ast.literal_eval(line)
    if not ok:
        raise AssertionError('in the other process: ' + ans)
    return ans


def main():
    sys.path[:0] = [os.path.dirname(HERE), HERE]
    import warnings
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        module, function, case = ast.literal_eval(line)
        try:
            f = getattr(importlib.import_module(module), function)
            ans = (True, str(f(ast.literal_eval(case))))
        except BaseException as e:  # reported to the parent
            ans = (False, f'{type(e).__name__}: {e}'[:1000])
        out.write(repr(ans) + '\n')
        out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
