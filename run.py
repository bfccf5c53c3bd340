#!/opt/venv/bin/python
"""run.py PROPERTY [--replay FILE] [--tier quick|thorough] [--sub NAME]...

Checks one property of properties.jsonl against /repo's working tree.
"""
import argparse
import ast
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(VERIF / 'lib'))
import build_core  # noqa: E402

PY = '/opt/venv/bin/python'
LEVEL = 'exploration'


def environment(core, scratch, seed, tier):
    env = {
        k: v for k, v in os.environ.items()
        if not k.startswith(('PYTEST', 'PYTHON', 'HYPOTHESIS'))
    }
    env.update(PYTHONPATH=os.pathsep.join(
        [str(VERIF / 'lib' / 'site'), str(core), str(build_core.REPO)]),
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0',
               PYTHONWARNINGS='ignore',
               PYTHONIOENCODING='utf-8',
               OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1',
               NUMBA_NUM_THREADS='1',
               VERIF_CORE=str(core),
               VERIF_REPO=str(build_core.REPO),
               VERIF_SCRATCH=str(scratch),
               VERIF_SEED=str(seed),
               VERIF_TIER=tier,
               TMPDIR=str(scratch),
               JOBLIB_TEMP_FOLDER=str(scratch),
               COLUMNS='80')
    return env


class Shard:

    def __init__(self, cfg, env, scratch, tag):
        self.cfg = cfg
        self.tag = tag
        cfg['out'] = str(scratch / f'{tag}.json')
        cfg['journal'] = str(scratch / f'{tag}.journal')
        self.err = open(scratch / f'{tag}.err', 'w+')
        self.p = subprocess.Popen(
            [PY, '-X', 'faulthandler', str(VERIF / 'lib' / 'worker.py'),
             json.dumps(cfg)],
            env=env, cwd=scratch, stdin=subprocess.DEVNULL,
            stdout=self.err, stderr=self.err, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def wait(self, timeout):
        try:
            self.p.wait(timeout)
            late = False
        except subprocess.TimeoutExpired:
            late = True
        self.kill()
        self.p.wait()
        return late

    def result(self):
        try:
            return json.loads(Path(self.cfg['out']).read_text())
        except (FileNotFoundError, json.JSONDecodeError):
            return None

    def last_case(self):
        try:
            return ast.literal_eval(
                Path(self.cfg['journal']).read_text().splitlines()[0])
        except (FileNotFoundError, IndexError, SyntaxError, ValueError):
            return None

    def log(self, n=3000):
        self.err.flush()
        return Path(self.err.name).read_text(errors='replace')[-n:]


def regressions(prop):
    out = []
    for f in sorted((VERIF / 'corpus' / prop).glob('*.json')):
        d = json.loads(f.read_text())
        out.append((d['sub'], d['case']))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--sub', action='append', default=[])
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('--budget', type=float, default=0)
    a = ap.parse_args()
    prop = a.property.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()

    def log(*x):
        print(f'[{prop} {time.time() - t0:6.1f}s]', *x, flush=True)

    core, how = build_core.get_core(log)
    log('tnco_core:', how)
    nshards = a.shards or int(os.environ.get('VERIF_SHARDS') or 0) or min(
        8, os.cpu_count() or 1)
    budget = a.budget or (40.0 if tier == 'quick' else 600.0)
    scratch = Path(tempfile.mkdtemp(prefix=f'verif-{prop}-'))
    try:
        rc = explore(a, prop, tier, seed, t0, log, core, how, nshards, budget,
                     scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def explore(a, prop, tier, seed, t0, log, core, how, nshards, budget, scratch):
    env = environment(core, scratch, seed, tier)
    base = dict(property=prop, tier=tier, seed=seed, nshards=nshards,
                budget_s=budget, generate=True, only=a.sub, scale=a.scale,
                shrink_s=30.0 if tier == 'quick' else 90.0, cases=[])

    def report(sub, case, error, tb=''):
        d = VERIF / 'replays'
        d.mkdir(exist_ok=True)
        f = d / f'{prop}-{sub}.json'
        f.write_text(json.dumps(dict(property=prop, sub=sub, case=case,
                                     error=error, traceback=tb), indent=1))
        print(f'  sub-check: {sub}\n  case: {case[:1200]}\n  error: '
              f'{error[:1200]}')
        print(f'VIOLATION property={prop} replay={f}', flush=True)

    # Replay a single file
    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        s = Shard(dict(base, shard=0, generate=False,
                       cases=[(d['sub'], d['case'])]), env, scratch, 'replay')
        late = s.wait(300)
        r = s.result()
        if late or s.p.returncode < 0:
            report(d['sub'], d['case'], 'crash or hang on replay')
            return 1
        if not r or not r.get('done'):
            print(s.log())
            return 2
        for x in r['failures']:
            report(x['sub'], x['case'], x['error'], x['traceback'])
            return 1
        print('replay: the case passes')
        return 0

    reg = regressions(prop)
    if a.sub:
        reg = [r for r in reg if r[0] in a.sub]
    shards = []
    for i in range(nshards):
        cfg = dict(base, shard=i, cases=reg[i::nshards])
        shards.append(Shard(cfg, env, scratch, f's{i}'))
    hard = time.time() + budget + base['shrink_s'] + (90 if tier == 'quick'
                                                      else 150)
    failures, problems = [], []
    results = []
    for s in shards:
        late = s.wait(max(1.0, hard - time.time()))
        r = s.result()
        if r:
            results.append(r)
            failures += r['failures']
        if late or s.p.returncode < 0:
            last = s.last_case()
            if last is None:
                problems.append(f'shard died without a case: {s.log()}')
                continue
            what = 'hang' if late else f'killed by signal {-s.p.returncode}'
            # is it the case, or the machine?
            t = Shard(dict(base, shard=0, generate=False, cases=[last]), env,
                      scratch, f're{len(failures)}{len(problems)}')
            late2 = t.wait(120)
            r2 = t.result()
            if late2 or t.p.returncode < 0:
                failures.append(dict(sub=last[0], case=last[1],
                                     error=f'process {what}',
                                     traceback=s.log()))
            elif r2 and r2['failures']:
                failures += r2['failures']
            elif late:
                # slow machine: what ran counts, the rest was not explored
                log(f'a shard ran out of time in {last[0]}')
            else:
                problems.append(f'shard {what}, not reproducible: {s.log()}')
        elif not r or not r.get('done'):
            problems.append(s.log())

    ev = collect(results)
    n_ev = sum(x['evaluations'] for x in ev.values())
    replayed = sum(r.get('replayed', 0) for r in results)
    distinct = sum(x['distinct_nontrivial'] for x in ev.values())
    samples = [s for x in ev.values() for s in x.pop('samples')[:2]]
    rules = {}
    for r in results:
        for k, v in r['subs'].items():
            rules[k] = v.get('rule') or 'every case'
    found = {}
    for r in results:
        found.update(r.get('known', {}))
    for k, text in sorted(found.items()):
        print(f'KNOWN-FINDING: property={prop} {text}', flush=True)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=LEVEL,
        coverage=dict(
            evaluations=n_ev + replayed,
            distinct_nontrivial=distinct,
            rule='cases are drawn by Hypothesis strategies (see the check); '
            'non-trivial means: ' + '; '.join(
                f'{k}: {v}' for k, v in rules.items()),
            samples=samples[:24] or ['none'],
            sub_checks=ev,
            committed_regressions_replayed=replayed,
            shards=nshards,
            known_findings=found,
            tnco_core=how),
        assumptions=[
            'the oracles in /verif/checks and /verif/lib/oracles.py',
            'numpy, the Python standard library, and the libraries named in '
            'DESIGN.md as references'
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(failures))
    d = VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    (d / f'{prop}.json').write_text(json.dumps(evidence, indent=1) + '\n')
    for k, v in ev.items():
        log(f'  {k}: {v["evaluations"]} cases ({v["planned"]} planned), '
            f'{v["distinct_nontrivial"]} distinct non-trivial, '
            f'{v["rejected"]} rejected, {v["wall_s"]}s {v["tags"]}')
    if failures:
        failures.sort(key=lambda f: len(f['case']))
        x = failures[0]
        print(x['traceback'][-2500:])
        report(x['sub'], x['case'], x['error'], x['traceback'])
        return 1
    if problems:
        print('ERROR: the check could not be completed')
        print('\n'.join(problems)[-6000:])
        return 2
    if not n_ev:
        print('ERROR: no case was generated')
        return 2
    print(f'OK property={prop}: {n_ev} cases, {distinct} distinct non-trivial')
    return 0


def collect(results):
    ev = {}
    for r in results:
        for k, v in r['subs'].items():
            e = ev.setdefault(
                k, dict(evaluations=0, rejected=0, planned=0, wall_s=0.0,
                        distinct=set(), tags={}, samples=[]))
            e['evaluations'] += v['evaluations']
            e['rejected'] += v['rejected']
            e['planned'] += v['planned']
            e['wall_s'] = max(e['wall_s'], v['wall_s'])
            e['distinct'].update(v['nontrivial'])
            for t, n in v['tags'].items():
                e['tags'][t] = e['tags'].get(t, 0) + n
            e['samples'] += v['samples']
    for e in ev.values():
        e['distinct_nontrivial'] = len(e.pop('distinct'))
        e['tags'] = dict(sorted(e['tags'].items()))
    return ev


if __name__ == '__main__':
    main()
