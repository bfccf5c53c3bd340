"""C13: the app is reproducible, whatever the parallelism."""
import os
import threading
import time
from collections import Counter

from apps import *  # noqa: F403
from checks.c11 import app_cases, options
from checks.c12 import limit
from harness import Sub, check, expect_raises, skip, st
from twin import twin
from tnco.app import Optimizer


def solve(c, n_jobs=1, **kw):
    tn0 = tensor_network(c)
    c = dict(c, timeout=None)
    kw2 = dict(update_slices=c['update_slices'])
    mw = limit(c, tn0) if c['finite'] else None
    if not c['finite']:
        kw2 = {}
    opt = Optimizer(n_jobs=n_jobs, max_width=mw, cost_type=c['cost_type'],
                    width_type=c['width_type'], seed=c['seed'])
    return quiet(opt.optimize, tn0, **options(c, **kw2, **kw)), mw


def order(xs):
    return tuple(sorted(xs, key=repr))


def show_tn(tn):
    return (tn.ts_inds, order(tn.output_inds), order(tn.sparse_inds),
            order(tn.dims.items()), order(tn.tags.items()),
            [None if a is None else (a.shape, a.ravel().tolist())
             for a in tn.arrays])


def show(r):
    return (list(map(tuple, r.path)), str(r.cost),
            list(map(str, r.disconnected_costs)),
            [list(map(tuple, p)) for p in r.disconnected_paths],
            [order(s) for s in getattr(r, 'disconnected_slices', ())],
            order(getattr(r, 'slices', ())))


def picture(c, **kw):
    (tn, res), _ = solve(c, **kw)
    return repr((show_tn(tn), [show(r) for r in res]))


def tags(c):
    return ['finite' if c['finite'] else 'infinite', f'{c["n_runs"]} runs']


def run_repeat(c):
    (tn, res), _ = solve(c)
    got = repr((show_tn(tn), [show(r) for r in res]))
    check(got == picture(c), 'another result for the same seed')
    # more runs: the same ones, and others
    (tn2, res2), _ = solve(dict(c, n_runs=c['n_runs'] + c['more']))
    check(repr(show_tn(tn2)) == repr(show_tn(tn)), 'another network')
    a, b = (Counter(repr(show(r)) for r in x) for x in (res, res2))
    check(not a - b, 'the runs depend on how many there are')
    return dict(nontrivial=len(tn) > 3, tags=tags(c))


def run_processes(c):
    check(picture(c) == twin('checks.c13', 'picture', c),
          'another result in another process (other order of sets)')
    return dict(nontrivial=len(c['ts']) > 3, tags=tags(c))


def run_jobs(c):
    (tn, res), mw = solve(c)
    want = repr((show_tn(tn), [show(r) for r in res]))
    got = picture(c, n_jobs=c['n_jobs'])
    check(got == want, f'another result with n_jobs={c["n_jobs"]}')
    return dict(nontrivial=len(tn) > 3 and c['n_runs'] > 1,
                tags=tags(c) + [f'n_jobs={c["n_jobs"]}'])


def quiet_after(before):
    """No thread and no shared memory is left."""
    end = time.monotonic() + 5
    while True:
        ts = [t for t in threading.enumerate() if isinstance(
            t, threading.Timer)]
        shm = {f for f in os.listdir('/dev/shm') if f.startswith('psm_')}
        if not ts and not shm - before:
            return
        if time.monotonic() > end:
            break
        time.sleep(.01)
    check(not ts, 'a timer is left', ts)


def run_timeout(c):
    c = dict(c, betas=(0, 100), n_steps=10**8, n_runs=c['n_jobs'] + 1)
    tn0 = tensor_network(c)
    mw = limit(c, tn0) if c['finite'] else None
    opt = Optimizer(n_jobs=c['n_jobs'], max_width=mw,
                    cost_type=c['cost_type'], width_type=c['width_type'],
                    seed=c['seed'])
    t = time.monotonic()
    tn, res = quiet(opt.optimize, tn0, **options(c, timeout=c['wait']))
    t = time.monotonic() - t
    check(t < 60 + c['wait'], 'the timeout is ignored', t)
    check_results(tn, res, c, n_runs=c['n_runs'], n_projs=c['n_projs'],
                  cost_type=c['cost_type'], max_width=mw,
                  width_type=c['width_type'])
    quiet_after(set())
    return dict(nontrivial=len(tn) > 3, tags=tags(c))


def run_fail(c):
    """Costs too large for the type: an error, and nothing is left behind."""
    k = c['k']
    ts = tuple((f'x{i}', f'x{i + 1}') for i in range(k))
    c = dict(c, ts=ts, dims={f'x{i}': 2**50 for i in range(k + 1)},
             out=('x0', f'x{k}'), sparse=None, n_projs=None, arrays='none',
             cost_type='float32', fuse=0)
    before = {f for f in os.listdir('/dev/shm') if f.startswith('psm_')}
    expect_raises(lambda: solve(c, n_jobs=c['n_jobs']), Exception,
                  'the cost does not fit')
    quiet_after(before)
    return dict(nontrivial=True, tags=tags(c) + [f'n_jobs={c["n_jobs"]}'])


def extra(cases, **kw):
    return st.tuples(
        cases,
        st.fixed_dictionaries(
            dict(finite=st.booleans(), more=st.integers(1, 3),
                 n_jobs=st.sampled_from([2, 3, -1]), **kw))).map(
                     lambda x: {**x[0], **x[1]})


C = extra(app_cases(min_t=4, max_t=9))
R = 'the network has more than three tensors'
SUBS = [
    Sub('repeat', C, run_repeat, 1000, 60000, R, 1),
    Sub('processes', extra(app_cases(min_t=4, max_t=9,
                                     namings=('str', 'tuple', 'mixed'))),
        run_processes, 1200, 60000, R, 1),
    Sub('jobs', C.map(lambda c: dict(c, n_runs=max(c['n_runs'], c['more'] + 1))),
        run_jobs, 100, 3000, R + ', several runs', 1, shards=2),
    Sub('timeout', extra(app_cases(min_t=4, max_t=9),
                         wait=st.sampled_from([0, 0.01, 0.1])).map(
                             lambda c: dict(c, n_jobs=1 + c['n_jobs'] % 2)),
        run_timeout, 24, 800, R, .7, shards=4),
    Sub('fail', extra(app_cases(), k=st.integers(3, 6)).map(
        lambda c: dict(c, n_jobs=c['more'])), run_fail, 60, 1000,
        'every case', .5, shards=4),
]
