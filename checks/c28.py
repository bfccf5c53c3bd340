"""C28: Parallel runs every task once, in order, and releases its resources."""
import contextlib
import io
import os
import pickle
import shutil
import struct
import tempfile
import threading
import time
import warnings

from harness import Sub, check, expect_raises, st
from tnco.parallel import Buffer, Parallel

SHM = '/dev/shm'


# ---- what must not be left behind ---------------------------------------------
def census():
    """Threads started by the code under test; shared memory of this process."""
    threads = {t for t in threading.enumerate()
               if t.is_alive() and ('Timer' in type(t).__name__ or
                                    'update_progress' in repr(t))}
    return threads, mapped()


def mapped():
    """Names of the segments that exist and that this process has mapped."""
    names = set()
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.rstrip('\n').partition(SHM + '/')[2]
            if p.startswith('psm_') and not p.endswith(' (deleted)'):
                names.add(p)
    return {x for x in names if os.path.exists(os.path.join(SHM, x))}


def check_released(before, what):
    deadline = time.monotonic() + 5
    while True:
        threads, shm = census()
        threads -= before[0]
        shm -= before[1]
        if not threads and not shm:
            return
        if time.monotonic() > deadline:
            check(False, what, 'left behind:', threads, shm)
        time.sleep(.01)


# ---- Buffer ----------------------------------------------------------------------
INTS = {'b': (-2**7, 2**7 - 1), 'B': (0, 2**8 - 1), 'h': (-2**15, 2**15 - 1),
        'H': (0, 2**16 - 1), 'i': (-2**31, 2**31 - 1), 'I': (0, 2**32 - 1),
        'l': (-2**63, 2**63 - 1), 'L': (0, 2**64 - 1), 'q': (-2**63, 2**63 - 1),
        'Q': (0, 2**64 - 1)}


def items(dtype):
    if dtype in INTS:
        lo, hi = INTS[dtype]
        return st.one_of(st.integers(lo, hi), st.sampled_from([0, lo, hi]))
    if dtype == '?':
        return st.booleans()
    if dtype == 'c':
        return st.binary(min_size=1, max_size=1)
    return st.floats(width={'e': 16, 'f': 32, 'd': 64}[dtype], allow_nan=False)


def bad_items(dtype):
    if dtype in INTS:
        lo, hi = INTS[dtype]
        return st.sampled_from([lo - 1, hi + 1, 'x', None, 2**70])
    if dtype == 'c':
        return st.sampled_from([b'', b'ab', 'a', 1])
    if dtype == '?':
        return st.sampled_from([True])
    return st.sampled_from(['x', None, b'1'])


@st.composite
def buffers(draw):
    dtype = draw(st.sampled_from(sorted(INTS) + ['?', 'c', 'e', 'f', 'd']))
    xs = draw(st.one_of(st.integers(1, 20),
                        st.lists(items(dtype), min_size=1, max_size=12)))
    n = xs if isinstance(xs, int) else len(xs)
    pos = st.one_of(st.integers(0, n - 1), st.integers(-n, -1),
                    st.integers(0, n - 1))
    bad = st.sampled_from([n, n + 1, -n - 1, -n - 2, 10 * n, -10 * n, 10**6])
    op = st.one_of(
        st.tuples(st.just('set'), pos, items(dtype)),
        st.tuples(st.just('set'), pos, items(dtype)),
        st.tuples(st.just('get'), pos, st.none()),
        st.tuples(st.just('pickle'), st.integers(0, 9), st.none()),
        st.tuples(st.just('bad-set'), pos, bad_items(dtype)),
        st.tuples(st.just('out'), bad, items(dtype)))
    return dict(dtype=dtype, xs=xs, ops=draw(st.lists(op, max_size=15)),
                how=draw(st.sampled_from(['list', 'tuple', 'iter'])))


def run_buffer(case):
    dtype, xs = case['dtype'], case['xs']
    if isinstance(xs, int):
        b, model = Buffer(xs, dtype), [b'\0' if dtype == 'c' else 0] * xs
    else:
        b = Buffer(dict(list=list, tuple=tuple, iter=iter)[case['how']](xs),
                   dtype)
        model = list(xs)
    views = [b]
    try:
        def is_model(v):
            check(len(v) == len(model) and list(v) == model, 'content',
                  list(v), model)
            check([v[i - len(model)] for i in range(len(model))] == model,
                  'negative positions')
            check(repr(v) == repr(list(v)) and v.dtype == dtype, 'repr')
            kind = float if dtype in 'efd' else dict(c=bytes).get(dtype, int)
            if dtype == '?':
                kind = bool
            check(all(type(a) is kind for a in v), 'types')

        is_model(b)
        for op, i, x in case['ops']:
            v = views[abs(i) % len(views)]
            if op == 'set':
                v[i] = x
                model[i] = x
            elif op == 'get':
                check(v[i] == model[i], 'get', i)
            elif op == 'pickle':
                views.append(pickle.loads(pickle.dumps(v)))
            elif op == 'bad-set':
                if dtype != '?':
                    def f():
                        v[i] = x
                    expect_raises(f, Exception, (dtype, x))
                    # A failed assignment says nothing about its own item
                    v[i] = model[i]
            else:
                def f():
                    v[i] = x
                expect_raises(lambda: v[i], Exception, f'position {i}')
                expect_raises(f, Exception, f'position {i}')
            for w in views:
                check(list(w) == model, op, i, x, list(w), model)
        for v in views:
            is_model(v)
    finally:
        for v in views[1:]:
            v.shm.close()
        b.shm.close()
        b.shm.unlink()
    return dict(nontrivial=len(case['ops']) >= 2,
                tags=[dtype] + ['pickled'] * (len(views) > 1))


# ---- Parallel -----------------------------------------------------------------------
class Oops(Exception):
    pass


ERRORS = ('ValueError', 'KeyError', 'ZeroDivisionError', 'Oops', 'TypeError')
BUFS = (('speed', 'd'), ('count', 'q'), ('flag', 'b'), ('small', 'f'))


def make_core(path, plan, names, n):
    """A task; everything it uses is inside (it goes to other processes)."""

    def core(*args, idx, status, stop, **kwargs):
        import os
        import time
        with open(path, 'ab', buffering=0) as f:
            f.write(b'%d\n' % idx)
        bufs = {k: kwargs.pop(k) for k in names}
        seen = []
        p = plan[idx]
        for k, b in bufs.items():
            if len(b) != n:
                seen.append((k, 'length', len(b)))
            if b[idx] != 0:
                seen.append((k, 'start', b[idx]))
        if len(status) != n or len(stop) != n:
            seen.append(('length', len(status), len(stop)))
        for step in range(p['steps']):
            for j, (k, b) in enumerate(bufs.items()):
                b[idx] = (idx * 7 + step + j) % 100
            status[idx] = (step + 1) / p['steps']
            if p['sleep']:
                time.sleep(p['sleep'])
            for j, (k, b) in enumerate(bufs.items()):
                if b[idx] != (idx * 7 + step + j) % 100:
                    seen.append((k, step, b[idx]))
            if not 0 <= status[idx] - step / p['steps'] <= 1:
                seen.append(('status', step, status[idx]))
        stopped = bool(stop[idx])
        if p['wait']:
            t = time.monotonic()
            while not stop[idx] and time.monotonic() < t + 20:
                time.sleep(.005)
            stopped = bool(stop[idx])
        if p['error']:
            if p['error'] == 'Oops':
                class Oops(Exception):
                    pass
                raise Oops(f'task {idx}')
            if p['error'] == 'Exit':
                raise SystemExit(f'task {idx}')
            raise getattr(__builtins__ if not isinstance(__builtins__, dict)
                          else __import__('builtins'), p['error'])(
                              f'task {idx}')
        return (idx, args, kwargs, stopped, seen, os.getpid())

    return core


@st.composite
def tasks(draw, n_jobs, max_n, timeouts):
    n = draw(st.integers(0, max_n))
    na = draw(st.integers(0, 2))
    nk = draw(st.integers(0 if na else 1, 2))
    val = st.one_of(st.integers(-5, 5), st.text('ab', max_size=2), st.none(),
                    st.lists(st.integers(0, 3), max_size=2))
    col = st.lists(val, min_size=n, max_size=n)
    timeout = draw(st.sampled_from(timeouts))
    fails = draw(st.sampled_from([0, 0, 0, 1, 2])) if n else 0
    plan = [dict(steps=draw(st.integers(1, 4)), sleep=0, wait=False, error=None)
            for _ in range(n)]
    for p in plan:
        if draw(st.integers(0, 7)) == 0:
            p['sleep'] = .01
    for _ in range(fails):
        plan[draw(st.integers(0, n - 1))]['error'] = draw(
            st.sampled_from(ERRORS))
    short = timeout is not None and timeout < 1
    if short and n:
        for i in range(n):
            if draw(st.booleans()):
                plan[i]['wait'] = True
    return dict(n=n, args=[draw(col) for _ in range(na)],
                kwargs=dict((k, draw(col)) for k in ('x', 'y')[:nk]),
                how=draw(st.sampled_from(['list', 'tuple', 'iter'])),
                n_jobs=draw(st.sampled_from(n_jobs)), timeout=timeout,
                plan=plan,
                bufs=draw(st.lists(st.sampled_from(BUFS), unique=True)),
                verbose=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                leave=draw(st.booleans()))


def call(core, case):
    how = dict(list=list, tuple=tuple, iter=iter)[case['how']]
    with warnings.catch_warnings(), contextlib.redirect_stderr(
            io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return Parallel(core, *map(how, case['args']), n_jobs=case['n_jobs'],
                        timeout=case['timeout'], verbose=case['verbose'],
                        buffers=tuple(case['bufs']), leave=case['leave'],
                        refresh_per_second=200,
                        **{k: how(v) for k, v in case['kwargs'].items()})


def run_parallel(case):
    n, plan = case['n'], case['plan']
    d = tempfile.mkdtemp(prefix='verif-c28-')
    path = os.path.join(d, 'log')
    open(path, 'wb').close()
    before = census()
    errors = [i for i, p in enumerate(plan) if p['error']]
    t0 = time.monotonic()
    try:
        core = make_core(path, plan, [k for k, _ in case['bufs']], n)
        try:
            r = call(core, case)
        except Exception as e:
            check(errors, 'failed', repr(e))
            match = [i for i in errors if f'task {i}' in str(e) and
                     type(e).__name__ == plan[i]['error']]
            check(match, 'another error', repr(e), errors)
            if case['n_jobs'] == 1:
                check(match == errors[:1], 'not the first error', repr(e))
            r = None
        check_released(before, 'result' if r is not None else 'failure')
        elapsed = time.monotonic() - t0
        log = [int(x) for x in open(path)]
        if r is None:
            check(len(set(log)) == len(log), 'twice', log)
            if case['n_jobs'] == 1:
                check(log == list(range(errors[0] + 1)), 'order', log)
        else:
            check(not errors, 'the error was lost', errors)
            check(sorted(log) == list(range(n)), 'not once each', log, n)
            check(type(r) is list and len(r) == n, 'results', len(r), n)
            for i, x in enumerate(r):
                check(x[0] == i, 'order', [y[0] for y in r])
                check(x[1] == tuple(c[i] for c in case['args']), 'args', i, x)
                check(x[2] == {k: v[i] for k, v in case['kwargs'].items()},
                      'kwargs', i, x)
                check(not x[4], 'buffers', i, x[4])
                if plan[i]['wait']:
                    check(x[3], 'not stopped', i)
                if case['timeout'] is None or case['timeout'] > 60:
                    check(not x[3], 'stopped', i)
            if case['n_jobs'] == 1:
                check(log == list(range(n)), 'order', log)
                check(all(x[5] == os.getpid() for x in r), 'process')
        check(elapsed < 60, 'took', elapsed)
    finally:
        shutil.rmtree(d)
    return dict(nontrivial=n >= 2,
                tags=['n_jobs:%d' % case['n_jobs']] + ['failure'] *
                bool(errors) + ['timeout'] * any(p['wait'] for p in plan) +
                ['verbose:%d' % case['verbose']] +
                ['no-tasks'] * (n == 0))


# ---- the same tasks, whatever n_jobs is ------------------------------------------------
def run_same(case):
    """Deterministic tasks give the same results with any number of jobs."""
    n = case['n']
    xs = case['xs'][:n]

    def core(x, *, idx, status, stop, total):
        for k in range(x % 7):
            total[idx] += k * x
            status[idx] = k / 7
        return (idx, x, total[idx], sorted([x, idx]))

    want = [(i, x, sum(k * x for k in range(x % 7)), sorted([x, i]))
            for i, x in enumerate(xs)]
    before = census()
    for j in case['jobs']:
        r = Parallel(core, xs, n_jobs=j, buffers=[('total', 'q')])
        check(r == want, 'n_jobs', j, r, want)
        check_released(before, j)
    return dict(nontrivial=n >= 2, tags=['n_jobs:%d' % j for j in case['jobs']])


# ---- malformed requests, and interruptions ----------------------------------------------
BAD = ('no-arguments', 'n_jobs', 'interrupt', 'exit', 'missing-parameter',
       'bad-signature')


def run_bad(case):
    before = census()
    bad, n = case['bad'], case['n']

    def core(x, *, idx, status, stop):
        if idx == case['at'] % n:
            if bad == 'interrupt':
                raise KeyboardInterrupt
            if bad == 'exit':
                raise SystemExit(3)
        return x

    if bad == 'no-arguments':
        expect_raises(lambda: Parallel(core, n_jobs=case['n_jobs']), ValueError)
    elif bad == 'n_jobs':
        expect_raises(lambda: Parallel(core, range(n), n_jobs=0), ValueError)
    elif bad in ('interrupt', 'exit'):
        try:
            Parallel(core, range(n), n_jobs=1, timeout=case['timeout'])
        except (KeyboardInterrupt, SystemExit) as e:
            check(isinstance(e, SystemExit) is (bad == 'exit'), repr(e))
        else:
            check(False, 'the interruption was lost')
    elif bad == 'missing-parameter':
        expect_raises(lambda: Parallel(core, range(n), y=range(n), n_jobs=1,
                                       timeout=case['timeout']), TypeError)
    else:
        expect_raises(lambda: Parallel(lambda x: x, range(n), n_jobs=1,
                                       timeout=case['timeout']), TypeError)
    check_released(before, bad)
    return dict(tags=[bad])


SUBS = [
    Sub('buffer', buffers(), run_buffer, 2000, 100000,
        'two operations or more', 2),
    Sub('sequential', tasks([1], 12, [None, None, 3600., 3600, .03, .1, 0, 0.]),
        run_parallel, 400, 20000, 'two tasks or more', 2),
    Sub('parallel', tasks([2, 3, 4, -1, -6], 12, [None, None, 3600., .3, 0]),
        run_parallel, 96, 4000, 'two tasks or more', 4, shards=4),
    Sub('jobs', st.fixed_dictionaries(dict(
        n=st.integers(1, 30), xs=st.lists(st.integers(0, 1000), min_size=30,
                                          max_size=30),
        jobs=st.lists(st.sampled_from([1, 2, 3, 4, -1, -5]), min_size=1,
                      max_size=3, unique=True))), run_same, 48, 2000,
        'two tasks or more', 3, shards=4),
    Sub('malformed', st.fixed_dictionaries(dict(
        bad=st.sampled_from(BAD), n=st.integers(1, 5), at=st.integers(0, 9),
        n_jobs=st.sampled_from([1, 2, 0]),
        timeout=st.sampled_from([None, 3600., .5]))), run_bad, 200, 5000, '',
        1),
]
