"""C18: tensordot, svd and einsum subscripts are exact."""
import signal

from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from tnco.utils import tensor as tt
from tnco.utils import tn as tn_utils

DTYPES = ('float64', 'complex128', 'int64', 'float32')


@st.composite
def dot_cases(draw):
    n = draw(st.integers(0, 7))
    naming = draw(st.sampled_from(['int', 'str', 'tuple', 'mixed']))
    names = [index_name(k, naming) for k in range(n)]
    d = draw(st.sampled_from([(2,), (2, 3), (1, 2, 3), (2, 3, 4), (0, 2)]))
    dims = {x: draw(st.sampled_from(d)) for x in names}
    where = {x: draw(st.sampled_from(['x', 'y', 'xy', 'xy'])) for x in names}
    xs = draw(st.permutations([x for x in names if 'x' in where[x]]))
    ys = draw(st.permutations([x for x in names if 'y' in where[x]]))
    shared = [x for x in names if where[x] == 'xy']
    hyper = draw(st.lists(st.sampled_from(shared), unique=True)) if (
        shared and draw(st.booleans())) else None
    return dict(x=tuple(xs), y=tuple(ys), dims=dims,
                hyper=None if hyper is None else tuple(hyper),
                dtypes=tuple(draw(st.sampled_from(DTYPES)) for _ in range(2)),
                seed=draw(st.integers(0, 1 << 30)))


def array(shape, dtype, rng):
    a = np.asarray(rng.randint(-4, 5, size=shape), dtype=float)
    if dtype == 'complex128':
        a = a + 1j * rng.randint(-4, 5, size=shape)
    return np.asarray(a).astype(dtype)


def run_dot(c):
    rng = np.random.RandomState(c['seed'])
    dims = c['dims']
    a = array([dims[x] for x in c['x']], c['dtypes'][0], rng)
    b = array([dims[x] for x in c['y']], c['dtypes'][1], rng)
    kw = {} if c['hyper'] is None else dict(hyper_inds=list(c['hyper']))
    hyper = set(c['hyper'] or ())
    z, zs = tt.tensordot((a, list(c['x'])), (b, c['y']), **kw)
    z = np.asarray(z)
    want = {x for x in dims if not (x in c['x'] and x in c['y'])} | hyper
    check(set(zs) == want and len(zs) == len(want), 'indices', zs, want)
    check(z.shape == tuple(dims[x] for x in zs), 'shape', z.shape, zs)
    ref = einsum([a, b], [c['x'], c['y']], tuple(zs), dims)
    # small integers: exact
    check(np.array_equal(z, ref), 'values')
    check(z.dtype == np.result_type(a, b), 'dtype', z.dtype)
    only = tt.tensordot((a, c['x']), (b, iter(c['y'])), **kw,
                        return_inds_only=True)
    check(tuple(only) == tuple(zs), 'return_inds_only', only, zs)
    # subscripts
    out = tuple(zs)
    for f in (lambda: tt.get_einsum_subscripts(c['x'], c['y'], out),
              lambda: tn_utils.get_einsum_subscripts([c['x'], list(c['y'])],
                                                     out)):
        s = f()
        check(np.array_equal(np.einsum(s, a, b), ref), 'subscripts', s)
    for x in [x for x in dims if x not in c['x'] or x not in c['y']][:1]:
        expect_raises(lambda: tt.tensordot((a, c['x']), (b, c['y']),
                                           hyper_inds=[x]), ValueError,
                      'hyper-index not shared')
    n_sum = sum(x in c['x'] and x in c['y'] for x in dims) - len(hyper)
    return dict(nontrivial=n_sum > 0 and bool(zs) and a.size and b.size,
                tags=[f'{min(n_sum, 4)} summed', f'{len(hyper)} hyper'])


@st.composite
def svd_cases(draw):
    n = draw(st.integers(1, 6))
    naming = draw(st.sampled_from(['int', 'str', 'tuple', 'mixed']))
    xs = draw(st.permutations([index_name(k, naming) for k in range(n)]))
    d = draw(st.sampled_from([(2,), (2, 3), (1, 2, 3), (1, 5)]))
    left = draw(st.permutations(xs))[:draw(st.integers(0, n))]
    return dict(xs=tuple(xs), left=tuple(left),
                dims=tuple(draw(st.sampled_from(d)) for _ in range(n)),
                kind=draw(st.sampled_from(['random', 'low', 'low', 'zero',
                                           'small', 'isometry'])),
                dtype=draw(st.sampled_from(['float64', 'complex128',
                                            'float32'])),
                name=draw(st.sampled_from([None, None, 'k', 99])),
                atol=draw(st.sampled_from([None, 1e-3, 1e-12, .5])),
                seed=draw(st.sampled_from([None, 0, 1, 2, 99, 1 << 40])),
                aseed=draw(st.integers(0, 1 << 30)))


class Hang(Exception):
    pass


def limited(f, seconds=20):
    """f(), or an error if it does not come back."""

    def stop(*_):
        raise Hang(f'no answer in {seconds} s')

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_svd(c):
    rng = np.random.RandomState(c['aseed'])
    xs, dims = c['xs'], dict(zip(c['xs'], c['dims']))
    left = c['left']
    right = tuple(x for x in xs if x not in left)
    nl, nr = (prod(dims[x] for x in y) for y in (left, right))

    def rand(*s):
        m = rng.standard_normal(s)
        return m + 1j * rng.standard_normal(s) if (
            c['dtype'] == 'complex128') else m

    k = c['kind']
    m = rand(nl, nr)
    if k == 'zero':
        m = m * 0
    elif k == 'low':
        r = rng.randint(1, 3)
        m = rand(nl, r) @ rand(r, nr)
    elif k == 'small':
        r = min(nl, nr)
        m = (rand(nl, r) * np.power(10., -2. * np.arange(r))) @ rand(r, nr)
    elif k == 'isometry':
        m = np.eye(nl, nr)
    order = [(left + right).index(x) for x in xs]
    a = m.reshape([dims[x] for x in left + right]).transpose(order)
    a = np.ascontiguousarray(a).astype(c['dtype'])
    kw = {} if c['atol'] is None else dict(atol=c['atol'])
    if c['name'] is not None:
        kw['svd_index_name'] = c['name']
    if c['name'] is not None and c['name'] in xs:
        expect_raises(lambda: tt.svd(a, xs, left, **kw), ValueError,
                      'name of an index')
        return dict(nontrivial=False)
    atol = c['atol'] or 1e-8
    before = a.copy()
    res = limited(lambda: tt.svd(a, list(xs), iter(left), **kw,
                                 seed=c['seed']))
    check(np.array_equal(a, before), 'the input was modified')
    tol = 2e-4 if c['dtype'] == 'float32' else 1e-9
    scale = max(1., float(np.max(np.abs(a))))
    if not left or not right:
        check(len(res) == 1, 'one tensor expected')
        b, ys = res[0]
        check(tuple(ys) == (left if left else xs), 'indices', ys)
        check(np.array_equal(b, a.transpose([xs.index(x) for x in ys])),
              'values')
        return dict(nontrivial=False)
    (u, us), (s, ss), (v, vs) = res
    name = ss[0]
    check(tuple(ss) == (name,) and name not in xs, 'indices of s', ss)
    check(c['name'] is None or name == c['name'], 'name', name)
    check(tuple(us) == left + (name,), 'indices of U', us)
    check(tuple(vs) == (name,) + right, 'indices of Vh', vs)
    check(s.ndim == 1 and u.shape == tuple(dims[x] for x in left) + s.shape and
          v.shape == s.shape + tuple(dims[x] for x in right), 'shapes')
    U, V = u.reshape(nl, -1) if s.size else np.zeros((nl, 0)), (
        v.reshape(-1, nr) if s.size else np.zeros((0, nr)))
    eye = np.eye(len(s))
    check(np.max(np.abs(U.conj().T @ U - eye), initial=0) < tol,
          'U is no isometry')
    check(np.max(np.abs(V @ V.conj().T - eye), initial=0) < tol,
          'Vh is no isometry')
    check(np.all(s >= atol) and np.all(np.diff(s) <= 1e-6 * scale),
          'singular values', s)
    got = ((U * s) @ V).reshape([dims[x] for x in left + right]).transpose(
        order)
    check(np.max(np.abs(got - a)) <= atol * 1.01 + tol * scale,
          'U s Vh differs by', np.max(np.abs(got - a)))
    # nothing of weight is lost
    ref = np.linalg.svd(np.asarray(
        a.transpose([xs.index(x) for x in left + right])).reshape(nl, nr),
                        compute_uv=False)
    want = ref[ref >= atol]
    border = np.any(np.abs(ref - atol) < tol * scale)
    check(border or (len(s) == len(want) and np.max(
        np.abs(s - want), initial=0) <= tol * 10 * scale * max(nl, nr)),
          'singular values', s, ref)
    tags = [k, f'{len(s)} values']
    if c['name'] is None and c['seed'] is not None:
        again = tt.svd(a, xs, left, seed=c['seed'], **kw)
        check(again[1][1] == ss, 'another name for the same seed')
        # the name is taken: another one is found
        ys = (name,) + xs[1:]
        lf = tuple(name if x == xs[0] else x for x in left)
        r2 = limited(lambda: tt.svd(a, ys, lf, seed=c['seed'], **kw))
        check(r2[1][1][0] not in ys, 'name of an index')
        tags.append('name taken')
    return dict(nontrivial=0 < len(s) and len(xs) > 2, tags=tags)


@st.composite
def symbol_cases(draw):
    base = st.sampled_from([0, 26, 51, 52, 53, 100, 55100, 55156, 55200, 55296,
                            57000, 65000, 66000, 200000, 1000000])
    i = draw(st.one_of(base, st.integers(0, 1100000)))
    return (i + draw(st.integers(0, 50)),
            draw(st.one_of(base, st.integers(0, 1100000))) +
            draw(st.integers(0, 300)))


def run_symbol(c):
    i, j = c
    a, b = tn_utils.get_symbol(i), tn_utils.get_symbol(j)
    for s in (a, b):
        check(isinstance(s, str) and len(s) == 1, 'symbol', repr(s))
        check(s not in ',->. ', 'symbol', repr(s))
        check(not 0xD800 <= ord(s) < 0xE000, 'surrogate', hex(ord(s)))
    check((a == b) == (i == j), 'symbols', i, j, repr(a), repr(b))
    return dict(nontrivial=i != j)


@st.composite
def subscript_cases(draw):
    c = draw(array_nets(kinds=('int',), sparse=False, max_t=8))
    xs = sorted({x for t in c['ts'] for x in t}, key=repr)
    if draw(st.booleans()) and xs:
        c = dict(c, out=tuple(draw(st.lists(st.sampled_from(xs),
                                            unique=True))))
    return dict(c, wide=draw(st.sampled_from([0, 0, 60, 55150, 55200, 55400,
                                              60000])))


def run_subscripts(c):
    ts, out = list(c['ts']), c['out']
    if c['wide']:
        # one tensor with very many indices in front
        ts = [tuple(('w', k) for k in range(c['wide']))] + ts
    s = tn_utils.get_einsum_subscripts(iter(ts), iter(out))
    left, arrow, right = s.partition('->')
    check(arrow == '->', 'subscripts')
    lhs = left.split(',')
    check([len(x) for x in lhs] == [len(t) for t in ts] and
          len(right) == len(out), 'subscripts have other lengths')
    name = {}
    for t, u in zip(ts + [out], lhs + [right]):
        for x, y in zip(t, u):
            check(name.setdefault(x, y) == y, 'two symbols for', x)
    check(len(set(name.values())) == len(name), 'one symbol for two indices')
    check(not any(0xD800 <= ord(y) < 0xE000 for y in name.values()),
          'surrogate')
    s.encode()
    if not c['wide'] and ts:
        arrays = make_arrays(c)
        check(np.array_equal(np.einsum(s, *arrays),
                             einsum(arrays, ts, out, c['dims'])), 'values')
    return dict(nontrivial=len(name) > 2, tags=[f'wide {c["wide"]}'])


SUBS = [
    Sub('tensordot', dot_cases(), run_dot, 8000, 800000,
        'summed and open indices', 2),
    Sub('svd', svd_cases(), run_svd, 5000, 400000,
        'three or more indices, not zero', 2),
    Sub('symbols', symbol_cases(), run_symbol, 4000, 100000, 'i != j', .3),
    Sub('subscripts', subscript_cases(), run_subscripts, 600, 30000,
        'three or more indices', 1),
]
