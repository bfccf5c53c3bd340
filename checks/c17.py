"""C17: hyper-index decomposition preserves the represented tensors."""
from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from tnco.utils import tensor as tt
from tnco.utils.tn import decompose_hyper_inds

DTYPES = ('float64', 'float64', 'complex128', 'int64', 'float32')


@st.composite
def tensors(draw):
    """One array with some structure, slightly perturbed."""
    n = draw(st.integers(0, 6))
    d = draw(st.sampled_from([(2,), (2,), (3,), (2, 3), (1, 2), (2, 4)]))
    dims = tuple(draw(st.sampled_from(d)) for _ in range(n))
    naming = draw(st.sampled_from(['int', 'str', 'tuple', 'mixed']))
    perm = draw(st.permutations(range(n)))
    return dict(
        inds=tuple(index_name(k, naming) for k in perm), dims=dims,
        # equal numbers: diagonal in those axes
        groups=tuple(draw(st.integers(0, 3)) for _ in range(n)),
        fill=draw(st.sampled_from(['random', 'random', 'ones', 'const', 'zero',
                                   'sparse', 'near'])),
        dtype=draw(st.sampled_from(DTYPES)),
        atol=draw(st.sampled_from([None, None, 1e-8, 1e-4, 1e-2, 1e-12])),
        noise=draw(st.sampled_from([0, 0, 0, 1e-9, 1e-6, 1e-3])),
        n_noise=draw(st.integers(1, 3)),
        seed=draw(st.integers(0, 1 << 30)))


def make(c):
    rng = np.random.RandomState(c['seed'])
    shape = c['dims']
    f = c['fill']
    if f == 'random':
        a = np.asarray(rng.choice([-2, -1, 1, 2, 3], size=shape), dtype=float)
    elif f == 'sparse':
        a = np.asarray(rng.choice([0, 0, 0, 1, 2], size=shape), dtype=float)
    elif f == 'near':
        # nearly constant
        a = np.asarray(1 + 4e-6 * rng.random_sample(shape))
    else:
        a = np.full(shape, {'ones': 1.0, 'const': -3.0, 'zero': 0.0}[f])
    if c['dtype'] == 'complex128':
        a = a * np.asarray(rng.choice([1, 1j, 1 + 1j], size=shape))
    idx = np.indices(shape)
    for i in range(len(shape)):
        for j in range(i):
            if c['groups'][i] == c['groups'][j] and shape[i] == shape[j]:
                a = np.where(idx[i] == idx[j], a, 0)
    a = np.asarray(a)
    if c['noise'] and a.size and c['dtype'] != 'int64':
        for _ in range(c['n_noise']):
            a[tuple(rng.randint(s) for s in shape)] += c['noise'] * (
                1 + rng.rand())
    return a.astype(c['dtype'])


def is_diag(a, i, j, atol):
    if a.shape[i] != a.shape[j]:
        return False
    idx = np.indices(a.shape)
    off = a[idx[i] != idx[j]]
    return bool(np.all(np.abs(off) <= atol))


def blow_up(arr, inds, groups, xs, dims):
    """The tensor over all the indices xs: deltas on each group."""
    hmap = {y: x for x, ys in groups.items() for y in set(ys) | {x}}
    rep = [hmap.get(x, x) for x in xs]
    full = list(dict.fromkeys(rep))
    check(set(inds) <= set(full), 'unknown indices', inds)
    check(len(set(inds)) == len(inds), 'repeated indices', inds)
    grid = np.indices([dims[x] for x in xs])
    first = {r: rep.index(r) for r in full}
    mask = np.ones([dims[x] for x in xs], dtype=bool)
    for k, r in enumerate(rep):
        mask &= grid[k] == grid[first[r]]
    sel = tuple(np.where(mask, grid[first[r]], 0) for r in inds)
    return np.where(mask, np.asarray(arr)[sel] if sel else arr, 0)


def run_tensor(c):
    a = make(c)
    xs = c['inds']
    dims = dict(zip(xs, c['dims']))
    kw = {} if c['atol'] is None else dict(atol=c['atol'])
    atol = c['atol'] or 1e-8
    before = a.copy()
    (b, ys), hyper = tt.decompose_hyper_inds(a, list(xs), **kw)
    check(np.array_equal(a, before), 'the input was modified')
    b = np.asarray(b)
    check(b.dtype == a.dtype, 'dtype', b.dtype)
    check(b.shape == tuple(dims[x] for x in ys) or not ys, 'shape', b.shape,
          ys)
    # groups: disjoint, and of equal dimensions
    seen = set()
    for x, zs in hyper.items():
        g = {x} | set(zs)
        check(g <= set(xs) and not g & seen, 'groups', hyper)
        seen |= g
        check(len({dims[z] for z in g}) == 1, 'dimensions', hyper)
    full = blow_up(b, ys, hyper, xs, dims)
    eps = 1e-6 if a.dtype == np.float32 else 1e-12
    err = float(np.max(np.abs(full - a))) if a.size else 0
    check(err <= atol * (1 + 1e-6) + eps, f'differs by {err}, atol', atol)
    pairs = [(i, j) for i in range(a.ndim) for j in range(i)
             if is_diag(a, i, j, atol * .99)]
    if not pairs and not any(
            is_diag(a, i, j, atol * 1.01) for i in range(a.ndim)
            for j in range(i)):
        check(tuple(ys) == tuple(xs) and not hyper and np.array_equal(a, b),
              'a non-diagonal array was changed')
    # nothing is left to do
    check(not any(is_diag(b, i, j, atol * .99) for i in range(b.ndim)
                  for j in range(i)), 'still diagonal')
    # is_diagonal
    for i, j in pairs[:3]:
        p = (i, j) + tuple(k for k in range(a.ndim) if k not in (i, j))
        check(tt.is_diagonal(a.transpose(p), **kw), 'is_diagonal')
    for i in range(a.ndim):
        for j in range(i):
            if not is_diag(a, i, j, atol * 1.01):
                p = (i, j) + tuple(k for k in range(a.ndim) if k not in (i, j))
                check(not tt.is_diagonal(a.transpose(p), **kw), 'is_diagonal')
    return dict(nontrivial=bool(hyper),
                tags=['constant' if len(ys) == 0 and a.ndim else 'array',
                      f'{len(hyper)} groups', c['fill'],
                      'perturbed' if c['noise'] else 'exact'])


@st.composite
def net_cases(draw, **kw):
    c = draw(array_nets(sparse=False,
                        kinds=('diag', 'diag', 'diag', 'int', 'complex'),
                        namings=('int', 'str', 'tuple', 'mixed'), **kw))
    xs = sorted({x for t in c['ts'] for x in t}, key=repr)
    if draw(st.booleans()) and xs:
        c = dict(c, out=tuple(draw(st.lists(st.sampled_from(xs), unique=True,
                                            max_size=6))))
    return dict(c, atol=draw(st.sampled_from([None, 1e-10, 1e-3])),
                lists=draw(st.booleans()))


def run_net(c):
    arrays = make_arrays(c)
    kw = {} if c['atol'] is None else dict(atol=c['atol'])
    ts = [list(t) for t in c['ts']]
    before = [a.copy() for a in arrays]
    if c['lists']:
        new, ys, hmap = decompose_hyper_inds(list(arrays), ts, **kw)
    else:
        new, ys, hmap = decompose_hyper_inds(iter(arrays), map(tuple, ts),
                                             **kw)
    check(all(map(np.array_equal, arrays, before)) and
          [tuple(t) for t in ts] == list(c['ts']), 'the input was modified')
    dims = c['dims']
    check(len(new) == len(ys) == len(ts), 'number of tensors')
    check(set(hmap) == {x for t in ts for x in t}, 'map', hmap)
    for x, r in hmap.items():
        check(hmap[r] == r and dims[x] == dims[r], 'map', hmap)
    check({x for t in ys for x in t} == set(hmap.values()),
          'indices of the network', ys, hmap)
    moved = 0
    for a, t, b, y in zip(arrays, ts, new, ys):
        b = np.asarray(b)
        check(len(set(y)) == len(y), 'repeated indices', y)
        check(b.shape == tuple(dims[x] for x in y), 'shape', b.shape, y)
        check(set(y) <= {hmap[x] for x in t}, 'foreign indices', y, t)
        if not any(is_diag(a, i, j, 1e-3) for i in range(a.ndim)
                   for j in range(i)):
            rep = [hmap[x] for x in t]
            if len(set(rep)) == len(rep):
                check(tuple(y) == tuple(rep) and np.array_equal(a, b),
                      'a non-diagonal array was changed')
        else:
            moved += 1
    out = c['out']
    reps = list(dict.fromkeys(hmap[x] for x in out))
    want = einsum(arrays, c['ts'], out, dims)
    got = expand(einsum(new, ys, reps, dims), reps, out, hmap, dims)
    same_value(got, want)
    # identified indices are equal on every non-zero entry of the network:
    # with all the indices open, too
    if prod(dims[x] for x in hmap) <= 4096:
        out = tuple(hmap)
        reps = list(dict.fromkeys(hmap.values()))
        same_value(expand(einsum(new, ys, reps, dims), reps, out, hmap, dims),
                   einsum(arrays, c['ts'], out, dims))
    merged = len(hmap) - len(set(hmap.values()))
    return dict(nontrivial=merged > 0,
                tags=[f'{min(merged, 5)} identified',
                      'touched' if moved else 'untouched'])


def run_refuse(c):
    a, xs = make(c), list(c['inds'])

    def refuse(why, *args, types=ValueError, f=tt.decompose_hyper_inds, **kw):
        expect_raises(lambda: f(*args, **kw), types, why)

    refuse('too many indices', a, xs + ['nope'])
    if xs:
        refuse('too few indices', a, xs[:-1])
        refuse('too few indices', [a], [xs[:-1]], f=decompose_hyper_inds)
    if len(xs) > 1:
        refuse('repeated index', a, xs[:-1] + xs[:1])
        refuse('repeated index', [a], [xs[:-1] + xs[:1]],
               f=decompose_hyper_inds)
    else:
        refuse('no two axes', a, f=tt.is_diagonal)
    refuse('unknown option', a, xs, nope=1, types=TypeError)
    return dict(nontrivial=len(xs) > 1)


SUBS = [
    Sub('tensor', tensors(), run_tensor, 8000, 800000, 'something was reduced',
        2),
    Sub('network', net_cases(), run_net, 5000, 400000,
        'indices were identified', 3),
    Sub('larger', net_cases(max_t=12, max_total_log2=15), run_net, 500, 40000,
        'indices were identified', 1),
    Sub('refuse', tensors(), run_refuse, 300, 5000, 'two or more indices', .2),
]
