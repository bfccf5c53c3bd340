"""Networks with arrays, and what results of the app must look like."""
import random
import warnings
from collections import Counter

import numpy as np
from harness import check, st
from oracles import (components, einsum, index_name, networks, prod,
                     surviving, walk, width)
from trees import COST_TYPES, RTOL, WIDTH_TOL, WIDTH_TYPES, close

# costs of the components are added as Decimals of 28 digits
APP_RTOL = {k: max(v, 1e-26) for k, v in RTOL.items()}

ARRAYS = ('none', 'int', 'diag', 'complex', 'diag')


def make_arrays(c):
    """Arrays of a case: None, or one array with small entries per tensor; the
    'diag' kind vanishes off the diagonal of some groups of axes."""
    if c['arrays'] == 'none':
        return [None] * len(c['ts'])
    rng = np.random.RandomState(c['aseed'])
    out = []
    for xs in c['ts']:
        shape = tuple(c['dims'][x] for x in xs)
        a = np.asarray(rng.choice([-2, -1, 1, 2, 3], size=shape), dtype=float)
        if c['arrays'] == 'complex':
            a = a + 1j * rng.choice([-1, 0, 1], size=shape)
        if c['arrays'] == 'diag' and rng.rand() < .75 and len(xs) > 1:
            group = rng.randint(0, max(1, len(xs) // 2 + rng.randint(2)),
                                size=len(xs))
            idx = np.indices(shape)
            for i in range(len(xs)):
                for j in range(i):
                    if group[i] == group[j] and shape[i] == shape[j]:
                        a = np.where(idx[i] == idx[j], a, 0)
            if rng.rand() < .3:
                a = np.where(a != 0, 1.0, 0.0)
        if rng.rand() < .05:
            a = a * 0
        out.append(a)
    return out


def partial_arrays(c):
    a = make_arrays(c)
    if c.get('drop') is not None and len(a):
        a[c['drop'] % len(a)] = None
    return a


@st.composite
def array_nets(draw, max_t=7, sparse=True, hyper=True, min_t=1, kinds=ARRAYS,
               max_total_log2=13, namings=('int', 'str', 'tuple'),
               dims=None, split=False, **kw):
    link = draw(st.sampled_from([None, None, 10, 6, 6])) if not split else 6
    net = draw(
        networks(min_t=min_t, max_t=max_t, hyper=hyper,
                 max_extra=draw(
                     st.sampled_from([0, 2] if split else [2, 4] if link == 6 else [3, 8, 14])),
                 dims=dims or draw(
                     st.sampled_from([(2,), (2,), (1, 2, 3), (2, 3), (2, 4)])),
                 max_total_log2=max_total_log2, namings=namings,
                 link=link, **kw))
    sp = n = None
    xs = sorted({x for t in net['ts'] for x in t}, key=repr)
    if sparse and xs and draw(st.integers(0, 3)) == 0:
        sp = tuple(draw(st.lists(st.sampled_from(xs), min_size=1, max_size=5,
                                 unique=True)))
        n = draw(st.sampled_from([1, 2, 3, 5, 100]))
    if net['out'] and draw(st.integers(0, 5)) == 0:
        # indices of a single tensor that are not open
        net = dict(net, out=tuple(draw(st.lists(
            st.sampled_from(net['out']), unique=True, max_size=3))))
    return dict(net, sparse=sp, n_projs=n,
                arrays=draw(st.sampled_from(kinds)),
                aseed=draw(st.integers(0, 1 << 30)))


def tensor_network(c, arrays=None, tags=None):
    """The TensorNetwork object of a case."""
    from tnco.app import Tensor, TensorNetwork
    arrays = make_arrays(c) if arrays is None else arrays
    ts = [
        Tensor(inds=xs, dims=[c['dims'][x] for x in xs], array=a,
               tags=dict(name=k))
        for k, (xs, a) in enumerate(zip(c['ts'], arrays))
    ]
    return TensorNetwork(ts, output_inds=c['out'],
                         sparse_inds=c['sparse'], tags=tags)


def expand(arr, inds, out, hmap, dims):
    """T[out] from the tensor over representatives: a Kronecker delta joins
    identified indices."""
    rep = [hmap.get(x, x) for x in out]
    check(set(rep) == set(inds), 'output indices', inds, rep)
    shape = [dims[x] for x in out]
    if not out:
        return np.asarray(arr)
    grid = np.indices(shape)
    first = {}
    mask = np.ones(shape, dtype=bool)
    for k, r in enumerate(rep):
        if r in first:
            mask &= grid[k] == grid[first[r]]
        else:
            first[r] = k
    sel = tuple(np.where(mask, grid[first[r]], 0) for r in inds)
    return np.where(mask, np.asarray(arr)[sel] if sel else arr, 0)


def value(tn, out, dims):
    """Exact contraction of a TensorNetwork object over the indices `out`."""
    hmap = tn.tags.get('hyper_inds_map', {})
    reps = list(dict.fromkeys(hmap.get(x, x) for x in out))
    check(frozenset(reps) == tn.output_inds, 'output_inds', tn.output_inds,
          reps)
    arr = einsum(list(tn.arrays), list(tn.ts_inds), reps, dict(tn.dims))
    return expand(arr, reps, out, hmap, dims)


def same_value(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, 'shape', a.shape, b.shape)
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    err = float(np.max(np.abs(a - b))) if b.size else 0.0
    check(err <= tol * scale, 'values differ by', err, 'scale', scale)


def check_results(tn, res, c, *, n_runs, n_projs, cost_type, max_width=None,
                  width_type='float64'):
    """The results are true contractions of tn, at the stated costs."""
    ts, dims = list(tn.ts_inds), dict(tn.dims)
    # an index goes away where it is contracted between two tensors: one that
    # lies on a single tensor stays, whether or not it is an output index
    n_on = Counter(x for t in ts for x in t)
    out = tuple(tn.output_inds | {x for x, k in n_on.items() if k == 1})
    n = len(ts)
    comps = [frozenset(x) for x in components(ts)]
    big = {x for x in comps if len(x) > 1}
    check(len(res) == n_runs, f'{len(res)} results for {n_runs} runs')
    costs = [r.cost for r in res]
    check(all(a <= b for a, b in zip(costs, costs[1:])), 'not sorted', costs)
    for r in res:
        check(r.runtime_s >= 0, 'runtime')
        steps, rest = walk(r.path, n)
        check(len(rest) == min(n, 1), 'path leaves', rest)
        inside = {frozenset(s) for s in steps
                  if any((s[0] | s[1]) <= x for x in big)}
        paths = r.disconnected_paths
        if any(len(t) for t in ts):
            check(len(r.disconnected_costs) == len(paths), 'costs per path')
            check(len(paths) == sum(1 for x in comps if any(
                len(ts[t]) for t in x)), 'number of disconnected paths',
                  len(paths), comps)
        else:
            check(not any(len(p) for p in paths), 'paths', paths)
            check(not r.cost, 'cost')
        total, done, got = 0, set(), set()
        for k, p in enumerate(paths):
            if not len(p):
                if k < len(r.disconnected_costs):
                    check(r.disconnected_costs[k] == 0, 'cost of no step')
                    if max_width is not None:
                        check(not r.disconnected_slices[k], 'slices')
                continue
            ps, _ = walk(p, n)
            used = frozenset().union(*(a | b for a, b in ps))
            check(used in big and used not in done and len(ps) == len(used) - 1,
                  'not the contraction of a component:', p, used)
            done.add(used)
            got |= {frozenset(s) for s in ps}
            slices = frozenset()
            xs = {x for t in used for x in ts[t]}
            sp = frozenset(c['sparse'] or ()) & xs
            if max_width is not None:
                slices = frozenset(r.disconnected_slices[k])
                check(slices <= xs, 'slices of another component', slices)
                tol = WIDTH_TOL[width_type] * (1 + max_width)
                for s in [frozenset([t]) for t in used
                         ] + [a | b for a, b in ps]:
                    w = width(
                        surviving(ts, out, s) - slices if len(s) > 1 else
                        frozenset(ts[min(s)]) - slices, dims, sp, n_projs)
                    check(w <= max_width + tol, 'tensor of width', w,
                          'limit', max_width)
            cost = 0
            for a, b in ps:
                ys = slices.union(*(surviving(ts, out, s) if len(s) > 1 else
                                    ts[min(s)] for s in (a, b)))
                q = prod(dims[x] for x in ys & sp)
                cost += prod(dims[x] for x in ys - sp) * (
                    min(q, n_projs) if sp else q)
            check(close(r.disconnected_costs[k], cost, APP_RTOL[cost_type]),
                  'cost of a component', r.disconnected_costs[k], 'is', cost)
            total += cost
        check(done == big, 'components without path', big - done)
        check(got == inside, 'path and disconnected paths differ')
        check(close(r.cost, total, APP_RTOL[cost_type]), 'cost', r.cost, 'is',
              total)
        if max_width is not None:
            check(len(r.disconnected_slices) == len(paths), 'slices per path')
            check(frozenset(r.slices) == frozenset().union(
                *r.disconnected_slices), 'slices', r.slices)
    return len(big)


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **kw)


__all__ = [k for k in dir() if not k.startswith('_')]
