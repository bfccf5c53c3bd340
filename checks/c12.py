"""C12: results of the app with a width limit."""
import itertools as its

from apps import *  # noqa: F403
from checks.c11 import app_cases, check_value, options
from harness import Sub, check, expect_raises, skip, st
from tnco.app import Optimizer, Tensor, TensorNetwork
from tnco.utils.tn import contract


def limit(c, tn):
    """A width limit between nothing and the widest tensor."""
    sp = c['sparse'] or ()
    w = max([width(xs, dict(tn.dims), sp, c['n_projs']) for xs in tn.ts_inds] +
            [0])
    return w * c['wf'] + (c['n_steps'] or 0) % 2 * .5


def check_slices(tn, r, c, want):
    """Summing the contraction over all values of the slices."""
    hmap = tn.tags.get('hyper_inds_map', {})
    dims = dict(tn.dims)
    reps = list(dict.fromkeys(hmap.get(x, x) for x in c['out']))
    slices = sorted(r.slices, key=repr)
    if prod(dims[x] for x in slices) > 200:
        return False
    total = np.zeros([dims[x] for x in reps], dtype=np.result_type(
        float, *[a.dtype for a in tn.arrays]))
    left = [x for x in reps if x not in r.slices]
    ts = [[x for x in xs if x not in r.slices] for xs in tn.ts_inds]
    for val in its.product(*(range(dims[x]) for x in slices)):
        at = dict(zip(slices, val))
        arrays = [
            a[tuple(at.get(x, slice(None)) for x in xs)]
            for xs, a in zip(tn.ts_inds, tn.arrays)
        ]
        xs, _, res = contract(r.path, ts, tn.output_inds - r.slices,
                              arrays=arrays)
        part = einsum(res, xs, left, dims)
        total[tuple(at.get(x, slice(None)) for x in reps)] += part
    same_value(expand(total, reps, c['out'], hmap, c['dims']), want)
    return True


def run(c):
    tn0 = tensor_network(c)
    mw = limit(c, tn0)
    opt = Optimizer(n_jobs=1, max_width=mw, cost_type=c['cost_type'],
                    width_type=c['width_type'], seed=c['seed'])
    tn, res = quiet(opt.optimize, tn0,
                    **options(c, update_slices=c['update_slices']))
    nb = check_results(tn, res, c, n_runs=c['n_runs'], n_projs=c['n_projs'],
                       cost_type=c['cost_type'], max_width=mw,
                       width_type=c['width_type'])
    check(tn.sparse_inds == frozenset(c['sparse'] or ()), 'sparse_inds')
    summed = False
    if c['arrays'] != 'none' and len(tn):
        want = einsum(make_arrays(c), c['ts'], c['out'], c['dims'])
        check_value(tn, res, c, want)
        summed = check_slices(tn, res[0], c, want)
    sliced = any(r.slices for r in res)
    return dict(nontrivial=len(tn) > 2 and nb > 0 and sliced,
                tags=[f'{min(nb, 3)} components', c['arrays'],
                      'sparse' if c['sparse'] else 'dense',
                      'sliced' if sliced else 'no slices',
                      'summed' if summed and sliced else 'not summed'])


R = 'a component needs contractions, tensors are sliced, more than two tensors'
SUBS = [
    Sub('results', app_cases(), run, 4000, 200000, R, 3),
    Sub('components', app_cases(min_t=5, max_t=12, split=True, hyper=False),
        run, 700, 30000, R, 1),
    Sub('larger', app_cases(max_t=16, max_total_log2=17), run, 500, 20000, R,
        1),
]
