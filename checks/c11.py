"""C11: results of the app without memory limit."""
from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from tnco.app import Optimizer
from tnco.utils.tn import contract

BETAS = st.one_of(
    st.tuples(st.sampled_from([0, 0.1, 1, 50]),
              st.sampled_from([100, 3.7, 0.2])),
    st.lists(st.sampled_from([0, 0.5, 1.0, 10, 1000.0]), max_size=12))


@st.composite
def app_cases(draw, finite=False, **kw):
    c = draw(array_nets(**kw))
    b = draw(BETAS)
    if isinstance(b, tuple) and b[0] == b[1]:
        b = (b[0], b[0] + 1)
    n_steps = draw(st.sampled_from([1, 2, 5, 20]))
    if not isinstance(b, tuple) and draw(st.booleans()):
        n_steps = None
    return dict(c, betas=b, n_steps=n_steps,
                iterator=draw(st.booleans()),
                n_runs=draw(st.sampled_from([1, 1, 2, 4])),
                cost_type=draw(st.sampled_from(COST_TYPES)),
                width_type=draw(st.sampled_from(WIDTH_TYPES)),
                fuse=draw(st.sampled_from([0, 0, 0, None, 1, 2, 2.5, 4, 6, False])),
                decompose=draw(st.booleans()),
                seed=draw(st.integers(0, 1 << 32)),
                timeout=draw(st.sampled_from([None, None, None, 0, 60])),
                wf=draw(st.sampled_from([0, .2, .4, .6, .8, 1, 1.5])),
                update_slices=draw(st.sampled_from([1, 2, 10])))


def options(c, **kw):
    b = c['betas']
    if c['iterator'] and not isinstance(b, tuple):
        b = iter(b)
    o = dict(betas=b, n_steps=c['n_steps'], n_runs=c['n_runs'],
             n_projs=c['n_projs'], timeout=c['timeout'], fuse=c['fuse'],
             decompose_hyper_inds=c['decompose'])
    return dict(o, **kw)


def check_value(tn, res, c, want):
    """Following the path with the arrays gives the value."""
    hmap = tn.tags.get('hyper_inds_map', {})
    reps = list(dict.fromkeys(hmap.get(x, x) for x in c['out']))
    for r in res[:2]:
        if not len(tn):
            continue
        xs, _, arrays = contract(r.path, tn.ts_inds, tn.output_inds,
                                 arrays=tn.arrays)
        check(len(xs) == 1, 'several tensors left')
        got = einsum(arrays, xs, reps, dict(tn.dims))
        same_value(expand(got, reps, c['out'], hmap, c['dims']), want)


def run(c):
    tn0 = tensor_network(c)
    opt = Optimizer(n_jobs=1, cost_type=c['cost_type'], seed=c['seed'])
    tn, res = quiet(opt.optimize, tn0, **options(c))
    nb = check_results(tn, res, c, n_runs=c['n_runs'], n_projs=c['n_projs'],
                       cost_type=c['cost_type'])
    check(tn.sparse_inds == frozenset(c['sparse'] or ()), 'sparse_inds')
    if c['arrays'] != 'none':
        want = einsum(make_arrays(c), c['ts'], c['out'], c['dims'])
        same_value(value(tn, c['out'], c['dims']), want)
        check_value(tn, res, c, want)
    else:
        check(tn.output_inds == frozenset(c['out']), 'output_inds')
    return dict(nontrivial=len(tn) > 2 and nb > 0,
                tags=[f'{min(nb, 3)} components', c['arrays'],
                      'sparse' if c['sparse'] else 'dense',
                      'fused' if len(tn) < len(c['ts']) else 'not fused',
                      'identified indices' if any(
                          k != v for k, v in tn.tags.get(
                              'hyper_inds_map', {}).items()) else 'plain'])


def run_refuse(c):
    tn = tensor_network(c)
    opt = Optimizer(n_jobs=1, cost_type=c['cost_type'], seed=c['seed'],
                    max_width=c['max_width'])

    def refuse(why, types=ValueError, **kw):
        expect_raises(lambda: quiet(opt.optimize, tn, **options(
            dict(c, iterator=False), **kw)), types, why)

    refuse('no n_steps', betas=(0, 1), n_steps=None)
    refuse('same betas', betas=(1, 1), n_steps=3)
    for n in (0, -1, 1.5):
        refuse('n_steps', n_steps=n, betas=[0, 1, 2])
    refuse('unknown option', TypeError, what=3)
    if c['sparse']:
        refuse('no n_projs', n_projs=None)
    for n in (0, -2, 1.5):
        refuse('n_projs', n_projs=n)
    for kw in (dict(cost_type='float16'), dict(output_format='xml'),
               dict(output_compression='zip'), dict(method='nope'),
               dict(max_width=-1), dict(max_width=1, width_type='float16')):
        def go():
            o = Optimizer(**{**dict(n_jobs=1), **kw})
            quiet(o.optimize, tn, **options(c))

        expect_raises(go, Exception, str(kw))


refuse_cases = st.tuples(app_cases(max_t=4), st.sampled_from(
    [None, float(3), 100.0])).map(lambda x: dict(x[0], max_width=x[1]))

R = 'a component needs a contraction and there are more than two tensors'
SUBS = [
    Sub('results', app_cases(), run, 4000, 200000, R, 3),
    Sub('components', app_cases(min_t=5, max_t=12, split=True, hyper=False),
        run, 700, 30000, R, 1),
    Sub('larger', app_cases(max_t=16, max_total_log2=17), run, 600, 20000, R,
        1),
    Sub('refuse', refuse_cases, run_refuse, 160, 4000, 'every case', .5),
]
