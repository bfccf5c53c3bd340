"""C06: finite-width optimization never exceeds the requested width."""
from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403
from oracles import width
from tnco.optimize.finite_width import Optimizer
from tnco.optimize.finite_width.cost_model import SimpleCostModel


def run(c):
    m = Model(c, c['path'])
    c = lift_width(c, m)
    opt = finite_optimizer(c, m)
    sp = tuple(c['sparse'] or ())
    tol = WIDTH_TOL[c['width_type']] * (1 + c['max_width'])
    allx = {x for t in m.used for x in c['ts'][t]}
    check(opt.skip_slices == frozenset(c['skip']), 'skip_slices')
    seen = set()

    def verify():
        for name, tree, slices in (('current', opt.ctree, opt.slices),
                                   ('best', opt.min_ctree, opt.min_slices)):
            steps = m.check_tree(tree)
            w = m.width(steps, slices, sp, c['n_projs'])
            check(w <= c['max_width'] + tol, f'the {name} tree is {w} wide,'
                  f' the limit is {c["max_width"]}')
            check(slices <= allx, 'unknown index sliced', slices)
            check(not slices & frozenset(c['skip']), 'an index to skip is '
                  'sliced', slices)
        seen.add(opt.slices)

    verify()
    wide = m.width(m.steps, (), sp, c['n_projs']) > c['max_width'] + tol
    check(bool(opt.slices) or not wide, 'no slices')
    if m.width(m.steps, (), sp, c['n_projs']) < c['max_width'] - tol:
        check(not opt.slices, 'slices although everything fits', opt.slices)
    n_moves = len(m.used) - 2
    for rule, k in c['ops']:
        prob = make_rule(rule, c['cost_type'])
        for _ in range(k):
            old = opt.slices
            opt.update(prob, update_slices=c['update_slices'])
            verify()
            if not c['update_slices']:
                check(old <= opt.slices, 'a slice disappeared though slices '
                      'are not updated')
                check(len(opt.slices - old) <= c['new_slices'] * n_moves,
                      'too many new slices:', opt.slices - old)
    return dict(nontrivial=wide and len(m.used) > 2,
                tags=['slices changed' if len(seen) > 1 else 'same slices',
                      'skip' if c['skip'] else 'no skip',
                      'sparse' if sp else 'dense', c['width_type']])


def run_one_move(c):
    """With three tensors an update is (at most) one move."""
    m = Model(c, c['path'])
    if len(m.used) != 3:
        skip()
    return run(dict(c, update_slices=False))


@st.composite
def one_move_cases(draw):
    """Three tensors sharing many indices, just about too wide."""
    n = draw(st.integers(3, 12))
    ts = [['c'], ['c'], ['c']]
    dims = {'c': draw(st.sampled_from([1, 2]))}
    uni = draw(st.booleans())
    for k in range(n):
        x = f'x{k}'
        dims[x] = 2 if uni else draw(st.sampled_from([1, 2, 3, 4]))
        for t in draw(st.sampled_from([(0, 1), (1, 2), (0, 2), (0,), (1,),
                                       (2,)])):
            ts[t].append(x)
    out = tuple(x for x in dims if sum(x in t for t in ts) == 1)
    net = dict(ts=tuple(map(tuple, ts)), dims=dims, out=out,
               path=((0, 1), (0, 1)))
    m = Model(net, net['path'])
    return dict(net, sparse=None, n_projs=None, skip=(),
                max_width=max(0, m.width(m.steps) * draw(
                    st.sampled_from([.4, .6, .7, .8, .9]))),
                cost_type='float64',
                width_type=draw(st.sampled_from(WIDTH_TYPES)),
                seed=draw(st.integers(0, 1 << 32)),
                ops=((('base',), draw(st.integers(1, 4))),),
                disable=False, new_slices=draw(st.integers(0, 3)),
                update_slices=False)


def run_refuse(c):
    """Refused exactly if the indices to keep are too wide for some tensor."""
    m = Model(c, c['path'])
    sp = tuple(c['sparse'] or ())
    keep = frozenset(c['skip'])
    need = max(
        width(t & keep, c['dims'], sp, c['n_projs'])
        for t in m.tensors(m.steps))
    tol = WIDTH_TOL[c['width_type']] * (1 + need)
    mw = max(0.0, need + c['off'])
    if abs(mw - need) < tol:
        mw = need + 2 * tol
    c = dict(c, max_width=mw)
    if mw < need:
        expect_raises(lambda: finite_optimizer(c, m), ValueError,
                      f'{need} cannot fit in {mw}')
    else:
        finite_optimizer(c, m)
    expect_raises(lambda: finite_optimizer(dict(c, skip=(('no', 'such'),)), m),
                  ValueError, 'unknown index in skip_slices')
    return dict(nontrivial=need > 0,
                tags=['refused' if mw < need else 'accepted'])


refuse_cases = st.tuples(
    finite_cases(max_rounds=1),
    st.sampled_from([-2, -1, -0.5, -0.01, -0.001, 0, 0.001, 0.01, 0.5])).map(
        lambda x: dict(x[0], off=x[1]))

SUBS = [
    Sub('history', finite_cases(), run, 3200, 300000,
        'slices are needed and there are more than two tensors', 3),
    Sub('larger', finite_cases(max_t=24), run, 300, 20000,
        'slices are needed and there are more than two tensors', 1),
    Sub('one-move', one_move_cases(), run_one_move, 1200, 60000,
        'slices are needed and there are more than two tensors', .7),
    Sub('refuse', refuse_cases, run_refuse, 1200, 60000,
        'some tensor holds an index to keep, of dimension above one', .7),
]
