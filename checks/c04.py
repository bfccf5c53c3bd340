"""C04: every optimization step keeps a valid contraction of the network."""
import copy
import pickle

from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403
import tnco.optimize.finite_width as FW
import tnco.optimize.infinite_memory as IM
from tnco.optimize.finite_width.cost_model import SimpleCostModel as FModel
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as IModel


@st.composite
def cases(draw, finite=False):
    net = draw(tree_nets(big=not finite, max_t=10))
    sp, n = draw(sparse_part(net))
    c = dict(net,
             sparse=sp,
             n_projs=n,
             cost_type=draw(st.sampled_from(COST_TYPES)),
             seed=draw(st.integers(0, 1 << 32)),
             ops=draw(histories()),
             disable=draw(st.booleans()))
    if finite:
        c.update(width_type=draw(st.sampled_from(COST_TYPES[:3])),
                 cut=draw(st.floats(0, 1)),
                 new_slices=draw(st.integers(0, 3)),
                 update_slices=draw(st.booleans()))
    return c


def run(c, finite):
    m = Model(c, c['path'])
    big = m.cost(m.steps).bit_length()
    if c['cost_type'] == 'float32' and big > 60:
        c = dict(c, cost_type='float1024')
    shared = shares(m)
    disable = c['disable'] or not shared
    tree = build_tree(c)
    kw = dict(cost_type=c['cost_type'], sparse_inds=c['sparse'],
              n_projs=c['n_projs'])
    if finite:
        mw = m.width(m.steps) * c['cut']
        cm = FModel(mw, width_type=c['width_type'], **kw)
        opt = FW.Optimizer(tree, cm, seed=c['seed'],
                           disable_shared_inds=disable,
                           max_number_new_slices=c['new_slices'])
    else:
        cm = IModel(**kw)
        opt = IM.Optimizer(tree, cm, seed=c['seed'],
                           disable_shared_inds=disable)
    before = pickle.dumps(tree), copy.deepcopy(cm), repr(cm)

    def verify():
        s = m.check_tree(opt.ctree, shared and not disable)
        t = m.check_tree(opt.min_ctree, shared and not disable)
        check(dict(opt.ctree.dims) == dict(tree.dims), 'dims changed')
        check(opt.ctree.output_inds() == m.inds(frozenset(m.used)),
              'output indices')
        return s, t

    s, t = verify()
    start = {frozenset(x) for x in s}
    check(start == {frozenset(x) for x in m.steps}, 'not the given tree')
    n_moves = 0
    for rule, k in c['ops']:
        prob = make_rule(rule, c['cost_type'])
        for _ in range(k):
            if finite:
                opt.update(prob, update_slices=c['update_slices'])
            else:
                opt.update(prob)
            s, t = verify()
            n_moves += {frozenset(x) for x in s} != start
    m.check_path(opt.ctree, s)
    m.check_path(opt.min_ctree, t)
    check(pickle.dumps(tree) == before[0], 'the input tree was modified')
    check(cm == before[1] and repr(cm) == before[2],
          'the input cost model was modified')
    check(opt.cmodel == cm, 'cmodel')
    return dict(nontrivial=n_moves > 0 and len(m.used) > 3,
                tags=['shared' if not disable else 'free', c['cost_type']])


def run_unshared(c):
    """A tree with a contraction sharing no index is refused unless allowed."""
    m = Model(c, c['path'])
    if shares(m):
        skip()
    expect_raises(lambda: IM.Optimizer(build_tree(c), IModel()), Exception,
                  'unshared contraction accepted')
    expect_raises(lambda: FW.Optimizer(build_tree(c), FModel(100)), Exception,
                  'unshared contraction accepted')
    IM.Optimizer(build_tree(c), IModel(cost_type='float1024'),
                 disable_shared_inds=True)


R = 'more than three tensors and the tree changed'
SUBS = [
    Sub('infinite', cases(), lambda c: run(c, False), 2400, 200000, R, 2),
    Sub('finite', cases(True), lambda c: run(c, True), 2400, 200000, R, 2),
    Sub('unshared', tree_nets(big=False), run_unshared, 300, 10000,
        'the tree has a contraction without shared index', .3),
]
