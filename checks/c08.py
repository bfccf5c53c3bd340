"""C08: optimizers are deterministic and resume exactly from a pickle."""
import copy
import pickle

from harness import Sub, check, skip, st
from trees import *  # noqa: F403
from oracles import prod
from tnco.optimize.infinite_memory import Optimizer as IOpt
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as IModel


def exact(c, m):
    """Costs are exact integers in the type: sums do not depend on order."""
    bits = prod(c['dims'].values()).bit_length() + 5
    ok = [t for t in COST_TYPES if bits < EXACT[t]]
    return c if c['cost_type'] in ok else dict(c, cost_type=ok[0])


def make(c, m, finite):
    if finite:
        return finite_optimizer(c, m)
    return IOpt(build_tree(c),
                IModel(cost_type=c['cost_type'], sparse_inds=c['sparse'],
                       n_projs=c['n_projs']),
                seed=c['seed'],
                disable_shared_inds=c['disable'] or not shares(m))


def state(o, finite):
    t, u = o.ctree, o.min_ctree
    s = dict(nodes=[(x.parent, tuple(x.children)) for x in t.nodes],
             inds=list(t.inds),
             dims=dict(t.dims),
             min_nodes=[(x.parent, tuple(x.children)) for x in u.nodes],
             min_inds=list(u.inds),
             total=o.total_cost,
             low=o.min_total_cost,
             log2=o.log2_total_cost,
             prng=o.prng_state,
             shared=o.disable_shared_inds,
             cmodel=o.cmodel)
    if finite:
        s.update(slices=o.slices, min_slices=o.min_slices,
                 skip=o.skip_slices)
    return s


def same(x, y, when):
    for k in x:
        check(x[k] == y[k], f'{k} differs {when}:', x[k], y[k])


def steps_of(c):
    out = []
    for rule, k in c['ops']:
        prob = make_rule(rule, c['cost_type'])
        out += [prob] * k
    return out


def update(o, prob, c, finite):
    if finite:
        o.update(prob, update_slices=c['update_slices'])
    else:
        o.update(prob)


def setup(c, finite):
    m = Model(c, c['path'])
    c = exact(c, m)
    if finite:
        c = lift_width(c, m)
    return m, c


def run_twins(c, finite):
    m, c = setup(c, finite)
    a, b = make(c, m, finite), make(c, m, finite)
    same(state(a, finite), state(b, finite), 'at the start')
    start = state(a, finite)
    for i, prob in enumerate(steps_of(c)):
        update(a, prob, c, finite)
        update(b, prob, c, finite)
        same(state(a, finite), state(b, finite), f'after {i + 1} updates')
    return dict(nontrivial=state(a, finite)['nodes'] != start['nodes'],
                tags=[c['cost_type']])


def run_pickle(c, finite):
    m, c = setup(c, finite)
    a = make(c, m, finite)
    todo = steps_of(c)
    cut = {int(x * len(todo)) for x in c['cuts']}
    twins = []
    moved = set()
    for i, prob in enumerate(todo):
        if i in cut:
            now = state(a, finite)
            how = c['how']
            b = (copy.copy(a) if how == 'copy' else copy.deepcopy(a) if how ==
                 'deepcopy' else pickle.loads(pickle.dumps(a, how)))
            check(type(b) is type(a), 'type')
            same(now, state(b, finite), f'just after restoring ({how})')
            check(a == b, f'restored optimizer is not equal ({how})')
            twins.append((i, b))
        update(a, prob, c, finite)
        now = state(a, finite)
        for j, b in twins:
            update(b, prob, c, finite)
            same(now, state(b, finite),
                 f'{i + 1 - j} updates after restoring at update {j}')
        moved.add(repr(now['nodes']))
    return dict(nontrivial=bool(twins) and len(moved) > 1,
                tags=[str(c['how'])] + (
                    ['slices change'] if finite and c['new_slices'] else []))


def run_prng(c):
    """prng_state can start another optimizer from the same point."""
    m, c = setup(c, False)
    a = make(c, m, False)
    todo = steps_of(c)
    k = int(c['cuts'][0] * len(todo))
    for prob in todo[:k]:
        a.update(prob)
    b = IOpt(a.ctree, a.cmodel, seed=a.prng_state,
             disable_shared_inds=a.disable_shared_inds)
    check(b.prng_state == a.prng_state, 'random state')
    moved = False
    for prob in todo[k:]:
        a.update(prob)
        b.update(prob)
        x, y = state(a, False), state(b, False)
        for f in ('nodes', 'inds', 'total', 'prng'):
            check(x[f] == y[f], f, 'differs', x[f], y[f])
        moved = moved or x['nodes'] != x['min_nodes']
    # another seed is another random state
    d = make(dict(c, seed=(c['seed'] + 1) % (1 << 32)), m, False)
    check(d.prng_state != make(c, m, False).prng_state,
          'different seeds give the same random state')
    return dict(nontrivial=moved)


def with_cuts(s):
    return st.tuples(
        s, st.lists(st.sampled_from([0.0, .2, .4, .6, .8, .95]), min_size=1,
                    max_size=3, unique=True),
        st.sampled_from([2, 3, 4, 5, 5, 'copy', 'deepcopy'])).map(
            lambda x: dict(x[0], cuts=tuple(x[1]), how=x[2]))


R = 'the tree changed along the history'
F = finite_cases(max_rounds=4)
SUBS = [
    Sub('twins-infinite', F, lambda c: run_twins(c, False), 800, 60000, R, 1),
    Sub('twins-finite', F, lambda c: run_twins(c, True), 1200, 80000, R, 1),
    Sub('pickle-infinite', with_cuts(F), lambda c: run_pickle(c, False), 800,
        60000, 'restored at least once and the tree changed', 1),
    Sub('pickle-finite', with_cuts(F), lambda c: run_pickle(c, True), 1600,
        120000, 'restored at least once and the tree changed', 2),
    Sub('prng', with_cuts(F), run_prng, 600, 40000, R, .7),
]
