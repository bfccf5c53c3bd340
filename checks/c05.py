"""C05: infinite-memory optimizer costs are the true costs of its trees."""
from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403
from oracles import prod
from tnco.optimize.infinite_memory import Optimizer
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
from tnco.ctree import ContractionTree


@st.composite
def cases(draw, max_t=10, sparse=True):
    net = draw(tree_nets(max_t=max_t, max_extra=max_t))
    sp, n = draw(sparse_part(net)) if sparse else (None, None)
    types = [t for t in COST_TYPES if fits(net, t)]
    return dict(net,
                sparse=sp,
                n_projs=n,
                cost_type=draw(st.sampled_from(types)),
                seed=draw(st.integers(0, 1 << 32)),
                ops=draw(histories()),
                disable=draw(st.booleans()),
                uniform=draw(st.integers(0, 3)) == 0)


def optimizer(c, m):
    dims = c['dims']
    if c['uniform']:
        d = 2 + len(c['ts']) % 4
        m.dims = {x: d for x in c['dims']}
        dims = d
    tree = ContractionTree(list(c['path']), [list(x) for x in c['ts']], dims,
                           output_inds=list(c['out']))
    cm = SimpleCostModel(cost_type=c['cost_type'], sparse_inds=c['sparse'],
                         n_projs=c['n_projs'])
    return Optimizer(tree, cm, seed=c['seed'],
                     disable_shared_inds=c['disable'] or not shares(m))


def run(c):
    m = Model(c, c['path'])
    opt = optimizer(c, m)
    h = CostHistory(m, c, opt, False)
    h.observe()
    for rule, k in c['ops']:
        prob = make_rule(rule, c['cost_type'])
        for _ in range(k):
            opt.update(prob)
            h.observe()
    return dict(nontrivial=len(set(h.costs)) > 2,
                tags=[c['cost_type'],
                      'sparse' if c['sparse'] else 'dense',
                      'uniform' if c['uniform'] else 'dims',
                      'drop>2^24' if max(h.costs) >> 24 > min(h.costs) else
                      'small changes'])


@st.composite
def drops(draw):
    """Trees that contract two hubs first: one update changes the cost by many
    orders of magnitude."""
    a, b = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    bits = draw(st.sampled_from([4, 8, 13, 20, 40, 60]))
    ts = [['b'], ['b']]
    dims = {'b': 2}
    for h, k in ((0, a), (1, b)):
        for i in range(k):
            x = f'x{h}{i}'
            ts[h].append(x)
            ts.append([x])
            # an open index of dimension one
            dims[x] = 1 << draw(st.integers(max(1, bits - 3), bits))
    net = dict(ts=tuple(map(tuple, ts)), dims=dims, out=())
    rng_seed = draw(st.integers(0, 1 << 16))
    import random
    from oracles import connected_path, walk
    rng = random.Random(rng_seed)
    n = len(ts)
    # hubs first
    path = [(0, 1)]
    k = n - 1
    while k > 1:
        path.append((draw(st.integers(0, k - 2)), k - 1))
        k -= 1
    types = [t for t in COST_TYPES if fits(net, t)]
    return dict(net, path=tuple(path), sparse=None, n_projs=None,
                cost_type=draw(st.sampled_from(types)),
                seed=draw(st.integers(0, 1 << 32)),
                ops=draw(histories(4, 6)),
                disable=False, uniform=False)


def run_wide(c):
    """Contractions far beyond the range of the smaller types."""
    n, d = c['n'], c['d']
    ts = [list(range(n)), list(range(n // 3, n)) + ['a'],
          list(range(n // 3)) + ['a']]
    dims = d if c['uniform'] else dict.fromkeys(list(range(n)) + ['a'], d)
    if c['mixed']:
        dims = dict.fromkeys(list(range(n)) + ['a'], d) | {'a': d + 1}
    tree = ContractionTree([(0, 1), (0, 1)], ts, dims)
    full = dims if isinstance(dims, dict) else dict.fromkeys(
        list(range(n)) + ['a'], d)
    m = Model(dict(ts=ts, out=(), dims=full), [(0, 1), (0, 1)])
    want = m.cost(m.steps)
    ct = c['cost_type']
    bits = want.bit_length()
    limit = dict(float32=128, float64=1024, float128=16384)
    if ct in limit and abs(bits - limit[ct]) < 4:
        skip()
    make = lambda: Optimizer(tree, SimpleCostModel(cost_type=ct), seed=1)
    if ct in limit and bits > limit[ct]:
        expect_raises(make, Exception, f'cost of 2^{bits} in {ct}')
        return dict(tags=['refused'])
    opt = make()
    import math
    got = float(opt.log2_total_cost)
    check(abs(got - math.log2(want)) <= 1e-4 + 1e-6 * math.log2(want),
          'log2 of the cost', got, math.log2(want))
    opt.update(make_rule(('base',), ct))
    check(opt.is_valid(), 'is_valid()')
    return dict(tags=['beyond double' if bits > 1024 else 'within double'])


wide = st.fixed_dictionaries(
    dict(n=st.integers(3, 700),
         d=st.sampled_from([2, 3, 4, 10, 1000]),
         uniform=st.booleans(),
         mixed=st.booleans(),
         cost_type=st.sampled_from(COST_TYPES)))

R = 'more than two different costs were met along the history'
SUBS = [
    Sub('history', cases(), run, 3200, 300000, R, 3),
    Sub('larger', cases(max_t=28), run, 400, 30000, R, 1),
    Sub('drops', drops(), run, 800, 60000, R, 1),
    Sub('wide', wide, run_wide, 300, 5000, 'every case', .4),
]
