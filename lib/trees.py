"""Reference model of contraction trees and optimizer histories."""
import random
from fractions import Fraction

from harness import check, st
from oracles import (components, connected_path, networks, path_cost, prod,
                     random_path, surviving, walk, width)


def node_leaves(nodes, used):
    """Leaf set (original tensor numbers) of every node, from the links."""
    n_leaves = sum(x.is_leaf() for x in nodes)
    check(n_leaves == len(used), 'number of leaves', n_leaves, used)
    check([x.is_leaf() for x in nodes] == [True] * n_leaves + [False] *
          (len(nodes) - n_leaves), 'leaves are not first')
    check(len(nodes) == 2 * n_leaves - 1, 'number of nodes')
    memo = {}

    def get(k, depth=0):
        check(depth <= len(nodes), 'cycle')
        if k not in memo:
            if nodes[k].is_leaf():
                memo[k] = frozenset([used[k]])
            else:
                a, b = nodes[k].children
                check(nodes[a].parent == k and nodes[b].parent == k,
                      'parent/child links disagree')
                memo[k] = get(a, depth + 1) | get(b, depth + 1)
        return memo[k]

    out = [get(k) for k in range(len(nodes))]
    check(nodes[-1].parent is None and out[-1] == frozenset(used),
          'last node is not the root')
    check(sum(x.parent is None for x in nodes) == 1, 'several roots')
    return out


class Model:
    """What a ContractionTree over (part of) a network must look like."""

    def __init__(self, net, path):
        self.ts, self.out, self.dims = net['ts'], net['out'], net['dims']
        self.steps, _ = walk(path, len(self.ts))
        self.used = sorted({t for s in self.steps for x in s for t in x})
        self.memo = {}

    def inds(self, leaves):
        if leaves not in self.memo:
            self.memo[leaves] = (frozenset(self.ts[min(leaves)])
                                 if len(leaves) == 1 else surviving(
                                     self.ts, self.out, leaves))
        return self.memo[leaves]

    def check_tree(self, tree, shared=False):
        """Verifies the tree; returns its contractions as pairs of leaf sets."""
        nodes = list(tree.nodes)
        leaves = node_leaves(nodes, self.used)
        xs = list(tree.inds)
        check(len(xs) == len(nodes), 'inds')
        for k, s in enumerate(leaves):
            check(frozenset(xs[k]) == self.inds(s),
                  f'indices of node {sorted(s)}', xs[k], self.inds(s))
        steps = [(leaves[x.children[0]], leaves[x.children[1]])
                 for x in nodes
                 if not x.is_leaf()]
        for a, b in steps:
            check(not a & b, 'overlapping children')
            if shared:
                check(self.inds(a) & self.inds(b),
                      f'{sorted(a)} and {sorted(b)} share no index')
        return steps

    def check_path(self, tree, steps):
        p = tree.path()
        got, _ = walk(p, len(self.ts))
        check({frozenset(s) for s in got} == {frozenset(s) for s in steps},
              'path() is not the path of the tree', p)

    def cost(self, steps, sparse=(), n_projs=None, slices=()):
        slices = frozenset(slices)
        t = 0
        for a, b in steps:
            xs = self.inds(a) | self.inds(b) | slices
            sp = xs & frozenset(sparse)
            c = prod(self.dims[x] for x in xs - sp)
            s = prod(self.dims[x] for x in sp)
            t += c * (min(s, n_projs) if sparse else s)
        return t

    def tensors(self, steps):
        return ([self.inds(frozenset([t])) for t in self.used] +
                [self.inds(a | b) for a, b in steps])

    def width(self, steps, slices=(), sparse=(), n_projs=None):
        return max(
            width(xs - frozenset(slices), self.dims, sparse, n_projs)
            for xs in self.tensors(steps))


COST_TYPES = ('float32', 'float64', 'float128', 'float1024')
# largest integers that are exact, as powers of two
EXACT = dict(float32=24, float64=53, float128=64, float1024=1024)
# rounding of products of dozens of dimensions, and of sums of dozens of them
RTOL = dict(float32=2e-5, float64=1e-13, float128=1e-16, float1024=1e-290)
LOG2_TOL = dict(float32=2e-4, float64=1e-6, float128=1e-6, float1024=1e-6)

DIMS = ((2,), (1, 2, 3), (2, 3, 5, 7), (1, 2, 4, 8, 64), (2, 2, 2, 1000))
BIG = ((1, 2, 2**20), (3, 10**6), (2, 2**40))


def dominated(net, bits, k, pos):
    """The network with large open indices on one tensor: the contractions of
    this tensor cost (almost) everything."""
    ts = list(net['ts'])
    pos %= len(ts)
    new = tuple(f'open {i}' for i in range(k))
    ts[pos] = tuple(ts[pos]) + new
    return dict(net, ts=tuple(ts), out=tuple(net['out']) + new,
                dims=net['dims'] | dict.fromkeys(new, 1 << bits))


@st.composite
def tree_nets(draw, min_t=2, max_t=10, big=True, max_extra=8, namings=None):
    """A network, a complete path over all of it (or one component) and
    whether every contraction of it shares an index."""
    kw = {} if namings is None else dict(namings=namings)
    net = draw(
        networks(min_t=min_t,
                 max_t=max_t,
                 max_extra=draw(st.sampled_from([2, 4, max_extra])),
                 dims=draw(st.sampled_from(DIMS + BIG if big else DIMS)),
                 link=draw(st.sampled_from([10, 10, 10, None])),
                 **kw))
    if big and draw(st.integers(0, 7)) == 0:
        net = dominated(net, draw(st.integers(1, 60)), draw(st.integers(1, 4)),
                        draw(st.integers(0, 100)))
    n = len(net['ts'])
    rng = random.Random(draw(st.integers(0, 1 << 20)))
    mode = draw(st.sampled_from(['shared', 'shared', 'shared', 'any']))
    comp = [c for c in components(net['ts']) if len(c) > 1]
    if mode == 'any' or not comp:
        path = random_path(n, rng)
    else:
        path = connected_path(net['ts'], net['out'], rng,
                              max(comp, key=len))
        if not path:
            path = random_path(n, rng)
    return dict(net, path=tuple(path))


def shares(m):
    return all(m.inds(a) & m.inds(b) for a, b in m.steps)


@st.composite
def sparse_part(draw, net):
    """Sparse indices (or none) and the number of projections."""
    xs = sorted({x for t in Model(net, net['path']).used
                 for x in net['ts'][t]}, key=repr)
    kind = draw(st.sampled_from(['none', 'none', 'some', 'all', 'empty']))
    if kind == 'none' or not xs:
        return None, None
    if kind == 'empty':
        return (), None
    sp = xs if kind == 'all' else draw(
        st.lists(st.sampled_from(xs), min_size=1, max_size=5, unique=True))
    tot = prod(net['dims'][x] for x in sp)
    tot = min(tot, 1 << 62)
    return tuple(sp), draw(
        st.sampled_from([1, 2, 3, 5, 7, 100, max(1, tot // 2), tot, tot + 1]))


@st.composite
def rules(draw):
    k = draw(st.sampled_from(['base', 'greedy', 'mh', 'mh']))
    if k == 'mh':
        return (k, draw(st.sampled_from([0.0, 0.1, 0.5, 1.0, 5.0, 100.0])))
    return (k,)


def make_rule(rule, cost_type):
    from tnco.optimize import prob
    if rule[0] == 'base':
        return prob.BaseProbability(cost_type=cost_type)
    if rule[0] == 'greedy':
        return prob.Greedy(cost_type=cost_type)
    return prob.MetropolisHastings(rule[1], cost_type=cost_type)


def histories(max_rounds=6, max_steps=8):
    """A history: rounds of (rule, number of updates)."""
    return st.lists(st.tuples(rules(), st.integers(1, max_steps)),
                    min_size=1,
                    max_size=max_rounds).map(tuple)


def build_tree(c):
    from tnco.ctree import ContractionTree
    return ContractionTree(list(c['path']), [list(x) for x in c['ts']],
                           c['dims'],
                           output_inds=list(c['out']))


def close(got, want, rtol):
    from fractions import Fraction
    got, want = Fraction(got), Fraction(want)
    return abs(got - want) <= Fraction(rtol) * abs(want)


__all__ = [k for k in dir() if not k.startswith('_')]


RANGE = dict(float32=120, float64=1000, float128=16000, float1024=10**6)


def fits(c, cost_type):
    """Whether no contraction of the network can overflow the type."""
    return prod(c['dims'].values()).bit_length() + 8 < RANGE[cost_type]


class CostHistory:
    """Follows the costs an optimizer reports."""

    def __init__(self, m, c, opt, finite):
        self.m, self.c, self.opt, self.finite = m, c, opt, finite
        self.sp = tuple(c['sparse'] or ())
        self.best = None
        self.worst = 0
        self.last_min = None
        self.costs = []

    def cost(self, steps, slices=()):
        return self.m.cost(steps, self.sp, self.c['n_projs'], slices)

    def observe(self):
        import math
        from fractions import Fraction
        c, opt, m = self.c, self.opt, self.m
        ct = c['cost_type']
        steps = m.check_tree(opt.ctree)
        mins = m.check_tree(opt.min_ctree)
        cur = self.cost(steps, opt.slices if self.finite else ())
        low = self.cost(mins, opt.min_slices if self.finite else ())
        self.best = cur if self.best is None else min(self.best, cur)
        self.worst = max(self.worst, cur)
        # costs are integers: without rounding, they are exact
        exact = self.worst < 1 << EXACT[ct]
        self.tol = tol = 0 if exact else Fraction(RTOL[ct])
        check(close(opt.total_cost, cur, tol), 'total_cost',
              f'{opt.total_cost:.40g}', 'is', cur)
        check(close(opt.min_total_cost, low, tol), 'min_total_cost',
              f'{opt.min_total_cost:.40g}', 'is', low)
        for name, want in (('log2_total_cost', cur),
                           ('log2_min_total_cost', low)):
            got = float(getattr(opt, name))
            check(abs(got - math.log2(want)) <= LOG2_TOL[ct] +
                  2e-7 * math.log2(want), name, got, math.log2(want))
        eps = 1 + tol
        check(low <= self.best * eps, 'the best tree costs', low,
              'but a tree of cost', self.best, 'was held')
        if self.last_min is not None:
            check(low <= self.last_min * eps, 'min_total_cost increased from',
                  self.last_min, 'to', low)
            check(opt.min_total_cost <= self.reported,
                  'reported min_total_cost increased')
        self.last_min = low
        self.reported = opt.min_total_cost
        ok, msg = opt.is_valid(return_message=True)
        check(ok, 'is_valid()', msg)
        check(opt.is_valid() is True, 'is_valid()')
        self.costs.append(cur)
        return cur


__all__ = [k for k in dir() if not k.startswith('_')]


@st.composite
def finite_cases(draw, max_t=10, max_rounds=6, min_t=2, sparse=True):
    net = draw(tree_nets(min_t=min_t, max_t=max_t, max_extra=max_t))
    sp, n = draw(sparse_part(net)) if sparse else (None, None)
    types = [t for t in COST_TYPES if fits(net, t)]
    m = Model(net, net['path'])
    xs = sorted({x for t in m.used for x in net['ts'][t]}, key=repr)
    k = draw(st.sampled_from([0, 0, 0, 1, 2, 4]))
    skip_inds = draw(
        st.lists(st.sampled_from(xs), max_size=k, unique=True)) if xs else []
    spx = tuple(sp or ())
    full = m.width(m.steps, (), spx, n)
    low = max([0.0] + [
        width(t & frozenset(skip_inds), net['dims'], spx, n)
        for t in m.tensors(m.steps)
    ])
    how = draw(st.sampled_from(['between', 'between', 'tensor', 'low', 'wide']))
    if how == 'low':
        mw = low
    elif how == 'wide':
        mw = full + draw(st.sampled_from([0, 0.5, 10]))
    elif how == 'between':
        mw = low + (full - low) * draw(st.sampled_from(
            [.2, .5, .7, .9, .33, .95]))
    else:
        t = draw(st.sampled_from(m.tensors(m.steps)))
        t = sorted(t, key=repr)
        drop = draw(st.lists(st.sampled_from(t), max_size=4)) if t else []
        mw = max(low, width(frozenset(t) - frozenset(drop), net['dims'], spx,
                            n))
    return dict(net,
                sparse=sp,
                n_projs=n,
                skip=tuple(skip_inds),
                max_width=mw,
                cost_type=draw(st.sampled_from(types)),
                width_type=draw(st.sampled_from(WIDTH_TYPES)),
                seed=draw(st.integers(0, 1 << 32)),
                ops=draw(histories(max_rounds)),
                disable=draw(st.booleans()),
                new_slices=draw(st.sampled_from([0, 0, 1, 2, 5])),
                update_slices=draw(st.booleans()))


WIDTH_TYPES = ('float32', 'float64', 'float128')
# the width types round sums of logarithms
WIDTH_TOL = dict(float32=3e-5, float64=1e-10, float128=1e-10)


def width_model(c):
    from tnco.optimize.finite_width.cost_model import SimpleCostModel
    return SimpleCostModel(c['max_width'],
                           width_type=c['width_type'],
                           cost_type=c['cost_type'],
                           sparse_inds=c['sparse'],
                           n_projs=c['n_projs'])


def finite_optimizer(c, m, **kw):
    from tnco.optimize.finite_width import Optimizer
    opts = dict(seed=c['seed'],
                skip_slices=list(c['skip']) or None,
                max_number_new_slices=c['new_slices'],
                disable_shared_inds=c['disable'] or not shares(m))
    opts.update(kw)
    return Optimizer(build_tree(c), width_model(c), **opts)


def lift_width(c, m):
    """Moves max_width away from where rounding decides feasibility: the
    tensors made of unsliceable indices must fit with some room."""
    sp = tuple(c['sparse'] or ())
    need = max(
        width(t & frozenset(c['skip']), c['dims'], sp, c['n_projs'])
        for t in m.tensors(m.steps))
    tol = WIDTH_TOL[c['width_type']] * (1 + need)
    return c if c['max_width'] > need + tol else dict(
        c, max_width=need + 2 * tol)


__all__ = [k for k in dir() if not k.startswith('_')]
