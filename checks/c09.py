"""C09: acceptance rules follow their documented probabilities."""
import copy
import math
import pickle

import mpmath
from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403
from oracles import prod
from tnco.optimize import prob as P
from tnco.optimize.infinite_memory import Optimizer
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
from tnco.optimize.finite_width import Optimizer as FOptimizer

BITS = dict(float32=24, float64=53, float128=53, float1024=53)

# numbers that every type represents exactly: k * 2^e
numbers = st.one_of(
    st.tuples(st.integers(1, 1 << 20), st.integers(-10, 10)),
    st.tuples(st.integers(1, 1 << 24), st.integers(-40, 40)),
    st.tuples(st.integers(1, 9), st.just(0)))
betas = st.one_of(
    st.sampled_from([0.0, 1.0, 0.5, 2.0, 10.0, 100.0, 1e3, 1e6, 1e300, 1e-6]),
    st.floats(0, 50, allow_subnormal=False))


def value(x):
    return math.ldexp(x[0], x[1])


def num(x, ct):
    if ct == 'float1024':
        from tnco_core import float1024
        return float1024(x)
    return x


def reference(d, o, beta):
    """The probability to accept, in high precision."""
    if d <= 0:
        return mpmath.mpf(1)
    with mpmath.workprec(1200):
        return mpmath.power(1 + mpmath.mpf(d) / mpmath.mpf(o),
                            -mpmath.mpf(beta))


def run_formula(c):
    ct = c['type']
    o, beta = value(c['old']), c['beta']

    def wrap(r):
        return lambda d, o: r(num(d, ct), num(o, ct))

    ds = [value(c['delta']), value(c['delta2'])]
    if c['neg']:
        ds.append(-min(ds[0], o))
    ds.append(0.0)
    base = P.BaseProbability(cost_type=ct)
    greedy = P.Greedy(cost_type=ct)
    mh = P.MetropolisHastings(beta, cost_type=ct)
    for r in (base, greedy, mh):
        check(r.cost_type == ct, 'cost_type', r.cost_type)
    check(mh.beta == beta, 'beta', mh.beta)
    check(P.MetropolisHastings(cost_type=ct).beta == 0, 'default beta')
    base, greedy, mh = map(wrap, (base, greedy, mh))
    for d in ds:
        check(base(d, o) == 1, 'base', d, o)
        check(greedy(d, o) == (1 if d <= 0 else 0), 'greedy', d, o)
        got = mh(d, o)
        p = reference(d, o, beta)
        g = float(got)
        check(0 <= g <= 1, 'not a probability', g)
        eps = 2.0**(3 - BITS[ct])
        # relative error of a power
        tol = eps * (1 + beta * (1 + abs(math.log1p(d / o)) if d > 0 else 0))
        check(abs(g - float(p)) <= min(1.0, tol) * max(float(p), 1e-30)
              + 1e-300 or (beta > 1e5 and ct != 'float1024'),
              f'{ct}: P({d}, {o}, beta={beta}) = {g} instead of {p}')
        if d <= 0:
            check(got == 1, 'non-increasing move', got)
        if beta == 0:
            check(got == 1, 'beta=0', got)
        if d > 0 and beta > 1e5 and d / o > 1e-2:
            check(g < 1e-200, 'huge beta', g)
    # monotone in delta and in beta
    d1, d2 = sorted(ds[:2])
    check(mh(d1, o) >= mh(d2, o), 'not decreasing in delta')
    b2 = beta + c['more']
    check(wrap(P.MetropolisHastings(b2, cost_type=ct))(d1, o) <= mh(d1, o),
          'not decreasing in beta')
    return dict(nontrivial=beta > 0, tags=[ct])


def run_copy(c):
    ct, beta = c['type'], c['beta']
    o, d = value(c['old']), value(c['delta'])
    for r in (P.BaseProbability(cost_type=ct), P.Greedy(cost_type=ct),
              P.MetropolisHastings(beta, cost_type=ct)):
        for how in ('copy', 'deepcopy', 'ctor', 0, 1, 2, 3, 4, 5):
            if how == 'ctor':
                q = type(r)(r)
            elif isinstance(how, str):
                q = getattr(copy, how)(r)
            else:
                if how < 2:
                    continue
                q = pickle.loads(pickle.dumps(r, how))
            check(type(q) is type(r), how, 'type', type(q))
            check(q == r, how, 'not equal')
            check(repr(q) == repr(r), how, 'repr', repr(q), repr(r))
            check(q.cost_type == ct, how, 'cost_type')
            for x in (d, -min(d, o), 0):
                check(q(num(x, ct), num(o, ct)) == r(num(x, ct), num(o, ct)), how, 'another probability')
            if hasattr(r, 'beta'):
                check(q.beta == beta, how, 'beta', q.beta)
    a = P.MetropolisHastings(beta, cost_type=ct)
    check(not (a == P.MetropolisHastings(beta + 1 + beta, cost_type=ct)),
          'rules with different beta are equal')
    a.beta = beta + 1
    check(a.beta == beta + 1 and
          a(num(d, ct), num(o, ct)) == P.MetropolisHastings(
              beta + 1, cost_type=ct)(num(d, ct), num(o, ct)),
          'setting beta')
    for f in (P.BaseProbability, P.Greedy, P.MetropolisHastings):
        expect_raises(lambda: f(cost_type='float16'), Exception, 'cost_type')


@st.composite
def numeric(draw):
    return dict(type=draw(st.sampled_from(COST_TYPES)),
                old=draw(numbers),
                delta=draw(numbers),
                delta2=draw(numbers),
                neg=draw(st.booleans()),
                beta=draw(betas),
                more=draw(st.sampled_from([0.0, 0.1, 1.0, 100.0])))


# ---- what the rules mean for a run


def new(c, m, rule=None, finite=False):
    if finite:
        return finite_optimizer(c, m)
    return Optimizer(build_tree(c),
                     SimpleCostModel(cost_type=c['cost_type'],
                                     sparse_inds=c['sparse'],
                                     n_projs=c['n_projs']),
                     seed=c['seed'],
                     disable_shared_inds=c['disable'] or not shares(m))


def run_greedy(c, finite):
    m = Model(c, c['path'])
    if finite:
        c = lift_width(c, m)
    opt = new(c, m, finite=finite)
    h = CostHistory(m, c, opt, finite)
    last = h.observe()
    g = make_rule(('greedy',), c['cost_type'])
    ups = 0
    for rule, k in c['ops']:
        # something else first: leaves the minimum
        if rule[0] != 'greedy':
            opt.update(make_rule(('base',), c['cost_type']))
            last = h.observe()
        for _ in range(k):
            opt.update(g)
            cur = h.observe()
            check(cur <= last * (1 + h.tol),
                  'Greedy raised the cost from', last, 'to', cur)
            ups += cur < last
            last = cur
    return dict(nontrivial=ups > 0, tags=[c['cost_type']])


def run_limits(c, finite):
    """beta=0 is the base rule; a huge beta is Greedy."""
    m = Model(c, c['path'])
    if finite:
        c = lift_width(c, m)
    # any increase must be visible in the type: 1 + delta / old > 1
    bits = prod(c['dims'].values()).bit_length() + 6
    if bits >= EXACT[c['cost_type']]:
        c = dict(c, cost_type='float1024')
    ct = c['cost_type']
    moved = False
    for x, y in ((('base',), ('mh', 0.0)), (('greedy',), ('mh', 1e300))):
        a, b = new(c, m, finite=finite), new(c, m, finite=finite)
        x, y = make_rule(x, ct), make_rule(y, ct)
        for rule, k in c['ops']:
            for _ in range(k):
                a.update(x)
                b.update(y)
                s = m.check_tree(a.ctree)
                t = m.check_tree(b.ctree)
                check({frozenset(z) for z in s} == {frozenset(z) for z in t},
                      repr(x), 'and', repr(y), 'do different moves')
                if finite:
                    check(a.slices == b.slices, 'slices')
        moved |= {frozenset(z) for z in s} != {frozenset(z) for z in m.steps}
    return dict(nontrivial=moved, tags=[ct])


def run_frequency(c):
    """How often an increasing move is accepted, over many seeds: the moves
    proposed are those the base rule (same seed) makes."""
    m = Model(c, c['path'])
    ct = c['cost_type']
    start = {frozenset(x) for x in m.steps}
    old = m.cost(m.steps)
    mean = var = got = n = 0
    rule, base = make_rule(('mh', c['beta']), ct), make_rule(('base',), ct)
    tree = build_tree(c)
    cm = SimpleCostModel(cost_type=ct)
    for s in range(c['seeds']):
        seed = c['seed'] + s * 7919
        a = Optimizer(tree, cm, seed=seed)
        a.update(base)
        x = m.check_tree(a.ctree)
        if {frozenset(z) for z in x} == start:
            continue
        b = Optimizer(tree, cm, seed=seed)
        b.update(rule)
        y = m.check_tree(b.ctree)
        acc = {frozenset(z) for z in y} != start
        new_cost = m.cost(x)
        p = float(reference(new_cost - old, old, c['beta']))
        if acc:
            check({frozenset(z) for z in y} == {frozenset(z) for z in x},
                  'another move than proposed')
        if p == 1:
            check(acc, 'a non-increasing move was rejected')
        n += 1
        got += acc
        mean += p
        var += p * (1 - p)
    check(abs(got - mean) <= 6 * math.sqrt(var) + 2,
          f'{got} moves of {n} accepted, expected {mean:.1f} +- '
          f'{math.sqrt(var):.1f} (beta={c["beta"]})')
    return dict(nontrivial=var > 4, tags=[ct])


@st.composite
def triples(draw):
    """Three tensors in a triangle with open indices: one move per update."""
    d = {x: draw(st.integers(1, 6)) for x in 'abcxyz'}
    ts = (('a', 'b', 'x'), ('b', 'c', 'y'), ('a', 'c', 'z'))
    return dict(ts=ts, dims=d, out=('x', 'y', 'z'), path=((0, 1), (0, 1)),
                cost_type=draw(st.sampled_from(COST_TYPES)),
                beta=draw(st.sampled_from([0.2, 0.5, 1.0, 2.0, 4.0])),
                seed=draw(st.integers(0, 1 << 30)), seeds=200)


F = finite_cases(max_rounds=4)
SUBS = [
    Sub('formula', numeric(), run_formula, 6000, 600000,
        'beta is positive', 1),
    Sub('copies', numeric(), run_copy, 800, 40000, 'every case', .5),
    Sub('greedy-infinite', F, lambda c: run_greedy(c, False), 800, 60000,
        'a greedy update lowered the cost', 1),
    Sub('greedy-finite', F, lambda c: run_greedy(c, True), 800, 60000,
        'a greedy update lowered the cost', 1),
    Sub('limits-infinite', F, lambda c: run_limits(c, False), 600, 40000,
        'the tree changed', .7),
    Sub('limits-finite', F, lambda c: run_limits(c, True), 600, 40000,
        'the tree changed', .7),
    Sub('frequency', triples(), run_frequency, 160, 20000,
        'the expected number of accepted moves has a variance above four', 1),
]
