"""C10: cost and width models compute the documented formulas."""
import copy
import math
import pickle
from decimal import Decimal

from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403
from oracles import prod, width
from tnco.optimize.finite_width.cost_model import SimpleCostModel as FModel
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as IModel

TYPES = COST_TYPES
EPS = dict(float32=2.0**-23, float64=2.0**-52, float128=2.0**-52)
MAXBITS = dict(float32=127, float64=1023, float128=1023, float1024=10**6)


def name(k, naming):
    return k if naming == 'int' else f'i{k}' if naming == 'str' else ('i', k)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([3, 6, 6, 12, 30, 60, 150, 400]))
    naming = draw(st.sampled_from(['int', 'str', 'tuple']))
    xs = [name(k, naming) for k in range(n)]
    uni = draw(st.booleans())
    pool = draw(st.sampled_from([(1, 2), (2, 3, 5), (1, 2, 7, 1000),
                                 (2**20, 3), (2**33 + 1, 2**62, 10**15)]))
    import random
    rng = random.Random(draw(st.integers(0, 1 << 30)))
    d0 = rng.choice(pool)
    dims = {x: d0 if uni else rng.choice(pool) for x in xs}

    def subset(p):
        ys = [x for x in xs if rng.random() < p]
        rng.shuffle(ys)
        return tuple(ys)

    a = subset(draw(st.sampled_from([.5, .9, .1])))
    b = subset(draw(st.sampled_from([.5, .9, .1])))
    c = tuple(x for x in a + b if rng.random() < .5)
    c = tuple(dict.fromkeys(c))
    sparse = n_projs = None
    if draw(st.booleans()):
        sparse = subset(draw(st.sampled_from([.3, .8, 0])))
        if sparse:
            present = prod(dims[x] for x in set(sparse) & set(a + b))
            n_projs = min(1 << 62, max(1, draw(
                st.sampled_from([1, 2, 3, 17, 1000, present, present - 1,
                                 present + 1, present // 3]))))
    return dict(dims=dims, uni=uni, a=a, b=b, c=c, sparse=sparse,
                n_projs=n_projs,
                slices=subset(draw(st.sampled_from([0, .1, .5]))),
                cost_type=draw(st.sampled_from(TYPES)),
                width_type=draw(st.sampled_from(WIDTH_TYPES)),
                as_int=draw(st.booleans()),
                gen=draw(st.booleans()))


def cost(xs, c):
    sp = frozenset(c['sparse'] or ())
    xs = frozenset(xs)
    dense = prod(c['dims'][x] for x in xs - sp)
    s = prod(c['dims'][x] for x in xs & sp)
    return dense * (min(s, c['n_projs']) if sp else s)


def value(x):
    if isinstance(x, (int, float)):
        if math.isinf(x):
            return x
        return Fraction(x)
    return Fraction(Decimal(str(x)))


def agrees(got, want, ct, n):
    got = value(got)
    if ct == 'float1024':
        return got == want if want.bit_length() < 1000 else abs(
            got - want) <= want * Fraction(1, 1 << 990)
    return abs(got - want) <= want * Fraction(EPS[ct]) * (n + 2)


def call(c, xs):
    return iter(xs) if c['gen'] else list(xs)


def dims_of(c):
    if c['as_int'] and c['uni']:
        return next(iter(c['dims'].values()))
    return dict(c['dims'])


def fits_type(want, ct):
    return want.bit_length() + 1 < MAXBITS[ct]


def run_infinite(c):
    ct = c['cost_type']
    m = IModel(cost_type=ct, sparse_inds=c['sparse'], n_projs=c['n_projs'])
    check(m.cost_type == ct, 'cost_type')
    check(m.n_projs == c['n_projs'], 'n_projs')
    check((m.sparse_inds is None) == (c['sparse'] is None) and
          frozenset(m.sparse_inds or ()) == frozenset(c['sparse'] or ()),
          'sparse_inds')
    want = cost(c['a'] + c['b'], c)
    full = prod(c['dims'][x] for x in set(c['a'] + c['b']))
    if not fits_type(full, ct):
        skip()
    got = m.contraction_cost(call(c, c['a']), call(c, c['b']),
                             call(c, c['c']), dims_of(c))
    n = len(set(c['a'] + c['b']))
    check(agrees(got, want, ct, n), f'cost in {ct}', got, 'is', want)
    # symmetric
    got = m.contraction_cost(call(c, c['b']), call(c, c['a']), [], dims_of(c))
    check(agrees(got, want, ct, n), f'cost in {ct} (swapped)', got, want)
    return dict(nontrivial=n > 3,
                tags=[ct, 'sparse' if c['sparse'] else 'dense',
                      'capped' if want < full else 'not capped',
                      'beyond 2^53' if want >> 53 else 'below 2^53'])


def run_finite(c):
    ct, wt = c['cost_type'], c['width_type']
    m = FModel(10, cost_type=ct, width_type=wt, sparse_inds=c['sparse'],
               n_projs=c['n_projs'])
    check(m.cost_type == ct and m.width_type == wt and m.max_width == 10,
          'attributes')
    xs = set(c['a'] + c['b']) | set(c['slices'])
    want = cost(xs, c)
    full = prod(c['dims'][x] for x in xs)
    if fits_type(full, ct):
        got = m.contraction_cost(call(c, c['a']), call(c, c['b']),
                                 call(c, c['c']), dims_of(c),
                                 call(c, c['slices']))
        check(agrees(got, want, ct, len(xs)), f'sliced cost in {ct}', got,
              'is', want)
        # without slices: the model without memory limit
        i = IModel(cost_type=ct, sparse_inds=c['sparse'],
                   n_projs=c['n_projs'])
        x = i.contraction_cost(c['a'], c['b'], c['c'], dims_of(c))
        y = m.contraction_cost(c['a'], c['b'], c['c'], dims_of(c), ())
        check(x == y, 'no slices: the two models differ', x, y)
    # width
    sp = c['sparse'] or ()
    for t in (c['a'], c['b'], ()):
        w = width(t, c['dims'], sp, c['n_projs'])
        got = m.width(call(c, t), dims_of(c))
        eps = EPS[wt]
        check(abs(float(got) - w) <= eps * (len(t) + 3) * (w + 1),
              f'width in {wt}', got, w)
        # flipping one index
        for x in list(c['dims'])[:6]:
            w2 = width(set(t) ^ {x}, c['dims'], sp, c['n_projs'])
            d = m.delta_width(call(c, t), dims_of(c), x)
            check(abs(float(d) - (w2 - w)) <= eps * (len(t) + 3) *
                  (w + w2 + 1), f'delta_width of {x} in {wt}', d, w2 - w)
    return dict(nontrivial=len(xs) > 3 and want > 1,
                tags=[ct, wt, 'sparse' if c['sparse'] else 'dense',
                      'sliced' if c['slices'] else 'not sliced'])


def run_agree(c):
    """All types agree with each other to the precision of the coarser one."""
    xs = set(c['a'] + c['b']) | set(c['slices'])
    if not fits_type(prod(c['dims'][x] for x in xs), 'float32'):
        c = dict(c, dims={x: d % 7 + 1 for x, d in c['dims'].items()},
                 uni=False)
        if not fits_type(prod(c['dims'][x] for x in xs), 'float32'):
            skip()
    got = []
    for ct in TYPES:
        for wt in WIDTH_TYPES:
            m = FModel(3, cost_type=ct, width_type=wt,
                       sparse_inds=c['sparse'], n_projs=c['n_projs'])
            got.append(value(m.contraction_cost(c['a'], c['b'], c['c'],
                                                dims_of(c), c['slices'])))
    tol = Fraction(EPS['float32'] * (len(xs) + 2))
    check(max(got) - min(got) <= tol * max(got), 'types disagree', got)
    return dict(nontrivial=max(got) > 1)


def models(c):
    kw = dict(sparse_inds=c['sparse'], n_projs=c['n_projs'],
              cost_type=c['cost_type'])
    return (IModel(**kw),
            FModel(len(c['dims']) / 3, width_type=c['width_type'], **kw))


def run_copy(c):
    xs = set(c['a'] + c['b']) | set(c['slices'])
    big = not fits_type(prod(c['dims'][x] for x in xs), c['cost_type'])
    for m in models(c):
        for how in ('copy', 'deepcopy', 2, 3, 4, 5):
            q = (getattr(copy, how)(m) if isinstance(how, str) else
                 pickle.loads(pickle.dumps(m, how)))
            check(type(q) is type(m) and q == m and m == q, how, 'not equal')
            for k in ('cost_type', 'sparse_inds', 'n_projs', 'max_width',
                      'width_type'):
                check(getattr(q, k, 0) == getattr(m, k, 0), how, k)
            if not big:
                args = (c['a'], c['b'], c['c'], dims_of(c))
                if isinstance(m, FModel):
                    args += (c['slices'],)
                check(q.contraction_cost(*args) == m.contraction_cost(*args),
                      how, 'another cost')
    # different models are different
    i, f = models(c)
    other = 'float32' if c['cost_type'] != 'float32' else 'float64'
    check(not (i == models(dict(c, cost_type=other))[0]), 'cost_type')
    check(not (f == models(dict(c, cost_type=other))[1]), 'cost_type')
    other = 'float32' if c['width_type'] != 'float32' else 'float64'
    check(not (f == models(dict(c, width_type=other))[1]), 'width_type')
    check(not (f == models(dict(c, dims=list(c['dims']) + [0]))[1]),
          'max_width')
    if c['sparse']:
        for j in (0, 1):
            check(not (models(c)[j] == models(dict(
                c, n_projs=c['n_projs'] + 1))[j]), 'n_projs')
            check(not (models(c)[j] == models(dict(
                c, sparse=c['sparse'] + ('new',)))[j]), 'sparse_inds')


def run_refuse(c):
    did = []

    def refuse(what, f, types=Exception):
        did.append(what)
        expect_raises(f, types, what)

    big = dict(c, dims={x: d % 5 + 1 for x, d in c['dims'].items()})
    dims = big['dims']
    i, f = models(big)
    a, b = c['a'], c['b']
    # inds_C is not within the others
    x = next((x for x in dims if x not in a + b), None)
    if x is not None:
        refuse('inds_C', lambda: i.contraction_cost(a, b, [x], dims))
        refuse('inds_C', lambda: f.contraction_cost(a, b, [x], dims, ()),
               ValueError)
    if a:
        less = {k: v for k, v in dims.items() if k != a[0]}
        refuse('missing dims', lambda: i.contraction_cost(a, b, [], less),
               ValueError)
        refuse('missing dims', lambda: f.contraction_cost(a, b, [], less, ()),
               ValueError)
        refuse('missing dims', lambda: f.width(a, less), ValueError)
        refuse('missing dims', lambda: f.delta_width(a, less, a[0]),
               ValueError)
        zero = dict(dims, **{}) | {a[0]: 0}
        refuse('dimension 0', lambda: i.contraction_cost(a, b, [], zero))
        refuse('dimension 0', lambda: f.width(a, zero))
    for M in (lambda **k: IModel(**k), lambda **k: FModel(5, **k)):
        refuse('cost_type', lambda: M(cost_type='float16'),
               NotImplementedError)
        refuse('n_projs', lambda: M(sparse_inds=['a'], n_projs=0), ValueError)
        refuse('n_projs', lambda: M(sparse_inds=['a'], n_projs=-3),
               ValueError)
        refuse('n_projs', lambda: M(sparse_inds=['a'], n_projs=1.5),
               ValueError)
        refuse('n_projs', lambda: M(n_projs=3), ValueError)
        refuse('no n_projs', lambda: M(sparse_inds=['a']), ValueError)
    refuse('width_type', lambda: FModel(5, width_type='float16'),
           NotImplementedError)
    refuse('width_type', lambda: FModel(5, width_type='float1024'),
           NotImplementedError)
    refuse('max_width', lambda: FModel(-1), ValueError)
    return dict(nontrivial=len(did) > 15)


C = cases()
R = 'more than three indices are involved'
SUBS = [
    Sub('infinite', C, run_infinite, 6000, 600000, R, 1),
    Sub('finite', C, run_finite, 6000, 500000, R, 1.5),
    Sub('agree', C, run_agree, 1200, 60000, 'the cost is above one', .5),
    Sub('copies', C, run_copy, 800, 40000, 'every case', .5),
    Sub('refuse', C, run_refuse, 400, 10000, 'every kind of request applies',
        .3),
]
