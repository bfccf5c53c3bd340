"""C31: Test-network generators and validity helpers meet their contract."""
import pickle
import random
from collections import Counter

from oracles import components, networks
from harness import Sub, check, expect_raises, known, st
from trees import Model, build_tree, tree_nets
from twin import twin
from tnco.optimize.infinite_memory import Optimizer
from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
from tnco.optimize.prob import BaseProbability
from tnco.testing.utils import (generate_random_inds, generate_random_tensors,
                                get_connected_components,
                                is_valid_contraction_tree)


def wrap(xs, how):
    return dict(list=list, tuple=tuple, iter=iter)[how](xs)


# ---- generate_random_tensors -------------------------------------------------------
@st.composite
def requests(draw, max_t=12, max_extra=14):
    k = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5, 6]))
    n = draw(st.integers(2, max_t))
    out = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    need = max(n + 1 - k, 0)
    n_inds = need + out + draw(st.integers(-2, max_extra))
    return dict(n=n, n_inds=max(n_inds, 0), k=k, out=out,
                n_cc=draw(st.sampled_from([1, 1, 2, 3, 4])),
                names=draw(st.booleans()), seed=draw(st.integers(0, 2**32 - 1)))


def generate(c):
    return generate_random_tensors(c['n'], c['n_inds'], c['k'],
                                   n_output_inds=c['out'], n_cc=c['n_cc'],
                                   randomize_names=c['names'], seed=c['seed'])


def picture(c):
    try:
        ts, out = generate(c)
    except ValueError as e:
        return str(e)
    return repr((list(ts), sorted(out, key=repr)))


def run_generate(c):
    n, k, n_cc = c['n'], c['k'], c['n_cc']
    if n < k or c['n_inds'] - c['out'] < n + 1 - k:
        expect_raises(lambda: generate(c), ValueError, 'infeasible')
        return dict(tags=['infeasible'])
    try:
        ts, out = generate(c)
    except ValueError as e:
        # It may give up if the tensors cannot, or can hardly, be different
        check(c['n_inds'] < 2 * n, 'gave up', e)
        check(picture(c) == str(e), 'seed')
        return dict(tags=['gave up'], nontrivial=False)
    ts = [tuple(xs) for xs in ts]
    count = Counter(x for xs in ts for x in xs)
    check(len(ts) == n * n_cc, 'tensors', len(ts))
    check(len(count) == c['n_inds'] * n_cc, 'indices', len(count))
    check(len(set(out)) == c['out'] * n_cc and set(out) <= set(count),
          'output', out)
    check(all(len(set(xs)) == len(xs) for xs in ts), 'repeated index')
    check(all(ts), 'tensor without indices')
    check(len(set(ts)) == len(ts), 'tensors are not unique')
    for x, m in count.items():
        if x not in out:
            check(m == k, 'index on', m, 'tensors, not', k)
    # The output is one of the tensors an output index connects: half of the
    # output indices are hyper-indices, if there are any.
    hyper = (c['out'] + 1) // 2 if k > 2 else 0
    check(sorted(count[x] for x in out) == sorted(
        ([k - 1] * hyper + [1] * (c['out'] - hyper)) * n_cc), 'output indices',
          [count[x] for x in out])
    cc = components(ts)
    check(len(cc) == n_cc and all(len(x) == n for x in cc), 'components', cc)
    for x in cc:
        inds = {y for t in x for y in ts[t]}
        check(len(inds) == c['n_inds'] and len(inds & set(out)) == c['out'],
              'indices of a component')
    if not c['names']:
        check(set(count) == set(range(c['n_inds'] * n_cc)), 'names')
    check(repr(generate(c)[0]) == repr(ts) and generate(c)[1] == out, 'seed')
    return dict(nontrivial=n > 2,
                tags=['k:%d' % k, 'cc:%d' % n_cc] + ['out'] * bool(out) +
                ['names'] * c['names'])


def run_twin(c):
    check(picture(c) == twin('checks.c31', 'picture', c),
          'another hash seed gives another network')


def run_seeds(c):
    """Different seeds give different networks (but for coincidences)."""
    got = {picture(dict(c, seed=c['seed'] + i)) for i in range(4)}
    check(len(got) > 1, 'the seed is ignored')


# ---- generate_random_inds -----------------------------------------------------------
def run_inds(c):
    xs = generate_random_inds(c['n'], seed=c['seed'])
    check(len(xs) == len(set(xs)) == max(c['n'], 0), 'names', len(xs))
    check(xs == generate_random_inds(c['n'], seed=c['seed']), 'seed')
    if c['n'] >= 2:
        check(xs != generate_random_inds(c['n'], seed=c['seed'] + 1), 'seeds')
        # The random state of the program is not used, nor changed
        state = random.getstate()
        generate_random_inds(c['n'], seed=c['seed'])
        check(state == random.getstate(), 'global random state')


# ---- get_connected_components ---------------------------------------------------------
@st.composite
def component_cases(draw):
    net = draw(networks(min_t=draw(st.sampled_from([1, 4, 6, 8])), max_t=12,
                        max_extra=draw(st.sampled_from([1, 3, 6])),
                        link=draw(st.sampled_from([None, 5, 7, 8]))))
    ts = [list(xs) for xs in net['ts']]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        ts.insert(draw(st.integers(0, len(ts))), [])
    if draw(st.booleans()):
        ts = list(draw(st.permutations(ts)))
    if draw(st.booleans()) and any(ts):
        # The same tensor twice, and a repeated index
        xs = draw(st.sampled_from([xs for xs in ts if xs]))
        ts.insert(draw(st.integers(0, len(ts))), xs + xs[:1])
    return dict(ts=ts if draw(st.integers(0, 20)) else [],
                how=draw(st.sampled_from(['list', 'tuple', 'iter'])),
                inner=draw(st.sampled_from(['list', 'tuple', 'set'])))


def run_components(c):
    inner = dict(list=list, tuple=tuple, set=frozenset)[c['inner']]
    got = get_connected_components(wrap([inner(xs) for xs in c['ts']],
                                        c['how']))
    empty = [t for t, xs in enumerate(c['ts']) if not xs]
    got = raw = sorted(sorted(x) for x in got)
    # Tensors without indices are either left out or on their own
    got = sorted(x for x in got if not (len(x) == 1 and x[0] in empty))
    want = [x for x in components(c['ts']) if c['ts'][x[0]]]
    if got != want and empty:
        # Known: positions are those among the tensors which are not empty
        full = [t for t, xs in enumerate(c['ts']) if xs]
        if raw == [[full.index(t) for t in x] for x in want] and known(
                'components-positions'):
            return dict(tags=['known'], nontrivial=False)
    check(got == want, 'components', got, want)
    return dict(nontrivial=len(want) > 1,
                tags=['components:%d' % min(len(want), 4)] +
                ['empty'] * bool(empty))


# ---- is_valid_contraction_tree ----------------------------------------------------------
CHANGES = ('none', 'none', 'drop', 'add', 'swap', 'fewer', 'more', 'dims',
           'dims-int', 'dims-missing', 'output-less', 'output-more', 'hyper',
           'hyper-missing', 'shared')


@st.composite
def tree_cases(draw):
    c = draw(tree_nets(max_t=draw(st.sampled_from([3, 4, 9])), big=False))
    return dict(c, updates=draw(st.integers(0, 5)), 
                change=draw(st.sampled_from(CHANGES)), at=draw(
                    st.integers(0, 999)),
                how=draw(st.sampled_from(['list', 'tuple', 'iter'])),
                given=draw(st.sets(st.sampled_from(
                    ['ts_inds', 'dims', 'output_inds', 'hyper_count']))))


def run_valid(c):
    m = Model(c, c['path'])
    t = build_tree(c)
    if c['updates']:
        # Any tree of the network: the one an optimizer ends with
        opt = Optimizer(t, SimpleCostModel(), seed=c['at'],
                        disable_shared_inds=True)
        for _ in range(c['updates']):
            opt.update(BaseProbability())
        t = opt.ctree
    steps = m.check_tree(t)
    shared = all(m.inds(a) & m.inds(b) for a, b in steps)
    ts = [list(c['ts'][x]) for x in m.used]
    inds = sorted({x for xs in ts for x in xs}, key=repr)
    root = m.inds(frozenset(m.used))
    count = {x: sum(x in xs for xs in ts) - 1 + (x in root) for x in inds}
    dims = {x: c['dims'][x] for x in inds}
    k, change = c['at'], c['change']
    given = set(c['given'])
    arg = dict(ts_inds=ts, dims=dims, output_inds=sorted(root, key=repr),
               hyper_count={x: n for x, n in count.items()})
    extra = {}
    wrong = True
    if change in ('drop', 'add', 'swap', 'fewer', 'more'):
        given.add('ts_inds')
        i = k % len(ts)
        if change == 'drop' and ts[i]:
            ts[i].pop(k // 16 % len(ts[i]))
        elif change == 'add':
            ts[i].append(('another', k))
        elif change == 'swap':
            j = (i + 1 + k // 16) % len(ts)
            ts[i], ts[j] = ts[j], ts[i]
            wrong = set(ts[i]) != set(ts[j])
        elif change == 'fewer':
            ts.pop()
        elif change == 'more':
            ts.append(ts[i])
        else:
            wrong = False
    elif change in ('dims', 'dims-int', 'dims-missing') and inds:
        given.add('dims')
        x = inds[k % len(inds)]
        if change == 'dims':
            dims[x] += 1
        elif change == 'dims-missing':
            del dims[x]
        else:
            arg['dims'] = 1 + k % 3
            wrong = any(d != arg['dims'] for d in dims.values())
    elif change == 'output-less' and root:
        given.add('output_inds')
        arg['output_inds'].pop(k % len(root))
    elif change == 'output-more':
        given.add('output_inds')
        arg['output_inds'].append(([x for x in inds if x not in root] +
                                   ['another'])[0])
    elif change in ('hyper', 'hyper-missing') and inds:
        given.add('hyper_count')
        x = inds[k % len(inds)]
        if change == 'hyper':
            arg['hyper_count'][x] += 1 if k % 2 else -1
        else:
            del arg['hyper_count'][x]
    elif change == 'shared':
        extra['check_shared_inds'] = True
        wrong = not shared
    else:
        wrong = False
    if change == 'none':
        extra['check_shared_inds'] = bool(k % 2) and shared
    arg = {x: y for x, y in arg.items() if x in given}
    for x in ('ts_inds', 'output_inds'):
        if x in arg:
            arg[x] = wrap(arg[x], c['how'])
    before = [(n.children, n.parent) for n in t.nodes], list(t.inds[:])
    try:
        got = is_valid_contraction_tree(t, **arg, **extra)
    except KeyError:
        check('missing' in change, 'KeyError')
        got = False
    except AssertionError:
        # Known: a tree which the moves tried on a copy of it do not change
        other = pickle.loads(pickle.dumps(t))
        for i in range(len(other)):
            other.swap_with_nn(i)
        if other == t and known('valid-small-trees'):
            return dict(tags=['known'], nontrivial=False)
        raise
    if not got and not wrong and c['how'] == 'iter' and (
            'ts_inds' in arg and inds or 'output_inds' in arg and root):
        # Known: an iterator is used twice
        if known('valid-iterators'):
            return dict(tags=['known'], nontrivial=False)
    check(bool(got) is not wrong, change, got, 'given', sorted(arg))
    check(before == ([(n.children, n.parent) for n in t.nodes],
                     list(t.inds[:])), 'the tree was changed')
    return dict(nontrivial=bool(given) or bool(extra),
                tags=['wrong' if wrong else 'right', change])


SUBS = [
    Sub('generate', requests(), run_generate, 1500, 60000,
        'infeasible, or more than two tensors', 3),
    Sub('generate-large', requests(max_t=80, max_extra=200), run_generate, 100,
        5000, 'infeasible, or more than two tensors', 2),
    Sub('hash-seed', requests(max_t=9), run_twin, 150, 5000, '', 2, shards=4),
    Sub('seeds', requests(max_t=10).filter(
        lambda c: c['names'] and c['n'] >= c['k'] and
        c['n_inds'] - c['out'] >= 2 * c['n']), run_seeds, 150, 5000, '', 1),
    Sub('inds', st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(-2, 20), st.integers(0, 300)),
        seed=st.integers(0, 2**40))), run_inds, 300, 10000, '', 1),
    Sub('components', component_cases(), run_components, 2000, 100000,
        'two components or more', 2),
    Sub('valid', tree_cases(), run_valid, 2500, 100000,
        'something is given to be checked', 4),
]
