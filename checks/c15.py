"""C15: contracting numerically along any path equals the einsum."""
from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from oracles import paths_for
from tnco.utils.tn import contract, get_random_contraction_path


@st.composite
def contract_cases(draw, **kw):
    c = draw(array_nets(kinds=('int', 'complex', 'diag'), sparse=False, **kw))
    n = len(c['ts'])
    # any indices may be open, also shared ones, and none has to be
    how = draw(st.sampled_from(['net', 'net', 'any', 'all', 'none', 'auto']))
    xs = sorted(c['dims'], key=repr)
    xs = [x for x in xs if any(x in t for t in c['ts'])]
    if how == 'any':
        out = tuple(draw(st.lists(st.sampled_from(xs), unique=True))
                    ) if xs else ()
    elif how == 'all':
        out = tuple(xs)
    elif how == 'none':
        out = ()
    elif how == 'auto':
        n_on = Counter(x for t in c['ts'] for x in t)
        if any(k > 2 for k in n_on.values()):
            how = 'net'
            out = c['out']
        else:
            out = tuple(x for x in xs if n_on[x] == 1)
    else:
        out = c['out']
    path = draw(paths_for(n, draw(st.booleans()))) if n else []
    return dict(c, out=out, auto=how == 'auto', path=tuple(path),
                flip=draw(st.booleans()),
                dims_as=draw(st.sampled_from(['no', 'dict', 'int'])),
                lists=draw(st.booleans()))


def run(c):
    arrays = make_arrays(c)
    ts = [list(t) if c['lists'] else tuple(t) for t in c['ts']]
    dims = None if c['dims_as'] == 'no' else dict(c['dims'])
    if c['dims_as'] == 'int' and len(set(c['dims'].values())) == 1:
        dims = next(iter(c['dims'].values()))
    path = [(y, x) if c['flip'] else (x, y) for x, y in c['path']]
    before = [a.copy() for a in arrays]
    xs, out, res = contract(path, ts, None if c['auto'] else list(c['out']),
                            arrays=list(arrays), dims=dims)
    check(all(np.array_equal(a, b) for a, b in zip(arrays, before)) and
          [tuple(t) for t in ts] == list(c['ts']), 'the input was modified')
    steps, groups = walk(path, len(ts))
    check(len(xs) == len(groups) == len(res), 'number of tensors')
    check(frozenset(out) == frozenset(c['out']), 'output_inds', out)
    for a, t in zip(res, xs):
        check(len(set(t)) == len(t), 'repeated index', t)
        check(np.asarray(a).shape == tuple(c['dims'][x] for x in t),
              'shape', np.asarray(a).shape, t)
    want = einsum(arrays, c['ts'], c['out'], c['dims'])
    same_value(einsum(res, xs, c['out'], c['dims']), want)
    # each tensor on its own: exactly what is contracted is summed
    n_on = Counter(x for t in c['ts'] for x in t)
    keep = tuple(set(c['out']) | {x for x, k in n_on.items() if k == 1})
    for s, t, a in zip(groups, xs, res):
        check(frozenset(t) == (frozenset(c['ts'][min(s)]) if len(s) == 1 else
                               surviving(c['ts'], keep, s)),
              f'indices of the contraction of {sorted(s)}', t)
        part = einsum([arrays[k] for k in sorted(s)],
                      [c['ts'][k] for k in sorted(s)], t, c['dims'])
        same_value(a, part)
    # without arrays
    ys, out2 = contract(path, ts, None if c['auto'] else list(c['out']),
                        dims=dict(c['dims']))
    check(list(map(tuple, ys)) == list(map(tuple, xs)) and out2 == out,
          'shapes only:', ys, out2, 'with arrays:', xs, out)
    hyper = any(k > 2 for k in n_on.values())
    return dict(nontrivial=len(steps) > 1,
                tags=['complete' if len(groups) == 1 else 'partial',
                      'hyper' if hyper else 'plain',
                      'shared index open' if any(n_on[x] > 1 for x in c['out'])
                      else 'usual outputs'])


def run_refuse(c):
    arrays = make_arrays(c)
    ts, out = list(c['ts']), list(c['out'])
    did = []

    def refuse(why, *a, types=ValueError, **kw):
        did.append(why)
        expect_raises(lambda: contract(*a, **kw), types, why)

    path = list(c['path'])
    refuse('neither dims nor arrays', path, ts, out)
    refuse('unknown output', path, ts, out + ['nope'], arrays=arrays)
    if arrays:
        refuse('too few arrays', path, ts, out, arrays=arrays[:-1],
               types=Exception)
        bad = list(arrays)
        bad[0] = np.ones(tuple(bad[0].shape) + (2,))
        refuse('another shape', path, ts, out, arrays=bad, types=Exception)
    n_on = Counter(x for t in ts for x in t)
    if any(k > 2 for k in n_on.values()):
        refuse('hyper-indices, no outputs', path, ts, None, arrays=arrays)
        refuse('hyper-indices, no outputs', path, ts, None, dims=c['dims'])
    for x in list(n_on)[:3]:
        less = {k: v for k, v in c['dims'].items() if k != x}
        refuse('missing dimension', path, ts, out, dims=less)
        refuse('other dimension', path, ts, out, arrays=arrays,
               dims=dict(c['dims'], **{}) | {x: c['dims'][x] + 1})
        k = next(k for k, t in enumerate(ts) if x in t)
        bad = list(arrays)
        bad[k] = np.concatenate([bad[k]] * 2, axis=ts[k].index(x))
        if n_on[x] > 1:
            refuse('inconsistent dimensions', path, ts, out, arrays=bad)
    n = len(ts)
    if n > 1:
        refuse('twice the same tensor', [(1, 1)], ts, out, arrays=arrays)
        refuse('out of range', [(0, n)], ts, out, arrays=arrays,
               types=Exception)
    return dict(nontrivial=len(did) > 7)


R = 'more than one contraction'
SUBS = [
    Sub('contract', contract_cases(), run, 6000, 600000, R, 3),
    Sub('larger', contract_cases(max_t=12, max_total_log2=16), run, 500, 30000,
        R, 1),
    Sub('refuse', contract_cases(), run_refuse, 500, 20000,
        'more than seven malformed requests', .5),
]
