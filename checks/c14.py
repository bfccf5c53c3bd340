"""C14: loading a tensor network preserves its value and interface."""
from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from twin import twin
from tnco.app import Tensor, TensorNetwork, load_tn


def names(tag):
    """The names in (nested) tags of a fused tensor."""
    if not tag:
        return frozenset()
    if 'name' in tag:
        return frozenset([tag['name']])
    check(set(tag) == {'x', 'y'}, 'tags of a fused tensor', tag)
    return names(tag['x']) | names(tag['y'])


def open_inds(tn):
    n_on = Counter(x for t in tn.ts_inds for x in t)
    return tuple(tn.output_inds | {x for x, k in n_on.items() if k == 1})


def load(c, tn0, **kw):
    o = dict(fuse=c['fuse'], decompose_hyper_inds=c['decompose'],
             seed=c['seed'], dtype=c['dtype'])
    return quiet(load_tn, tn0, **dict(o, **kw))


def run(c):
    arrays = partial_arrays(c)
    tn0 = tensor_network(c, arrays, tags=dict(mine=1))
    tn = load(c, tn0)
    full = all(a is not None for a in arrays)
    none = all(a is None for a in arrays)
    sparse = bool(c['sparse'])
    check(tn.sparse_inds == frozenset(c['sparse'] or ()), 'sparse_inds')
    check(tn.tags['mine'] == 1, 'tags')
    hmap = tn.tags.get('hyper_inds_map')
    decomposed = c['decompose'] and full and not sparse
    fused = bool(c['fuse']) and (full or none) and not sparse
    check((hmap is not None) == bool(decomposed), 'hyper_inds_map', hmap)
    if hmap is not None:
        check(set(hmap) == set(c['dims']), 'hyper_inds_map', hmap)
        for x, r in hmap.items():
            check(hmap[r] == r and c['dims'][x] == c['dims'][r],
                  'hyper_inds_map', hmap)
    hm = hmap or {}
    check(tn.output_inds == frozenset(hm.get(x, x) for x in c['out']),
          'output_inds', tn.output_inds)
    for x, d in tn.dims.items():
        check(hm.get(x, x) == x and c['dims'][x] == d, 'dimension of', x)
    if c['dtype'] is not None:
        for a in tn.arrays:
            check(a is None or a.dtype == np.dtype(c['dtype']), 'dtype')
    if full:
        want = einsum(arrays, c['ts'], c['out'], c['dims'])
        tol = 1e-7 if c['dtype'] is None or c['dtype'].endswith('8') else 1e-4
        same_value(value(tn, c['out'], c['dims']), want, tol)
    # before fusing
    tn1 = load(c, tn0, fuse=0)
    check(len(tn1) == len(c['ts']), 'number of tensors')
    if not decomposed:
        for k, t in enumerate(tn1):
            check(t.inds == c['ts'][k] and t.dims == tuple(
                c['dims'][x] for x in c['ts'][k]) and t.tags == dict(name=k),
                  'tensor changed', t.inds, t.tags)
            check((t.array is None) == (arrays[k] is None), 'array')
            if t.array is not None:
                check(np.array_equal(t.array, arrays[k]), 'array changed')
    n_fused = 0
    check(('fuse_path' in tn.tags) == fused, 'fuse_path')
    if fused:
        path = tn.tags['fuse_path']
        ts, out = tn1.ts_inds, open_inds(tn1)
        steps, groups = walk(path, len(ts))

        def inds(s):
            return frozenset(ts[min(s)]) if len(s) == 1 else surviving(
                ts, out, s)

        for a, b in steps:
            check(inds(a) & inds(b), 'fused tensors share no index')
            w = width(inds(a | b), c['dims'])
            check(w <= c['fuse'] + 1e-9, 'fused tensor of width', w)
        n_fused = len(steps)
        check(len(groups) == len(tn), 'number of tensors')
        for s, t in zip(groups, tn):
            check(frozenset(t.inds) == inds(s), 'indices of a fused tensor',
                  t.inds)
            if full:
                part = einsum([tn1.arrays[k] for k in sorted(s)],
                              [ts[k] for k in sorted(s)], t.inds,
                              dict(tn1.dims))
                same_value(t.array, part, 1e-7 if c['dtype'] is None else 1e-4)
            elif not decomposed:
                check(names(t.tags) == s, 'tags of a fused tensor', t.tags)
    else:
        check([t.inds for t in tn] == [t.inds for t in tn1], 'fused?')
    # once more
    again = load(c, tn0)
    check(again.ts_inds == tn.ts_inds and all(
        a is b is None or np.array_equal(a, b)
        for a, b in zip(again.arrays, tn.arrays)), 'another network')
    # the input is as before
    for k, t in enumerate(tn0):
        check(t.inds == c['ts'][k] and t.tags == dict(name=k) and
              (t.array is None or np.array_equal(t.array, arrays[k])),
              'the input was modified')
    check(tn0.tags == dict(mine=1), 'the input was modified', tn0.tags)
    merged = any(k != v for k, v in hm.items())
    return dict(nontrivial=n_fused > 0 or merged,
                tags=[c['arrays'], 'identified' if merged else 'plain',
                      'fused' if n_fused else 'not fused',
                      'sparse' if sparse else 'dense'])


def picture(c):
    from checks.c13 import show_tn
    return repr(show_tn(load(c, tensor_network(c))))


def run_processes(c):
    check(picture(c) == twin('checks.c14', 'picture', c),
          'another network in another process (other order of sets)')
    return dict(nontrivial=len(c['ts']) > 2)


def run_tags(c):
    arrays = make_arrays(c)
    for tag in ('fuse_path', 'hyper_inds_map'):
        tn0 = tensor_network(c, arrays, tags={tag: 1})
        hit = (tag == 'fuse_path' and c['fuse']) or (
            tag == 'hyper_inds_map' and c['decompose'] and
            c['arrays'] != 'none')
        if hit and not c['sparse']:
            expect_raises(lambda: load(c, tn0), ValueError, 'tag present')
        else:
            check(load(c, tn0).tags[tag] == 1, 'tag changed')
    return dict(nontrivial=True)


@st.composite
def load_cases(draw, **kw):
    c = draw(array_nets(**kw))
    dtype = draw(st.sampled_from([None, None, None, 'float32', 'complex128']))
    if dtype == 'float32' and c['arrays'] == 'complex':
        dtype = None
    return dict(c, dtype=dtype,
                drop=draw(st.sampled_from([None] * 6 + [0, 3])),
                fuse=draw(st.sampled_from([0, None, 1, 2, 2.5, 3, 4, 6, 20])),
                decompose=draw(st.booleans()),
                seed=draw(st.integers(0, 1 << 32)))


R = 'tensors were fused, or indices identified'
SUBS = [
    Sub('load', load_cases(), run, 5000, 400000, R, 3),
    Sub('diagonal', load_cases(kinds=('diag',), sparse=False, min_t=2).map(
        lambda c: dict(c, decompose=True)), run, 3000, 200000, R, 1.5),
    Sub('larger', load_cases(max_t=14, max_total_log2=16), run, 500, 30000, R,
        1),
    Sub('processes', load_cases(namings=('str', 'tuple', 'mixed')),
        run_processes, 1500, 60000, 'more than two tensors', 1),
    Sub('tags', load_cases(max_t=4), run_tags, 300, 6000, 'every case', .3),
]
