"""C02: merging and splitting contraction paths."""
import random

from oracles import *  # noqa: F403
from harness import Sub, check, expect_raises, st
from tnco.utils.tn import merge_contraction_paths, split_contraction_path


@st.composite
def cases(draw):
    """n tensors, a partition into blocks, an order of contraction inside each
    block (possibly partial), and an interleaving."""
    n = draw(st.integers(1, 14))
    k = draw(st.integers(1, n))
    block = [draw(st.integers(0, k - 1)) for _ in range(n)]
    steps = []  # (leaves, leaves) in global order
    groups = {}
    for t, b in enumerate(block):
        groups.setdefault(b, []).append(frozenset([t]))
    rng = random.Random(draw(st.integers(0, 1 << 16)))
    partial = draw(st.integers(0, 3)) == 0
    stop = {b: (rng.randint(1, len(g)) if partial else 1)
            for b, g in groups.items()}
    todo = [b for b, g in groups.items() for _ in range(len(g) - stop[b])]
    rng.shuffle(todo)
    for b in todo:
        g = groups[b]
        i, j = rng.sample(range(len(g)), 2)
        x, y = g[i], g[j]
        for q in sorted((i, j), reverse=True):
            g.pop(q)
        g.append(x | y)
        steps.append((b, tuple(sorted(x)), tuple(sorted(y))))
    return dict(n=n, steps=tuple(steps), flip=draw(st.integers(0, 1 << 10)))


def linear(steps, n, flip=0, base=None):
    """Linear path over `base` (default all tensors) doing the given steps."""
    pos = [frozenset([i]) for i in (range(n) if base is None else base)]
    path = []
    for k, (_, x, y) in enumerate(steps):
        i, j = pos.index(frozenset(x)), pos.index(frozenset(y))
        path.append((j, i) if (flip >> (k % 10)) & 1 else (i, j))
        for q in sorted((i, j), reverse=True):
            pos.pop(q)
        pos.append(frozenset(x) | frozenset(y))
    return path


def want(steps):
    return frozenset(
        frozenset([frozenset(x), frozenset(y)]) for _, x, y in steps)


def comps(c):
    """Original tensors grouped by the steps (including untouched ones)."""
    g = {t: frozenset([t]) for t in range(c['n'])}
    for _, x, y in c['steps']:
        u = g[x[0]] | g[y[0]]
        for t in u:
            g[t] = u
    return set(g.values())


def info(c):
    b = {}
    for s in c['steps']:
        b.setdefault(s[0], 0)
        b[s[0]] += 1
    inter = any(a[0] != z[0] for a, z in zip(c['steps'], c['steps'][1:]))
    return dict(nontrivial=len(b) > 1 and inter and max(b.values()) > 1,
                tags=[f'paths={min(len(b), 5)}'])


def run_merge(c):
    n = c['n']
    blocks = []
    for s in c['steps']:
        if s[0] not in blocks:
            blocks.append(s[0])
    random.Random(c['flip']).shuffle(blocks)
    parts = [[s for s in c['steps'] if s[0] == b] for b in blocks]
    paths = [linear(p, n, c['flip']) for p in parts]
    keep = [list(p) for p in paths]
    m0 = merge_contraction_paths(n, paths, autocomplete=False)
    check(paths == keep, 'the input was modified')
    check(merges(m0, n) == want(c['steps']),
          'merged path contracts something else', m0)
    _, left0 = walk(m0, n)
    check(set(left0) == comps(c))
    m1 = merge_contraction_paths(n, paths)
    steps, left = walk(m1, n)
    check(len(left) == 1, 'not complete', left)
    check(list(map(tuple, m1[:len(m0)])) == list(map(tuple, m0)),
          'completion is not an extension')
    # iterators are as good as lists, empty paths change nothing
    try:
        m2 = merge_contraction_paths(n, [[]] + paths + [[]], autocomplete=False)
    except Exception as e:
        raise AssertionError(f'empty path not accepted: {e!r}')
    check(merges(m2, n) == want(c['steps']))
    return info(c)


def run_overlap(c):
    """Two paths that use the same original tensor are refused."""
    n = c['n']
    blocks = sorted({s[0] for s in c['steps']})
    if not blocks:
        return dict(nontrivial=False)
    b = blocks[c['flip'] % len(blocks)]
    part = [s for s in c['steps'] if s[0] == b]
    paths = [
        linear([s for s in c['steps'] if s[0] == q], n) for q in blocks
    ] + [linear(part[:1] if c['flip'] & 1 else part, n)]
    x = linear(part, n)
    expect_raises(lambda: merge_contraction_paths(n, paths), ValueError,
                  f'merging overlapping paths {paths}')
    expect_raises(lambda: merge_contraction_paths(n, [x, x]), ValueError,
                  f'merging overlapping paths {[x, x]}')
    return info(c)


def run_split(c):
    n = c['n']
    path = linear(c['steps'], n, c['flip'])
    keep = list(path)
    cs = comps(c)
    plain = split_contraction_path(n, path)
    check(path == keep, 'the input was modified')
    paths, cc = split_contraction_path(n, iter(path),
                                       return_connected_components=True)
    check(len(paths) == len(cc), 'paths and components differ in number')
    check(sorted(map(sorted, cc)) == sorted(map(sorted, cs)),
          'components', cc, cs)
    check([list(map(tuple, p)) for p in paths if p] ==
          [list(map(tuple, p)) for p in plain], 'not the same paths')
    allm = set()
    for p, ts in zip(paths, cc):
        steps, left = walk(p, n)
        mine = [s for s in c['steps'] if set(s[1]) <= set(ts)]
        check([frozenset(s) for s in steps] == [
            frozenset([frozenset(x), frozenset(y)]) for _, x, y in mine
        ], 'a component path does not follow the path', p, mine)
        allm |= {frozenset(s) for s in steps}
    check(allm == want(c['steps']))
    # normalized: over the component's own tensors, in increasing order
    npaths, ncc = split_contraction_path(n, path, normalize_paths=True,
                                         return_connected_components=True)
    check(list(map(sorted, ncc)) == list(map(sorted, cc)))
    for p, q, ts in zip(paths, npaths, ncc):
        names = sorted(ts)
        steps, _ = walk(q, len(names))
        got = [frozenset(frozenset(names[t] for t in s) for s in ab)
               for ab in steps]
        check(got == [frozenset(s) for s in walk(p, n)[0]],
              'normalized path differs', q, names)
    check([p for p in npaths if p] == split_contraction_path(
        n, path, normalize_paths=True), 'normalized paths without components')
    # and back
    m = merge_contraction_paths(n, plain, autocomplete=False)
    check(merges(m, n) == want(c['steps']), 'split then merge')
    return info(c)


R = ('at least two components, at least one with two or more steps, and their '
     'steps interleaved')
SUBS = [
    Sub('merge', cases(), run_merge, 3000, 300000, R, 1),
    Sub('split', cases(), run_split, 3000, 300000, R, 1),
    Sub('overlap', cases(), run_overlap, 1200, 50000, R, .5),
]
