"""Generators and reference models shared by the checks.

Nothing in this file uses tnco: the references are written from the definitions.
"""
import math
import random
from fractions import Fraction

import numpy as np
from harness import check, st

# --------------------------------------------------------------------------
# Networks
# --------------------------------------------------------------------------

NAMINGS = ('int', 'str', 'tuple', 'mixed')


def index_name(k, naming):
    if naming == 'int':
        return k
    if naming == 'str':
        return 'i%d' % k
    if naming == 'tuple':
        return ('q', k)
    return (k, 'x%d' % k, ('t', k), -k - 1)[k % 4]


@st.composite
def networks(draw,
             min_t=1,
             max_t=8,
             max_extra=6,
             dims=(1, 2, 3, 4),
             uniform=None,
             hyper=True,
             connected=False,
             open_inds=True,
             hyper_out=True,
             namings=NAMINGS,
             max_order=8,
             link=None,
             max_total_log2=None):
    """A tensor network: dict(ts, dims, out).

    `ts` index tuples, `dims` index -> dimension, `out` open indices.  Indices
    on a single tensor are always open.
    """
    n = draw(st.integers(min_t, max_t))
    members = []
    shape = draw(st.sampled_from(['chain', 'star', 'tree', 'tree']))
    # how often (out of 10) a tensor is linked to the ones before
    link = draw(st.sampled_from([9, 9, 10, 6])) if link is None else link
    for t in range(1, n):
        if connected or draw(st.integers(0, 9)) < link:
            p = (t - 1 if shape == 'chain' else
                 0 if shape == 'star' else draw(st.integers(0, t - 1)))
            members.append({p, t})
    n_extra = draw(st.integers(0, max_extra))
    for _ in range(n_extra):
        kind = draw(st.sampled_from([2, 2, 2, 1, 3, 4] if hyper else [2, 2, 1]))
        if kind == 1 and not open_inds:
            kind = 2
        m = {draw(st.integers(0, n - 1)) for _ in range(kind)}
        if len(m) == 1 and not open_inds:
            continue
        if members and kind > 2 and draw(st.booleans()):
            # turn an existing index into a hyper-index
            members[draw(st.integers(0, len(members) - 1))] |= m
        else:
            members.append(m)
    rng = random.Random(draw(st.integers(0, 1 << 16)))
    naming = draw(st.sampled_from(list(namings)))
    order = list(range(len(members)))
    rng.shuffle(order)
    ts = [[] for _ in range(n)]
    out = []
    dd = {}
    uni = draw(st.booleans()) if uniform is None else uniform
    d0 = draw(st.sampled_from(list(dims)))
    total = 0.0
    for k, j in enumerate(order):
        m = {t for t in members[j] if len(ts[t]) < max_order}
        if not m:
            continue
        if len(m) == 1 and not open_inds:
            continue
        x = index_name(k, naming)
        d = d0 if uni else rng.choice(list(dims))
        if max_total_log2 is not None:
            if total + math.log2(d) > max_total_log2:
                if uni:
                    continue
                d = 1
            total += math.log2(d)
        dd[x] = d
        for t in m:
            ts[t].append(x)
        if len(m) == 1:
            out.append(x)
        elif (open_inds and hyper_out and
              rng.random() < (0.15 if len(m) > 1 else 1)):
            out.append(x)
    for xs in ts:
        rng.shuffle(xs)
    return dict(ts=tuple(map(tuple, ts)), dims=dd, out=tuple(out))


def has_hyper(net):
    """An index on more than two ends (an open index counts as an end)."""
    return any(
        sum(x in xs for xs in net['ts']) + (x in net['out']) > 2
        for x in net['dims'])


def components(ts):
    """Partition of the tensors: two share a block iff linked by indices.
    Tensors without indices are blocks of their own."""
    n = len(ts)
    blk = list(range(n))

    def find(i):
        while blk[i] != i:
            i = blk[i]
        return i

    first = {}
    for t, xs in enumerate(ts):
        for x in xs:
            if x in first:
                a, b = find(first[x]), find(t)
                blk[max(a, b)] = min(a, b)
            else:
                first[x] = t
    out = {}
    for t in range(n):
        out.setdefault(find(t), []).append(t)
    return sorted(out.values())


def surviving(ts, out, leaves):
    """Indices of the tensor obtained by contracting the given leaves."""
    leaves = frozenset(leaves)
    inside = set().union(*(ts[t] for t in leaves)) if leaves else set()
    outside = set(out).union(
        *(xs for t, xs in enumerate(ts) if t not in leaves))
    return frozenset(inside & outside)


def walk(path, n):
    """Simulates a linear path: returns (steps, remaining) where steps are
    (leaves of one operand, leaves of the other) and remaining the leaf sets
    still present, in order.  Raises on an invalid step."""
    pos = [frozenset([i]) for i in range(n)]
    steps = []
    for xy in path:
        check(len(xy) == 2, 'step is not a pair', xy)
        x, y = xy
        check(0 <= min(x, y) and max(x, y) < len(pos) and x != y,
              f'invalid step {xy} with {len(pos)} tensors in {path}')
        a, b = pos[x], pos[y]
        for k in sorted((x, y), reverse=True):
            pos.pop(k)
        pos.append(a | b)
        steps.append((a, b))
    return steps, pos


def merges(path, n):
    """The set of pairwise contractions a path performs (order-free)."""
    return frozenset(frozenset(s) for s in walk(path, n)[0])


@st.composite
def paths_for(draw, n, complete=True):
    """A random linear path over n tensors."""
    path = []
    k = n
    stop = 1 if complete else draw(st.integers(1, max(1, n)))
    while k > stop:
        x = draw(st.integers(0, k - 1))
        y = draw(st.integers(0, k - 2))
        y += y >= x
        path.append((x, y))
        k -= 1
    return path


def random_path(n, rng, stop=1):
    path = []
    k = n
    while k > stop:
        x, y = rng.sample(range(k), 2)
        path.append((x, y))
        k -= 1
    return path


def connected_path(ts, out, rng, leaves=None):
    """A path contracting only tensors that share an index, component by
    component (linear format over all tensors)."""
    n = len(ts)
    pos = [frozenset([i]) for i in range(n)]
    path = []
    leaves = frozenset(range(n)) if leaves is None else frozenset(leaves)
    while True:
        inds = [surviving(ts, out, s) for s in pos]
        pairs = [(i, j)
                 for i in range(len(pos))
                 for j in range(i + 1, len(pos))
                 if pos[i] <= leaves and pos[j] <= leaves and inds[i] & inds[j]]
        if not pairs:
            return path
        i, j = rng.choice(pairs)
        path.append((i, j))
        a, b = pos[i], pos[j]
        pos.pop(j)
        pos.pop(i)
        pos.append(a | b)


# --------------------------------------------------------------------------
# Costs
# --------------------------------------------------------------------------


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def step_cost(a, b, dims, sparse=(), n_projs=None, slices=()):
    """Operations of one contraction: product of the dimensions of all its
    indices; sparse ones together count for at most n_projs; sliced ones do not
    count."""
    inds = (frozenset(a) | frozenset(b)) - frozenset(slices)
    sp = inds & frozenset(sparse)
    c = prod(dims[x] for x in inds - sp)
    s = prod(dims[x] for x in sp)
    if n_projs is not None and sparse:
        s = min(s, n_projs)
    return c * s


def path_cost(path, ts, out, dims, sparse=(), n_projs=None, slices=()):
    steps, _ = walk(path, len(ts))
    return sum(
        step_cost(surviving(ts, out, a), surviving(ts, out, b), dims, sparse,
                  n_projs, slices) for a, b in steps)


def width(xs, dims, sparse=(), n_projs=None):
    sp = frozenset(xs) & frozenset(sparse)
    w = math.log2(prod(dims[x] for x in frozenset(xs) - sp))
    s = math.log2(prod(dims[x] for x in sp))
    if n_projs is not None and sparse:
        s = min(s, math.log2(n_projs))
    return w + s


# --------------------------------------------------------------------------
# Arrays
# --------------------------------------------------------------------------


def arrays_for(net, seed, kind='int', complex_=False):
    """Arrays with small integer entries: sums of products are exact."""
    rng = np.random.RandomState(seed % (1 << 32))
    out = []
    for xs in net['ts']:
        shape = [net['dims'][x] for x in xs]
        a = rng.randint(-2, 3, size=shape).astype(float)
        if complex_:
            a = a + 1j * rng.randint(-2, 3, size=shape)
        out.append(np.asarray(a))
    return out


def einsum(arrays, ts, out, dims):
    """Reference contraction: the definition, evaluated on the joint index
    space."""
    inds = sorted({x for xs in ts for x in xs} | set(out), key=repr)
    size = prod(dims[x] for x in inds)
    if size > 1 << 18:
        raise MemoryError('reference too large')
    axis = {x: k for k, x in enumerate(inds)}
    acc = np.ones([1] * len(inds),
                  dtype=np.result_type(float, *[np.asarray(a) for a in arrays])
                  if arrays else float)
    acc = np.broadcast_to(acc, [dims[x] for x in inds]).copy()
    for a, xs in zip(arrays, ts):
        a = np.asarray(a)
        check(a.shape == tuple(dims[x] for x in xs), 'shape', a.shape, xs)
        order = sorted(range(len(xs)), key=lambda k: axis[xs[k]])
        a = a.transpose(order) if len(xs) else a
        shape = [1] * len(inds)
        for x in xs:
            shape[axis[x]] = dims[x]
        acc = acc * a.reshape(shape)
    drop = tuple(axis[x] for x in inds if x not in set(out))
    acc = acc.sum(axis=drop) if drop else acc
    keep = [x for x in inds if x in set(out)]
    return acc.transpose([keep.index(x) for x in out]) if out else acc


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= atol * scale + rtol * np.abs(b)))


__all__ = [k for k in dir() if not k.startswith('_')] + ['Fraction']
