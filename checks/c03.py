"""C03: ContractionTree represents exactly the path it was built from."""
import copy
import pickle
import random

from oracles import *  # noqa: F403
from harness import Sub, check, expect_raises, st
from tnco.ctree import ContractionTree, traverse_tree


@st.composite
def cases(draw):
    net = draw(networks(min_t=2, max_t=9,
                        max_extra=draw(st.sampled_from([7, 3, 2])),
                        link=draw(st.sampled_from([None, None, 5]))))
    n = len(net['ts'])
    mode = draw(st.sampled_from(['any', 'any', 'connected', 'component']))
    rng = random.Random(draw(st.integers(0, 1 << 20)))
    if mode == 'any':
        path = random_path(n, rng)
    else:
        comp = components(net['ts'])
        if mode == 'connected':
            comp = [c for c in comp if len(c) == n]
        comp = [c for c in comp if len(c) > 1]
        if not comp:
            path = random_path(n, rng)
        else:
            path = connected_path(net['ts'], net['out'], rng, rng.choice(comp))
    return dict(net,
                path=tuple(path),
                implicit_out=draw(st.booleans()),
                extra_out=draw(st.booleans()),
                carrier=draw(st.sampled_from(['list', 'tuple', 'iter'])))


def wrap(xs, how):
    xs = list(xs)
    return tuple(xs) if how == 'tuple' else iter(xs) if how == 'iter' else xs


def build(c, **kw):
    net_hyper = has_hyper(c)
    used = {t for s in walk(c['path'], len(c['ts']))[0] for x in s for t in x}
    hyper_used = any(
        sum(x in c['ts'][t] for t in used) > 2 for x in c['dims'])
    out = list(c['out'])
    if c['extra_out'] and kw.get('output_inds', 0) == 0:
        out.append(('not', 'there'))
    opts = dict(output_inds=wrap(out, c['carrier']))
    if c['implicit_out'] and not hyper_used and not net_hyper and all(
            sum(x in xs for xs in c['ts']) == 1 for x in c['out']):
        opts = {}
    opts.update(kw)
    dims = c['dims']
    return ContractionTree(wrap(c['path'], c['carrier']),
                           wrap(map(list, c['ts']), c['carrier']), dims, **opts)


def model(c):
    steps, left = walk(c['path'], len(c['ts']))
    used = sorted({t for s in steps for x in s for t in x})
    return steps, used


def node_leaves(nodes, used):
    """Leaf set (original tensor numbers) of every node, from the links."""
    n_leaves = sum(x.is_leaf() for x in nodes)
    check(n_leaves == len(used), 'number of leaves', n_leaves, used)
    check([x.is_leaf() for x in nodes] == [True] * n_leaves + [False] *
          (len(nodes) - n_leaves), 'leaves are not first')
    memo = {}

    def get(k, depth=0):
        check(depth <= len(nodes), 'cycle')
        if k not in memo:
            if nodes[k].is_leaf():
                memo[k] = frozenset([used[k]])
            else:
                a, b = nodes[k].children
                check(nodes[a].parent == k and nodes[b].parent == k,
                      'parent/child links disagree')
                memo[k] = get(a, depth + 1) | get(b, depth + 1)
        return memo[k]

    return [get(k) for k in range(len(nodes))]


def verify(t, c, steps, used):
    nodes = list(t.nodes)
    check(len(nodes) == len(t) == 2 * len(used) - 1, 'number of nodes')
    check(t.n_leaves == len(used))
    ok, msg = t.is_valid(return_message=True)
    check(ok, 'is_valid()', msg)
    leaves = node_leaves(nodes, used)
    check(nodes[-1].parent is None and leaves[-1] == frozenset(used),
          'last node is not the root')
    inds = [t.inds[k] for k in range(len(t))]
    for k, s in enumerate(leaves):
        want = (frozenset(c['ts'][min(s)]) if nodes[k].is_leaf() else surviving(
            c['ts'], c['out'], s))
        check(inds[k] == want, f'indices of node {sorted(s)}', inds[k], want)
    got = {frozenset((leaves[x.children[0]], leaves[x.children[1]]))
           for x in nodes if not x.is_leaf()}
    check(got == {frozenset(s) for s in steps}, 'contractions', got, steps)
    allx = {x for t_ in used for x in c['ts'][t_]}
    check(t.all_inds() == allx and t.n_inds == len(allx), 'all_inds')
    check(dict(t.dims) == {x: c['dims'][x] for x in allx}, 'dims', t.dims)
    check(t.output_inds() == surviving(c['ts'], c['out'], used), 'output_inds')
    w = max(width(xs, c['dims']) for xs in inds)
    check(abs(t.max_width() - w) < 1e-9, 'max_width', t.max_width(), w)
    return leaves, inds


def info(c, used):
    return dict(
        nontrivial=len(used) > 3,
        tags=['hyper' if has_hyper(c) else 'plain',
              'partial' if len(used) < len(c['ts']) else 'whole'])


def run_model(c):
    steps, used = model(c)
    t = build(c)
    leaves, inds = verify(t, c, steps, used)
    # the path of the tree does the same contractions
    p = t.path()
    check(merges(p, len(c['ts'])) == {frozenset(s) for s in steps},
          'path() contracts something else', p)
    # rebuilding from it gives the same structure
    t2 = ContractionTree(p, [list(x) for x in c['ts']], c['dims'],
                         output_inds=c['out'])
    l2, i2 = verify(t2, c, steps, used)
    check(dict(zip(l2, i2)) == dict(zip(leaves, inds)))
    check(merges(t2.path(), len(c['ts'])) == {frozenset(s) for s in steps})
    return info(c, used)


def run_copies(c):
    steps, used = model(c)
    t = build(c)
    for name, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy),
                    ('pickle', lambda x: pickle.loads(pickle.dumps(x)))):
        u = f(t)
        check(type(u) is type(t), name, type(u))
        check(u == t and t == u, name, 'is not equal')
        check(u.path() == t.path(), name, 'has another path')
        verify(u, c, steps, used)
    check(t == build(c), 'building again gives something else')
    # a different network is not equal
    x = next((x for x in t.dims), None)
    if x is not None:
        d2 = dict(c['dims'])
        d2[x] += 1
        check(not (t == build(dict(c, dims=d2))), 'equal with other dimensions')
    return info(c, used)


def run_traverse(c):
    steps, used = model(c)
    t = build(c)
    seen = []
    traverse_tree(t, seen.append)
    check(sorted(seen) == list(range(len(t))), 'not every node once', seen)
    at = {k: i for i, k in enumerate(seen)}
    for k, x in enumerate(t.nodes):
        if not x.is_leaf():
            check(max(at[y] for y in x.children) < at[k],
                  'parent before children')
    return info(c, used)


def run_shared(c):
    """check_shared_inds accepts exactly the paths whose steps share indices."""
    steps, used = model(c)
    bad = [
        s for s in steps if not (surviving(c['ts'], c['out'], s[0]) & surviving(
            c['ts'], c['out'], s[1]))
    ]
    if bad:
        expect_raises(lambda: build(c, check_shared_inds=True), Exception,
                      f'check_shared_inds with {bad}')
    else:
        verify(build(c, check_shared_inds=True), c, steps, used)
    # and is_valid() can tell afterwards
    check(build(c).is_valid(check_shared_inds=True) == (not bad),
          'is_valid(check_shared_inds=True)')
    return dict(info(c, used), tags=['shared' if not bad else 'unshared'])


def run_uniform(c):
    """An int as dimension means that dimension for every index."""
    steps, used = model(c)
    d = 2 + len(c['ts']) % 3
    c = dict(c, dims={x: d for x in c['dims']})
    a = build(c)
    b = ContractionTree(list(c['path']), [list(x) for x in c['ts']], d,
                        output_inds=c['out'])
    check(a == b, 'uniform dimensions as int and as map differ')
    verify(b, c, steps, used)
    return info(c, used)


def run_reject(c):
    steps, used = model(c)
    n = len(c['ts'])
    ts = [list(x) for x in c['ts']]
    out = list(c['out'])
    p = list(c['path'])
    did = []

    def refuse(what, f):
        did.append(what)
        expect_raises(f, Exception, what)

    allx = [x for t in used for x in c['ts'][t]]
    if allx:
        x = allx[len(p) % len(allx)]
        refuse('missing dimension', lambda: ContractionTree(
            p, ts, {k: v for k, v in c['dims'].items() if k != x},
            output_inds=out))
        for v in (0, -1):
            refuse(f'dimension {v}', lambda: ContractionTree(
                p, ts, dict(c['dims'], **{}) | {x: v}, output_inds=out))
    if len(p) > 2:
        # leave several tensors
        q = p[:-1]
        roots = [s for s in walk(q, n)[1] if len(s) > 1]
        if len(roots) > 1:
            refuse('path leaving several tensors', lambda: ContractionTree(
                q, ts, c['dims'], output_inds=out))
    refuse('position out of range', lambda: ContractionTree(
        [(0, n)] + p[1:], ts, c['dims'], output_inds=out))
    if any(sum(x in c['ts'][t] for t in used) > 2 for x in c['dims']):
        refuse('hyper-indices without output indices', lambda: ContractionTree(
            p, ts, c['dims']))
    return dict(nontrivial=len(did) > 3, tags=did)


R = 'more than three tensors are contracted'
SUBS = [
    Sub('model', cases(), run_model, 3200, 300000, R, 2),
    Sub('copies', cases(), run_copies, 1200, 60000, R, 1),
    Sub('traverse', cases(), run_traverse, 800, 40000, R, 1),
    Sub('shared', cases(), run_shared, 1200, 60000, R, 1),
    Sub('uniform', cases(), run_uniform, 400, 20000, R, .5),
    Sub('reject', cases(), run_reject, 800, 40000,
        rule='at least four kinds of inconsistent input apply', weight=.7),
]
