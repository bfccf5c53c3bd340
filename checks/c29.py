"""C29: Tree accepts exactly well-formed binary trees, moves preserve them."""
import copy
import pickle

from harness import Sub, check, expect_raises, skip, st
from tnco_core import Bitset, ContractionTree, Node, Tree

# A case holds a list of (child, child, parent); None is no link.


@st.composite
def trees(draw, lo=1, hi=9, shape=None):
    """A well-formed tree: leaves first, root last, anything in between."""
    n = draw(st.integers(lo, hi))
    shape = draw(st.sampled_from(['random', 'chain', 'random'])) \
        if shape is None else shape
    roots = list(range(n))
    if draw(st.booleans()):
        roots = list(draw(st.permutations(roots)))
    inner = list(range(n, 2 * n - 1))
    if len(inner) > 1 and draw(st.booleans()):
        inner = list(draw(st.permutations(inner[:-1]))) + inner[-1:]
    nodes = [[None, None, None] for _ in range(2 * n - 1)]
    for k in inner:
        if shape == 'chain':
            i, j = 0, 1
        else:
            i = draw(st.integers(0, len(roots) - 1))
            j = draw(st.integers(0, len(roots) - 2))
        a = roots.pop(i)
        b = roots.pop(0 if shape == 'chain' else j)
        if draw(st.booleans()):
            a, b = b, a
        nodes[k][:2] = [a, b]
        nodes[a][2] = nodes[b][2] = k
        roots.insert(0, k)
    return [tuple(x) for x in nodes]


def well_formed(nodes):
    """One rooted full binary tree, consistent links, covering all nodes."""
    n = len(nodes)
    if not n:
        return False
    for c0, c1, p in nodes:
        if (c0 is None) != (c1 is None):
            return False
        if any(x is not None and not 0 <= x < n for x in (c0, c1, p)):
            return False
    leaves = [c0 is None for c0, _, _ in nodes]
    k = sum(leaves)
    if not all(leaves[:k]) or n != 2 * k - 1 or nodes[-1][2] is not None:
        return False
    parents = {}
    for i, (c0, c1, _) in enumerate(nodes):
        for c in (c0, c1):
            if c is not None:
                if c in parents:
                    return False
                parents[c] = i
    if any(parents.get(i) != x[2] for i, x in enumerate(nodes)):
        return False
    # From any node the root is reached
    for i in range(n):
        seen = set()
        while i != n - 1:
            if i in seen or i is None:
                return False
            seen.add(i)
            i = parents.get(i)
    return True


def make_nodes(nodes):
    def neg(x):
        return -1 if x is None else x

    return [Node((neg(a), neg(b)), neg(p)) for a, b, p in nodes]


def read(t):
    return [(*x.children, x.parent) for x in t.nodes]


def is_tree(t, nodes, what):
    check(read(t) == nodes, what, read(t), nodes)
    check(well_formed(read(t)), what, 'not a tree', read(t))
    check(t.is_valid() and t.is_valid(return_message=True)[0], what, 'is_valid')
    check(len(t) == len(nodes) and t.n_leaves == (len(nodes) + 1) // 2, what,
          'sizes')
    for x, (a, b, p) in zip(t.nodes, nodes):
        check(x.is_leaf() is (a is None) and x.is_root() is (p is None) and
              x.is_valid(), what, 'node', x)


# ---- construction -----------------------------------------------------------------
LINK = st.sampled_from(['child0', 'child1', 'parent'])


@st.composite
def mutants(draw):
    """A well-formed tree and some changes of it (which may cancel)."""
    nodes = [list(x) for x in draw(trees())]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))):
        n = len(nodes)
        k = draw(st.sampled_from(['link', 'link', 'swap', 'swap', 'exchange',
                                  'cycle', 'drop', 'add', 'reverse', 'cut',
                                  'rotate', 'twin']))
        i, j = draw(st.integers(0, max(0, n - 1))), draw(
            st.integers(0, max(0, n - 1)))
        w = draw(st.integers(0, 2))
        if n == 0:
            break
        if k == 'link':
            nodes[i][w] = draw(st.one_of(st.none(), st.integers(0, n),
                                         st.just(j)))
        elif k == 'swap':  # two links of the same kind are exchanged
            nodes[i][w], nodes[j][w] = nodes[j][w], nodes[i][w]
        elif k == 'exchange':  # two nodes change their labels, or their places
            if draw(st.booleans()):
                def f(x):
                    return j if x == i else i if x == j else x
                nodes = [list(map(f, x)) for x in nodes]
            nodes[i], nodes[j] = nodes[j], nodes[i]
        elif k == 'reverse':
            nodes[i][:2] = nodes[i][1::-1]
        elif k == 'drop':
            nodes.pop(i)
        elif k == 'add':
            nodes.insert(i, [None, None, j])
        elif k == 'cut':
            nodes[i][2] = None
        elif k == 'twin':  # a copy of the links of another node
            nodes[i] = list(nodes[j])
        elif k == 'rotate':  # the parents of three nodes rotate
            m = draw(st.integers(0, n - 1))
            nodes[i][2], nodes[j][2], nodes[m][2] = (nodes[j][2], nodes[m][2],
                                                     nodes[i][2])
        elif k == 'cycle':
            # Two more leaves, and two inner nodes that hold each other
            L = (n + 1) // 2
            q = draw(st.integers(1, 3))

            def g(x):
                return x if x is None or x < L else x + q if x < n - 1 else \
                    x + 2 * q
            nodes = [list(map(g, x)) for x in nodes]
            ring = list(range(n - 1 + q, n - 1 + 2 * q))
            if L + q > len(nodes) + q:
                continue
            nodes[L:L] = [[None, None, r] for r in ring]
            ins = [[ring[(t + 1) % q], L + t, ring[t - 1]] for t in range(q)]
            nodes[len(nodes) - 1:len(nodes) - 1] = ins
    return dict(nodes=[tuple(x) for x in nodes])


def run_build(case):
    nodes = case['nodes']
    ok = well_formed(nodes)
    if not ok:
        expect_raises(lambda: Tree(make_nodes(nodes)), Exception, nodes)
        n = len(nodes)
        expect_raises(lambda: ContractionTree(make_nodes(nodes), [[]] * n, 2),
                      Exception, nodes)
        return dict(nontrivial=n > 1, tags=['malformed'])
    t = Tree(make_nodes(nodes))
    is_tree(t, nodes, 'Tree')
    is_tree(ContractionTree(make_nodes(nodes), [[]] * len(nodes), 2), nodes,
            'ContractionTree')
    for u in (pickle.loads(pickle.dumps(t)), copy.copy(t), copy.deepcopy(t),
              Tree(t), Tree(t.nodes)):
        is_tree(u, nodes, 'copy')
        check(u == t and not u != t, 'copy ==')
    return dict(nontrivial=len(nodes) > 1, tags=['well-formed'])


# ---- moves ---------------------------------------------------------------------------
@st.composite
def move_cases(draw):
    nodes = draw(st.one_of(trees(1, 9), trees(3, 40)))
    n = len(nodes)
    pos = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1),
                    st.integers(0, n - 1),
                    st.sampled_from([n, n + 1, -1, -2, -n, 2**31 - 1, 10 * n,
                                     -2**20]))
    return dict(nodes=nodes, moves=draw(st.lists(pos, min_size=1,
                                                 max_size=20)),
                via=draw(st.sampled_from(['Tree', 'ContractionTree'])))


def exchange(nodes, d):
    """Model: d and the sibling of its parent are exchanged; and that node."""
    if not 0 <= d < len(nodes) or nodes[d][2] is None:
        return nodes, None
    b = nodes[d][2]
    a = nodes[b][2]
    if a is None:
        return nodes, None
    c = next(x for x in nodes[a][:2] if x != b)
    out = [list(x) for x in nodes]
    for i, x in ((a, c), (b, d)):
        k = out[i].index(x, 0, 2)
        out[i][k] = d if x == c else c
    out[c][2], out[d][2] = b, a
    return [tuple(x) for x in out], c


def run_moves(case):
    nodes = case['nodes']
    if case['via'] == 'Tree':
        t = Tree(make_nodes(nodes))
    else:
        # Moves leave the indices alone: none, here
        t = ContractionTree(make_nodes(nodes), [[]] * len(nodes), 2)
    moved = 0
    for d in case['moves']:
        before = type(t)(t)
        want, c = exchange(nodes, d)
        try:
            t.swap_with_nn(d)
        except Exception:
            check(c is None, 'move refused', d, nodes)
        got = read(t)
        if c is None:
            check(got == nodes, 'changed by', d, nodes, got)
            continue
        moved += 1
        check([(frozenset(x[:2]), x[2]) for x in got] ==
              [(frozenset(x[:2]), x[2]) for x in want], 'move', d, nodes, got)
        check(well_formed(got) and t.is_valid(), 'not a tree', d, nodes, got)
        is_tree(t, got, 'move')
        check(not t == before, 'move without effect')
        # Exchanging again undoes it
        u = type(t)(t)
        u.swap_with_nn(c)
        is_tree(u, nodes, 'undo')
        check(u == before, 'undo')
        check(read(t) == got, 'the copy is not independent')
        nodes = got
    return dict(nontrivial=moved >= 2,
                tags=['out-of-range'] * any(not 0 <= d < len(nodes)
                                            for d in case['moves']))


# ---- trees with indices -------------------------------------------------------------
@st.composite
def ctree_cases(draw):
    nodes = draw(trees(1, 6))
    k = draw(st.integers(0, 6))
    L = (len(nodes) + 1) // 2
    sub = st.lists(st.integers(0, max(0, k - 1)), unique=True, max_size=k)
    inds = [sorted(draw(sub)) if k else [] for _ in range(L)]
    inds += [None] * (L - 1)

    def fill(i):
        if inds[i] is None:
            a, b = (set(fill(c)) for c in nodes[i][:2])
            keep = draw(st.lists(st.integers(0, max(0, k - 1)), max_size=k))
            inds[i] = sorted((a ^ b) | (a & b & set(keep)))
        return inds[i]

    fill(len(nodes) - 1)
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        i = draw(st.integers(0, len(nodes) - 1))
        if k:
            x = draw(st.integers(0, k - 1))
            inds[i] = sorted(set(inds[i]) ^ {x})
    dims = draw(st.one_of(st.integers(0, 5), st.lists(
        st.sampled_from([1, 2, 3, 7, 2**40]), min_size=k, max_size=k)))
    if isinstance(dims, list) and k and draw(st.integers(0, 9)) == 0:
        dims[draw(st.integers(0, k - 1))] = 0
    return dict(nodes=nodes, inds=inds, k=k, dims=dims,
                wrong=draw(st.sampled_from([None] * 8 + ['fewer', 'more',
                                                         'dims'])),
                shared=draw(st.booleans()), bits=draw(st.booleans()))


def run_ctree(case):
    nodes, inds, k = case['nodes'], case['inds'], case['k']
    used = max((max(x) + 1 for x in inds if x), default=0)
    if not case['bits']:
        k = used
    dims = case['dims']
    if isinstance(dims, list):
        dims = dims[:k]
    ok = True
    for i, (c0, c1, _) in enumerate(nodes):
        if c0 is not None:
            a, b, x = set(inds[c0]), set(inds[c1]), set(inds[i])
            if not (a ^ b) <= x <= (a | b) or case['shared'] and not a & b:
                ok = False
    if 0 in (dims if isinstance(dims, list) else [dims]):
        ok = False
    arg = [list(x) for x in inds]
    if case['bits']:
        arg = [Bitset(x, k) for x in arg]
    w = case['wrong']
    if w == 'fewer':
        arg, ok = arg[:-1], False
        if not case['bits'] and len(arg) == 0:
            skip()
    elif w == 'more':
        arg, ok = arg + [arg[0]], False
    elif w == 'dims':
        if not isinstance(dims, list):
            dims = [dims] * k
        dims, ok = dims + [3 if dims[-1:] != [3] else 4], False
        if len(set(dims)) < 2:
            skip()

    def f():
        return ContractionTree(make_nodes(nodes), arg, dims,
                               check_shared_inds=case['shared'])

    if not ok:
        expect_raises(f, Exception, case)
        return dict(nontrivial=len(nodes) > 1, tags=['malformed'])
    t = f()
    is_tree(t, nodes, 'ContractionTree')
    for u in (t, ContractionTree(t), copy.copy(t), copy.deepcopy(t),
              pickle.loads(pickle.dumps(t))):
        check(type(u) is ContractionTree and read(u) == nodes, 'copy')
        check([sorted(x.positions()) for x in u.inds] ==
              [sorted(x) for x in inds], 'inds')
        check(u.n_inds == k, 'n_inds', u.n_inds)
        d = u.dims
        full = dims if isinstance(dims, list) else [dims] * k
        check(([d] * k if isinstance(d, int) else list(d)) == full, 'dims', d)
        check(u == t and u.is_valid() and
              u.is_valid(check_shared_inds=case['shared']), 'copy')
    strict = all(c0 is None or set(inds[c0]) & set(inds[c1])
                 for c0, c1, _ in nodes)
    check(t.is_valid(check_shared_inds=True) is strict, 'check_shared_inds')
    return dict(nontrivial=len(nodes) > 1, tags=['well-formed'])


# ---- single nodes ----------------------------------------------------------------------
REF = st.one_of(st.integers(-3, 5), st.sampled_from([2**31 - 1, -2**31, 1000]))


def run_node(case):
    a, b, p = case
    ok = (a < 0) == (b < 0) and (a < 0 or (a != b and p not in (a, b)))
    if not ok:
        expect_raises(lambda: Node((a, b), p), Exception, case)
        return dict(tags=['malformed'])
    x = Node((a, b), p)

    def none(v):
        return None if v < 0 else v

    for y in (x, Node(x), pickle.loads(pickle.dumps(x)), copy.deepcopy(x)):
        check(y.children == (none(a), none(b)) and y.parent == none(p), y)
        check(y.is_leaf() is (a < 0) and y.is_root() is (p < 0) and
              y.is_valid() and y.is_valid(return_message=True)[0], y)
        check(y == x and not y != x, '==')
    check((x == Node()) is (a < 0 and p < 0), '==')
    return dict(tags=['valid'])


SUBS = [
    Sub('build', mutants(), run_build, 4000, 300000, 'two nodes or more', 3),
    Sub('moves', move_cases(), run_moves, 1500, 100000, 'two moves or more', 3),
    Sub('indices', ctree_cases(), run_ctree, 2500, 150000,
        'two nodes or more', 2),
    Sub('nodes', st.tuples(REF, REF, REF), run_node, 800, 20000, '', 1),
]
