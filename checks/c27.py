"""C27: OrderedFrozenSet is an immutable set that keeps insertion order."""
import copy
import pickle

from harness import Sub, check, expect_raises, st
from tnco.ordered_frozenset import OrderedFrozenSet as O

ITEMS = st.one_of(
    st.integers(-2, 6), st.integers(-2**70, 2**70), st.booleans(), st.none(),
    st.sampled_from(['', 'a', 'b', 'ab', '1', 0.0, 1.0, -0.0, 2.5, 1e300]),
    st.tuples(st.integers(0, 2), st.sampled_from('ab')), st.just(()))
SMALL = st.integers(0, 12)


def lists(n=10):
    return st.one_of(st.lists(SMALL, max_size=n), st.lists(ITEMS, max_size=n),
                     st.lists(SMALL, max_size=40))


KINDS = ('ofs', 'list', 'tuple', 'set', 'frozenset', 'iter', 'dict')


def operand(xs, kind):
    """Returns the operand, its items in iteration order."""
    v = dict(ofs=O, list=list, tuple=tuple, set=set, frozenset=frozenset,
             iter=iter, dict=dict.fromkeys)[kind](xs)
    return v, list(xs) if kind == 'iter' else list(v)


def uniq(xs):
    return list(dict.fromkeys(xs))


def ident(xs):
    return [(type(x), repr(x)) for x in xs]


def is_model(s, xs, what):
    """s is exactly the ordered set with items xs (in this order)."""
    xs = uniq(xs)
    f = frozenset(xs)
    check(type(s) is O, what, type(s))
    check(ident(s) == ident(xs), what, 'order', list(s), xs)
    check(len(s) == len(f) and set(s) == f, what)
    check(s == f and f == s and not s != f and not f != s, what, '==')
    t = O(reversed(xs))
    check(s == t and not s != t and ident(t) == ident(uniq(reversed(xs))),
          what, 'reversed')
    check(hash(s) == hash(t), what, 'equal sets, different hashes', s, t)
    check({s: 1}.get(t) == 1 and len({s, t}) == 1, what, 'key')
    check(bool(s) == bool(f), what, 'bool')
    check(all(x in s for x in xs), what, 'in')


@st.composite
def cases(draw):
    xs = draw(lists())
    ys = draw(st.one_of(
        lists(), st.permutations(xs), st.just(xs[:len(xs) // 2]),
        st.just(xs + draw(lists(3)))))
    return dict(xs=xs, ys=list(ys), kind=draw(st.sampled_from(KINDS)),
                kx=draw(st.sampled_from(KINDS)))


BINARY = ('union', 'intersection', 'difference', 'symmetric_difference')


def expected(name, a, b):
    fa, fb = frozenset(a), frozenset(b)
    return [x for x in a + b if x in getattr(fa, name)(fb)]


def run(case):
    x0, xs = operand(case['xs'], case['kx'])
    s = O(x0)
    xs = uniq(xs)
    is_model(s, xs, 'constructor')
    fx = frozenset(xs)
    kind = case['kind']

    def other():
        return operand(case['ys'], kind)

    fy = frozenset(case['ys'])
    for name in BINARY:
        y, ys = other()
        r = getattr(s, name)(y)
        is_model(r, expected(name, xs, ys), name)
        check(set(r) == getattr(fx, name)(fy), name)
        if kind != 'iter':
            check(ident(y) == ident(ys), name, 'operand changed')
    for name in ('isdisjoint', 'issubset', 'issuperset'):
        y, _ = other()
        r = getattr(s, name)(y)
        check(r is getattr(fx, name)(fy), name, r)
    for x in case['ys']:
        check((x in s) is (x in fx), 'in', x)
    if kind in ('ofs', 'set', 'frozenset'):
        y, ys = other()
        for sym, name, f in (('|', BINARY[0], lambda a, b: a | b),
                             ('&', BINARY[1], lambda a, b: a & b),
                             ('-', BINARY[2], lambda a, b: a - b),
                             ('^', BINARY[3], lambda a, b: a ^ b)):
            is_model(f(s, y), expected(name, xs, ys), sym)
        for sym, f in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b),
                       ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b),
                       ('==', lambda a, b: a == b),
                       ('!=', lambda a, b: a != b)):
            check(f(s, y) is f(fx, fy), sym, s, y)
            check(f(y, s) is f(fy, fx), sym, y, s)
        if fx == fy and kind == 'ofs':
            check(hash(s) == hash(y), 'hash')
    else:
        for f in (lambda a, b: a | b, lambda a, b: a & b, lambda a, b: a - b,
                  lambda a, b: a ^ b, lambda a, b: a < b, lambda a, b: a >= b):
            expect_raises(lambda: f(s, other()[0]), TypeError, kind)
    for t in (s.copy(), copy.copy(s), copy.deepcopy(s), O(s),
              pickle.loads(pickle.dumps(s)), pickle.loads(pickle.dumps(s, 2))):
        is_model(t, xs, 'copy')
    is_model(s, xs, 'the set itself changed')
    return dict(nontrivial=len(fx) >= 2 and len(fy) >= 1,
                tags=[kind] + (['equal'] if fx == fy else
                               ['subset'] if fx < fy else []))


# ---- histories: a pool of sets ------------------------------------------------
@st.composite
def histories(draw):
    ops = st.tuples(st.sampled_from(BINARY + ('new', 'copy', 'pickle')),
                    st.integers(0, 30), st.integers(0, 30), lists(4))
    return draw(st.lists(ops, min_size=1, max_size=14))


def run_history(case):
    pool = [(O(), [])]
    for name, i, j, xs in case:
        (a, ma), (b, mb) = pool[i % len(pool)], pool[j % len(pool)]
        if name == 'new':
            r, m = O(xs), uniq(xs)
        elif name == 'copy':
            r, m = a.copy(), ma
        elif name == 'pickle':
            r, m = pickle.loads(pickle.dumps(a)), ma
        else:
            r, m = getattr(a, name)(b), uniq(expected(name, ma, mb))
        pool.append((r, m))
    by_key = {}
    for s, m in pool:
        is_model(s, m, 'pool')
        by_key.setdefault(s, []).append(m)
    check(len(by_key) == len({frozenset(m) for _, m in pool}), 'keys')
    return dict(nontrivial=len(by_key) >= 3)


SUBS = [
    Sub('algebra', cases(), run, 2500, 200000, 'two items and one item or more',
        2),
    Sub('history', histories(), run_history, 1200, 100000,
        'three different sets or more', 1),
]
