"""C25: Bitset behaves as a fixed-size set of positions."""
import copy
import pickle

import numpy as np
from harness import Sub, check, expect_raises, skip, st
from tnco.bitset import Bitset

SIZES = st.one_of(st.integers(0, 9), st.sampled_from(
    [31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257]),
    st.integers(0, 300))


@st.composite
def sets(draw, n):
    """(positions, ...) of a set in range(n), also dense ones and blocks."""
    if n == 0:
        return []
    p = st.one_of(st.integers(0, n - 1), st.sampled_from(sorted(
        {0, n - 1, n // 2, max(0, n - 64), min(n - 1, 63), min(n - 1, 64)})))
    xs = set(draw(st.lists(p, max_size=8)))
    k = draw(st.integers(0, 5))
    if k == 0:
        xs = set(range(n)) - xs
    elif k == 1:
        a = draw(p)
        xs |= set(range(a, min(n, a + draw(st.integers(0, 130)))))
    return sorted(xs)


def string(n, s):
    return ''.join('01'[i in s] for i in range(n))


def build(n, s, how):
    if how == 'string':
        return Bitset(string(n, s))
    if how == 'string-n':
        return Bitset(string(n, s), n)
    if how == 'reversed':
        return Bitset(sorted(s, reverse=True), n=n)
    if how == 'iter':
        return Bitset(iter(sorted(s)), n)
    if how == 'set':
        return Bitset(set(s), n)
    if how == 'numpy':
        return Bitset(np.array(sorted(s), dtype=int), n)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(Bitset(sorted(s), n)))
    if how == 'and':
        return Bitset('1' * n) & Bitset(sorted(s), n)
    if how == 'not':
        return ~Bitset(sorted(set(range(n)) - set(s)), n)
    return Bitset(sorted(s), n)


HOW = ('list', 'string', 'string-n', 'reversed', 'iter', 'set', 'numpy',
       'pickle', 'and', 'not')


def is_model(b, n, s, what):
    check(len(b) == n, what, 'len', len(b), n)
    check(str(b) == string(n, s), what, 'str', str(b), string(n, s))
    check(string(n, s) in repr(b), what, 'repr', repr(b))
    check(b.count() == len(s), what, 'count', b.count())
    check(list(b.positions()) == sorted(s), what, 'positions', b.positions())
    seen = []
    b.visit(seen.append)
    check(seen == sorted(s), what, 'visit', seen)
    bits = list(b)
    check(bits == [i in s for i in range(n)], what, 'bits', bits)
    for i in (n, n + 1, n + 64, 2**40, 2**63, 2**64 - 1, -1, -n, -n - 1, 2**64):
        expect_raises(lambda: b[i], Exception, f'{what}: index {i} of {n}')
    for i in {0, n - 1, 63, 64, n // 2} & set(range(n)):
        check(b[i] is (i in s), what, 'index', i)
    c = Bitset(sorted(s), n)
    check(b == c and c == b and not b != c, what, '==')
    for t in (pickle.loads(pickle.dumps(b)), copy.copy(b), copy.deepcopy(b)):
        check(t == b and str(t) == str(b) and len(t) == n, what, 'copy')
    try:
        h = hash(b)
    except TypeError:
        pass
    else:
        check(h == hash(c), what, 'equal bitsets, different hashes')


OPS = {
    '&': (lambda a, b: a & b), '|': (lambda a, b: a | b),
    '^': (lambda a, b: a ^ b), '-': (lambda a, b: a - b),
}
TESTS = {
    '<=': (lambda a, b: a <= b, lambda a, b: a <= b),
    '>=': (lambda a, b: a >= b, lambda a, b: a >= b),
    '<': (lambda a, b: a < b, lambda a, b: a < b),
    '>': (lambda a, b: a > b, lambda a, b: a > b),
    '==': (lambda a, b: a == b, lambda a, b: a == b),
    '!=': (lambda a, b: a != b, lambda a, b: a != b),
    'isdisjoint': (lambda a, b: a.isdisjoint(b), set.isdisjoint),
    'issubset': (lambda a, b: a.issubset(b), set.issubset),
    'issuperset': (lambda a, b: a.issuperset(b), set.issuperset),
}


@st.composite
def cases(draw):
    n = draw(SIZES)
    a = draw(sets(n))
    b = draw(st.one_of(
        sets(n), st.just(a),
        sets(n).map(lambda x: sorted(set(x) | set(a))),
        sets(n).map(lambda x: sorted(set(x) & set(a))),
        sets(n).map(lambda x: sorted(set(x) - set(a)))))
    return dict(n=n, a=a, b=b, how=draw(st.sampled_from(HOW)),
                how2=draw(st.sampled_from(HOW)))


def run(case):
    n, sa, sb = case['n'], set(case['a']), set(case['b'])
    a, b = build(n, sa, case['how']), build(n, sb, case['how2'])
    is_model(a, n, sa, case['how'])
    for k, f in OPS.items():
        is_model(f(a, b), n, f(sa, sb), k)
    is_model(~a, n, set(range(n)) - sa, '~')
    for k, (f, g) in TESTS.items():
        r = f(a, b)
        check(r is g(sa, sb), k, sorted(sa), sorted(sb), r)
    # Nothing changed on the way
    is_model(a, n, sa, 'left operand')
    is_model(b, n, sb, 'right operand')
    return dict(nontrivial=len(sa) >= 1 and len(sb) >= 1,
                tags=[case['how'], 'blocks:%d' % -(-n // 64)])


# ---- histories --------------------------------------------------------------
@st.composite
def histories(draw):
    n = draw(SIZES)
    ops = st.tuples(st.sampled_from(tuple(OPS) + (
        '~', 'pickle', 'string', 'positions', 'copy', 'i&', 'i|', 'i^', 'i-')),
        st.integers(0, 40), st.integers(0, 40))
    return dict(n=n, start=[draw(sets(n)) for _ in range(3)],
                ops=draw(st.lists(ops, min_size=3, max_size=25)))


def run_history(case):
    n = case['n']
    pool = [(Bitset(s, n), set(s)) for s in case['start']]
    for k, i, j in case['ops']:
        (a, sa), (b, sb) = pool[i % len(pool)], pool[j % len(pool)]
        if k in OPS:
            r, s = OPS[k](a, b), OPS[k](sa, sb)
        elif k[0] == 'i':
            r, s = a, OPS[k[1]](sa, sb)
            if k == 'i&':
                r &= b
            elif k == 'i|':
                r |= b
            elif k == 'i^':
                r ^= b
            else:
                r -= b
        elif k == '~':
            r, s = ~a, set(range(n)) - sa
        elif k == 'pickle':
            r, s = pickle.loads(pickle.dumps(a)), sa
        elif k == 'string':
            r, s = Bitset(str(a)), sa
        elif k == 'positions':
            r, s = Bitset(a.positions(), n=len(a)), sa
        else:
            r, s = copy.deepcopy(a), sa
        pool.append((r, s))
    for b, s in pool:
        is_model(b, n, s, 'pool')
    for b, s in pool[-3:]:
        for c, t in pool:
            for k, (f, g) in TESTS.items():
                check(f(b, c) is g(s, t), k, sorted(s), sorted(t))
    return dict(nontrivial=len({tuple(sorted(s)) for _, s in pool}) >= 4,
                tags=['blocks:%d' % -(-n // 64)])


# ---- operands of different sizes, malformed arguments -------------------------
@st.composite
def mixed(draw):
    n = draw(SIZES)
    m = draw(st.one_of(SIZES, st.integers(max(0, n - 2), n + 2)))
    return dict(n=n, m=m, a=draw(sets(n)), b=draw(sets(m)),
                op=draw(st.sampled_from(sorted(OPS) + sorted(TESTS))))


def run_mixed(case):
    n, m, sa, sb, op = (case[k] for k in ('n', 'm', 'a', 'b', 'op'))
    if n == m:
        skip()
    a, b = Bitset(sa, n), Bitset(sb, m)
    if op in ('==', '!='):
        check(TESTS[op][0](a, b) is (op == '!='), op, 'different sizes')
    elif op == 'isdisjoint':
        # An error or the right answer
        try:
            r = a.isdisjoint(b)
        except Exception:
            pass
        else:
            check(r is set(sa).isdisjoint(sb), op, r)
    else:
        f = OPS[op] if op in OPS else TESTS[op][0]
        expect_raises(lambda: f(a, b), Exception, f'{op} of sizes {n}, {m}')
    is_model(a, n, set(sa), 'left')
    is_model(b, m, set(sb), 'right')
    return dict(tags=[op])


BAD = ('too-large', 'far', 'negative', 'huge', 'repeated', 'no-n', 'float',
       'bad-char', 'wrong-n', 'negative-n', 'n-only', 'string-item', 'none')


@st.composite
def bad(draw):
    n = draw(SIZES)
    return dict(n=n, a=draw(sets(n)), bad=draw(st.sampled_from(BAD)),
                k=draw(st.integers(0, 20)))


def run_bad(case):
    n, s, k = case['n'], case['a'], case['k']
    item = {'too-large': n, 'far': n + 1 + k * 67, 'negative': -1 - k,
            'huge': 2**63 + k, 'float': 0.5, 'string-item': '0',
            'none': None}
    b = case['bad']
    if b in item:
        xs = list(s)
        xs.insert(k % (len(xs) + 1), item[b])
        f = lambda: Bitset(xs, n)  # noqa: E731
    elif b == 'repeated':
        if not s:
            skip()
        xs = s + [s[k % len(s)]]
        f = lambda: Bitset(xs, n)  # noqa: E731
    elif b == 'no-n':
        f = lambda: Bitset(s)  # noqa: E731
    elif b == 'bad-char':
        x = string(n, s)
        i = k % (n + 1)
        x = x[:i] + '2ab -x'[k % 6] + x[i:]
        f = lambda: Bitset(x)  # noqa: E731
    elif b == 'wrong-n':
        f = lambda: Bitset(string(n, s), n + 1 + k)  # noqa: E731
    elif b == 'negative-n':
        f = lambda: Bitset(s, -1 - k)  # noqa: E731
    else:
        f = lambda: Bitset(n=1 + k)  # noqa: E731
    expect_raises(f, Exception, b)
    return dict(tags=[b])


SUBS = [
    Sub('algebra', cases(), run, 8000, 300000, 'two non-empty sets', 3),
    Sub('history', histories(), run_history, 3000, 80000,
        'four different sets or more', 2),
    Sub('sizes', mixed(), run_mixed, 3000, 80000, 'different sizes', 1),
    Sub('malformed', bad(), run_bad, 2000, 40000, '', 1),
]
