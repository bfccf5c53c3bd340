"""C21: commute and same agree with dense linear algebra."""
from circuits import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from tnco.utils.circuit import commute, same

PAIRS = ('any', 'any', 'function', 'reordered', 'inverse', 'controls',
         'tiny', 'paulis')


@st.composite
def pairs(draw):
    kind = draw(st.sampled_from(PAIRS))
    c = draw(circuits(max_q=4, min_gates=2, max_gates=2, echo=False,
                      other=NON_UNITARY))
    a, b = c[:2]
    if kind == 'controls':
        a, b = [(draw(st.sampled_from(['CX', 'CZ', 'CX'])), None,
                 tuple(draw(st.permutations(['p', 'q', 'r']))[:2]))
                for _ in range(2)]
    elif kind == 'paulis':
        # products of Pauli matrices
        a, b = [('pauli', draw(st.text('XYZI', min_size=k, max_size=k)),
                 tuple(draw(st.permutations(['p', 'q', 'r']))[:k]))
                for k in (draw(st.integers(1, 3)), draw(st.integers(1, 3)))]
    return dict(a=a, b=b, kind=kind,
                order=tuple(draw(st.permutations(range(len(a[2]))))),
                phase=draw(st.sampled_from([0., math.pi, 1.234, -.5])),
                eps=draw(st.sampled_from([0, 0, 1e-10, 1e-3, .1])),
                seed=draw(st.integers(0, 1 << 20)),
                atol=draw(st.sampled_from([None, 1e-8, 1e-5])))


def mat(g):
    if g[0] == 'pauli':
        m = np.eye(1)
        for x in g[1]:
            m = np.kron(m, np.array(FIXED[x]))
        return m
    return matrix(g)


def reorder(m, qs, new):
    """The same operator with its qubits listed in another order."""
    k = len(qs)
    o = [qs.index(q) for q in new]
    return np.asarray(m).reshape((2,) * 2 * k).transpose(
        o + [k + x for x in o]).reshape(2**k, 2**k)


def embed(m, qs, full):
    k = len(full)
    I = np.eye(2**k).reshape((2,) * 2 * k)
    return apply(I, m, [full.index(q) for q in qs]).reshape(2**k, 2**k)


def gates(c):
    qa = c['a'][2]
    A = mat(c['a'])
    B, qb = mat(c['b']), c['b'][2]
    rng = np.random.RandomState(c['seed'])
    if c['kind'] == 'function':
        # commutes with the other
        B, qb = A @ A + .5 * A, qa
    elif c['kind'] in ('reordered', 'inverse'):
        B = A.conj().T if c['kind'] == 'inverse' else A
        new = tuple(qa[k] for k in c['order'])
        B, qb = reorder(B, qa, new) * np.exp(1j * c['phase']), new
    elif c['kind'] == 'tiny':
        B = A + c['eps'] * rng.standard_normal(A.shape)
        qb = qa
    return A, qa, B, qb


def run(c):
    A, qa, B, qb = gates(c)
    kw = {} if c['atol'] is None else dict(atol=c['atol'])
    full = tuple(dict.fromkeys(qa + qb))
    EA, EB = embed(A, qa, full), embed(B, qb, full)
    ga, gb = (A, list(qa)), (B, qb)
    copies = A.copy(), B.copy()
    scale = max(np.max(np.abs(EA)) * np.max(np.abs(EB)), 1)
    tags = []

    def both(f, *x, **k):
        r, s = f(*x, **k), f(*reversed(x), **k)
        check(bool(r) == bool(s), f.__name__, 'is not symmetric')
        return bool(r)

    def margin(err, lo=1e-9, hi=5e-4):
        """Clearly yes, clearly no, or neither."""
        return True if err < lo else False if err > hi else None

    want = margin(np.max(np.abs(EA @ EB - EB @ EA)) / scale)
    got = both(commute, ga, gb, **kw)
    if want is not None:
        check(got == want, 'commute says', got)
        tags.append('commute' if want else 'do not commute')
    got = both(commute, ga, gb, use_matrix_commutation=False, **kw)
    check(got == (not set(qa) & set(qb)), 'commute (no matrices) says', got)

    if set(qa) != set(qb):
        want = False
    else:
        C = reorder(B, qb, qa)
        # up to a phase
        k = np.unravel_index(np.argmax(np.abs(A)), A.shape)
        r = C[k] / A[k] if abs(A[k]) > 0 else 0
        unit = abs(abs(r) - 1) < 1e-9
        err = np.max(np.abs(C - r * A))
        want = margin(err / scale, hi=5e-3)
        if want and not unit:
            # proportional, not by a phase: either answer
            want = None
        entries = np.concatenate([np.abs(A).ravel(), np.abs(C).ravel()])
        if c['kind'] == 'tiny' and np.any((entries > 1e-12) &
                                          (entries < 1e-3)):
            want = None
    if np.any(A) and np.any(B):
        got = both(same, ga, gb, **kw)
        if want is not None:
            check(got == want, 'same says', got)
            tags.append('same' if want else 'not same')
    check(same(ga, ga, **kw), 'a gate is not itself')
    check(np.array_equal(A, copies[0]) and np.array_equal(B, copies[1]),
          'the gates were modified')
    return dict(nontrivial=bool(set(qa) & set(qb)), tags=tags + [c['kind']])


def run_refuse(c):
    A, qa, B, qb = gates(c)
    bad = [(A, qa[:-1]), (A, qa + ('new',)), (A[:, :-1], qa), (A[0], qa),
           (A[:-1, :-1], qa), (np.kron(A, np.eye(2)), qa + qa[:1]),
           (np.ones((1, 1)), ()), (A.reshape(A.shape + (1,)), qa)]
    for g in bad:
        for f in (commute, same):
            expect_raises(lambda: f(g, (B, qb)), ValueError, f'{f} {g[1]}')
            expect_raises(lambda: f((B, qb), g), ValueError, f'{f} {g[1]}')
    return dict(nontrivial=len(qa) > 1)


SUBS = [
    Sub('pairs', pairs(), run, 12000, 1200000, 'qubits are shared', 3),
    Sub('refuse', pairs(), run_refuse, 600, 20000,
        'a gate on several qubits', .5),
]
