"""Circuits, their exact simulation, and the contraction of their networks.

A circuit is a tuple of gates (name, parameters, qubits); nothing here uses tnco.
"""
import cmath
import math
import random

import numpy as np
from harness import check, st

S2 = 1 / math.sqrt(2)
FIXED = {
    'I': [[1, 0], [0, 1]],
    'X': [[0, 1], [1, 0]],
    'Y': [[0, -1j], [1j, 0]],
    'Z': [[1, 0], [0, -1]],
    'H': [[S2, S2], [S2, -S2]],
    'S': [[1, 0], [0, 1j]],
    'T': [[1, 0], [0, cmath.exp(.25j * math.pi)]],
    'V': [[.5 + .5j, .5 - .5j], [.5 - .5j, .5 + .5j]],
    # projector: not unitary
    'P0': [[1, 0], [0, 0]],
    'K': [[.5, .25], [0, 2]],
}
ONE = ('X', 'Y', 'Z', 'H', 'S', 'T', 'V', 'I', 'rx', 'ry', 'rz', 'u')
TWO = ('CX', 'CZ', 'SWAP', 'ISWAP', 'cp', 'zz', 'u', 'CX', 'CZ', 'CH', 'perm')
THREE = ('CCX', 'CCZ', 'CSWAP', 'u', 'perm', 'diag')
NON_UNITARY = ('P0', 'K', 'g')


def permutation(p):
    m = np.zeros((len(p), len(p)))
    for i, j in enumerate(p):
        m[j, i] = 1
    return m


def controlled(m):
    m = np.asarray(m, dtype=complex)
    n = len(m)
    out = np.eye(2 * n, dtype=complex)
    out[n:, n:] = m
    return out


def matrix(gate):
    """The matrix of a gate; the first qubit is the most significant one."""
    name, par, qs = gate
    n = len(qs)
    if name.endswith('+'):
        return matrix((name[:-1], par, qs)).conj().T
    if name in FIXED:
        return np.array(FIXED[name], dtype=complex)
    if name == 'SWAP':
        return permutation([0, 2, 1, 3])
    if name == 'ISWAP':
        m = permutation([0, 2, 1, 3]) * (1 + 0j)
        m[1, 2] = m[2, 1] = 1j
        return m
    if name[0] == 'C' and name != 'C':
        return controlled(matrix((name[1:], par, qs[1:])))
    if name in ('rx', 'ry', 'rz'):
        p = FIXED[name[1].upper()]
        return (math.cos(par / 2) * np.eye(2) -
                1j * math.sin(par / 2) * np.array(p))
    if name == 'cp':
        return np.diag([1, 1, 1, cmath.exp(1j * par)])
    if name == 'zz':
        a, b = cmath.exp(-.5j * par), cmath.exp(.5j * par)
        return np.diag([a, b, b, a])
    rng = np.random.RandomState(par)
    if name == 'perm':
        ph = rng.choice([1, 1, -1, 1j], size=2**n)
        return permutation(rng.permutation(2**n)) * ph
    if name == 'diag':
        return np.diag(np.exp(1j * rng.choice([0, 0, 1, 2.5], size=2**n)))
    m = rng.standard_normal((2**n, 2**n)) + 1j * rng.standard_normal(
        (2**n, 2**n))
    if name == 'g':
        return m
    q, r = np.linalg.qr(m)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def inverse(gate):
    name, par, qs = gate
    return (name[:-1] if name.endswith('+') else name + '+', par, qs)


def qubit_name(k, naming):
    if naming == 'int':
        return k
    if naming == 'str':
        return 'q%d' % k
    if naming == 'tuple':
        return ('q', k)
    return (k, 'q%d' % k, ('t', k))[k % 3]


@st.composite
def circuits(draw, min_q=1, max_q=5, max_gates=12, one=ONE, two=TWO,
             three=THREE, other=(), echo=True,
             namings=('int', 'str', 'tuple', 'mixed'), min_gates=1):
    n = draw(st.integers(min_q, max_q))
    naming = draw(st.sampled_from(list(namings)))
    qs = [qubit_name(k, naming) for k in range(n)]
    gates = []
    for _ in range(draw(st.integers(min_gates, max_gates))):
        if echo and gates and draw(st.integers(0, 4)) == 0:
            # undo or repeat a gate, possibly with its qubits reordered
            g = gates[draw(st.integers(max(0, len(gates) - 4),
                                       len(gates) - 1))]
            gates.append(inverse(g) if draw(st.booleans()) else g)
            continue
        k = draw(st.sampled_from([1, 1, 2, 2, 3]))
        k = min(k, n)
        if k == 3 and not three:
            k = 2
        if k == 2 and not two:
            k = 1
        kinds = {1: one, 2: two, 3: three}[k]
        name = draw(st.sampled_from(list(kinds + (other if other and draw(
            st.integers(0, 3)) == 0 else ()))))
        if name in ('P0', 'K'):
            k = 1
        on = tuple(draw(st.permutations(qs))[:k])
        if name in ('rx', 'ry', 'rz', 'cp', 'zz'):
            par = draw(st.sampled_from([0., math.pi, math.pi / 2, -math.pi / 4,
                                        .3, 1.1]))
        elif name in ('u', 'perm', 'diag', 'g'):
            par = draw(st.integers(0, 1 << 20))
        else:
            par = None
        gates.append((name, par, on))
    return tuple(gates)


def qubits_of(circuit):
    return tuple(dict.fromkeys(q for _, _, qs in circuit for q in qs))


def gates_of(circuit):
    return [(matrix(g), g[2]) for g in circuit]


TOKENS = {'0': (1, 0), '1': (0, 1), '+': (S2, S2), '-': (S2, -S2)}
VECTORS = ('0', '1', '+', '-', (.6, .8), (.6, -.8j), (S2, S2 * 1j), (0, -1))


@st.composite
def states(draw, qs, extra=True):
    """None, a token, or a dict of tokens and vectors."""
    kind = draw(st.sampled_from(['none', 'token', 'dict', 'dict', 'full']))
    if kind == 'none':
        return None
    if kind == 'token':
        return draw(st.sampled_from(list(TOKENS)))
    out = {q: draw(st.sampled_from(list(VECTORS)))
           for q in qs if kind == 'full' or draw(st.booleans())}
    if extra and draw(st.integers(0, 9)) == 0:
        out['not a qubit'] = '0'
    return out


def state_of(state, qs):
    """qubit -> vector, for the qubits that are not open."""
    if state is None:
        return {}
    if isinstance(state, str):
        return {q: np.array(TOKENS[state], dtype=complex) for q in qs}
    return {q: np.array(TOKENS.get(v, v) if isinstance(v, str) else v,
                        dtype=complex) for q, v in state.items() if q in qs}


def apply(psi, m, axes):
    k = len(axes)
    m = np.asarray(m).reshape((2,) * 2 * k)
    psi = np.tensordot(m, psi, axes=(range(k, 2 * k), axes))
    return np.moveaxis(psi, range(k), axes)


def amplitudes(gates, qs, initial, final):
    """(tensor, indices): the open indices are (q, 'f') and (q, 'i')."""
    n = len(qs)
    psi = np.ones((), dtype=complex)
    names = []
    ini, fin = state_of(initial, qs), state_of(final, qs)
    # axes: qubits first
    opn = [q for q in qs if q not in ini]
    for q in qs:
        psi = np.multiply.outer(psi, ini[q] if q in ini else np.eye(2))
        names += [('q', q)] + ([] if q in ini else [('i', q)])
    order = [names.index(('q', q)) for q in qs] + [
        names.index(('i', q)) for q in opn]
    psi = psi.transpose(order)
    for m, on in gates:
        psi = apply(psi, m, [qs.index(q) for q in on])
    inds = []
    for k in reversed(range(n)):
        if qs[k] in fin:
            psi = np.tensordot(fin[qs[k]].conj(), psi, axes=(0, k))
    inds = [(q, 'f') for q in qs if q not in fin] + [(q, 'i') for q in opn]
    return psi, tuple(inds)


def contract_network(arrays, ts, out):
    """Sums over every index that is not in `out`, one index at a time."""
    work = [(np.asarray(a), tuple(t)) for a, t in zip(arrays, ts)]
    for a, t in work:
        check(a.shape == (2,) * len(t), 'shape', a.shape, t)
        check(len(set(t)) == len(t), 'repeated index', t)
    out = tuple(out)
    where = {x for _, t in work for x in t}
    check(set(out) <= where, 'open indices missing', set(out) - where)

    def join(group, drop):
        xs = list(dict.fromkeys(x for _, t in group for x in t))
        num = {x: k for k, x in enumerate(xs)}
        keep = [x for x in xs if x != drop]
        args = []
        for a, t in group:
            args += [a, [num[x] for x in t]]
        return np.einsum(*args, [num[x] for x in keep],
                         optimize=len(group) > 3), tuple(keep)

    todo = [x for x in where if x not in out]
    while todo:
        # the cheapest index next
        def size(x):
            return len({y for _, t in work if x in t for y in t})
        x = min(sorted(todo, key=repr), key=size)
        todo.remove(x)
        if size(x) > 22:
            raise MemoryError('reference too large')
        group = [w for w in work if x in w[1]]
        work = [w for w in work if x not in w[1]]
        work.append(join(group, x))
    res = np.ones((), dtype=complex)
    if work:
        num = {x: k for k, x in enumerate(out)}
        acc, accx = np.ones((), dtype=complex), ()
        for a, t in work:
            xs = tuple(dict.fromkeys(accx + t))
            acc = np.einsum(acc, [num[x] for x in accx], a,
                            [num[x] for x in t], [num[x] for x in xs])
            accx = xs
        res = acc.transpose([accx.index(x) for x in out])
    return res


def same_amplitudes(got, want, tol=1e-6, phase=False):
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, 'shape', got.shape, want.shape)
    ratio = 1
    if phase and want.size:
        k = np.unravel_index(np.argmax(np.abs(want)), want.shape)
        if abs(want[k]) > 1e-3:
            ratio = got[k] / want[k]
            check(abs(abs(ratio) - 1) < 1e-3, 'amplitude', got[k], 'for',
                  want[k])
            ratio /= abs(ratio)
    err = np.max(np.abs(got - ratio * want), initial=0)
    scale = max(1., np.max(np.abs(want), initial=0))
    check(err <= tol * scale, f'amplitudes differ by {err}')


__all__ = [k for k in dir() if not k.startswith('_')]
