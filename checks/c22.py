"""C22: samples follow the exact output distribution."""
import warnings
from itertools import product

import cirq
from circuits import *  # noqa: F403
from frontends import to_cirq_ops, to_qiskit
from harness import Sub, check, expect_raises, skip, st
from scipy.stats import binom
from twin import twin
from tnco.app.circuit import Sampler

CLASSICAL2 = ('CX', 'CZ', 'SWAP', 'ISWAP', 'cp', 'zz', 'perm', 'diag')
CLASSICAL3 = ('CCX', 'CCZ', 'CSWAP', 'perm', 'diag')
OTHER2 = ('CH', 'u', 'CV')


@st.composite
def cases(draw, max_q=3, max_gates=8, samples=(0, 1, 2, 10, 30, 60),
          forms=('gates', 'gates', 'cirq', 'moments', 'qiskit'),
          min_q=2, min_gates=4):
    form = draw(st.sampled_from(forms))
    if form == 'qiskit':
        # gates for which the order of the qubits does not matter (see C20)
        kw = dict(two=('CZ', 'SWAP', 'cp'), three=('CCZ',))
    else:
        kw = dict(two=CLASSICAL2, three=CLASSICAL3)
    c = draw(circuits(max_q=max_q, max_gates=max_gates, min_q=min_q,
                      min_gates=min_gates,
                      one=('H', 'H', 'rx', 'ry', 'u', 'X', 'Z', 'T', 'V',
                           'rz'),
                      namings=('int',) if form != 'gates' else
                      ('int', 'str', 'tuple', 'mixed'), **kw))
    qs = qubits_of(c)
    if draw(st.booleans()):
        # in superposition from the start
        par = draw(st.sampled_from([.3, 1.1, math.pi / 2]))
        c = tuple(('ry', par, (q,)) for q in qs) + c
    return dict(circuit=c, form=form,
                order=tuple(draw(st.permutations(qs))) if draw(
                    st.booleans()) else None,
                n=draw(st.sampled_from(samples)),
                normalize=draw(st.booleans()),
                state=draw(st.booleans()),
                options=dict(simplify=draw(st.booleans()),
                             use_matrix_commutation=draw(st.booleans()),
                             decompose_hyper_inds=draw(st.booleans()),
                             fuse=draw(st.sampled_from([0, 2, 4, 4, 20]))),
                dtype=draw(st.sampled_from([None, None, 'complex128',
                                            'complex64'])),
                n_runs=draw(st.sampled_from([1, 1, 3])),
                seed=draw(st.integers(0, 1 << 20)))


def build(c):
    """(circuit object, abstract qubit -> its qubit)"""
    form = c['form']
    if form == 'gates':
        return gates_of(c['circuit']), {q: q for q in qubits_of(c['circuit'])}
    if form == 'qiskit':
        n = max(qubits_of(c['circuit'])) + 1
        qc = to_qiskit(c['circuit'], n)
        if c['normalize']:
            qc.measure_all()
        return qc, {q: qc.qubits[q] for q in range(n)}
    ops = list(to_cirq_ops(c['circuit'], cirq.LineQubit))
    qc = cirq.Circuit(ops) if form == 'cirq' else cirq.Circuit(
        cirq.Moment([o]) for o in ops).freeze()
    if c['normalize'] and form == 'cirq':
        qc.append(cirq.measure(*sorted(qc.all_qubits())))
    return qc, {q: cirq.LineQubit(q) for q in qubits_of(c['circuit'])}


def go(c):
    x, names = build(c)
    s = Sampler(n_jobs=1, seed=c['seed'], dtype=c['dtype'])
    o = dict(c['options'], betas=(0, 10), n_steps=3, n_runs=c['n_runs'])
    order = None if c['order'] is None else [names[q] for q in c['order']]
    # both use the seed in the same way
    state = s.sample(x, return_intermediate_state_only=True, **o)
    return s.sample(state if c['state'] else x, c['n'], qubit_order=order,
                    normalize=c['normalize'], **o), names


def distribution(c):
    """(qubits, probability of each string)"""
    qs = qubits_of(c['circuit'])
    psi, inds = amplitudes(gates_of(c['circuit']), qs, '0', None)
    return qs, np.abs(psi)**2


def run(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (res, order), names = go(c)
    qs, p = distribution(c)
    back = {v: k for k, v in names.items()}
    order = tuple(back[q] for q in order)
    check(sorted(map(repr, order)) == sorted(map(repr, qs)), 'qubits', order)
    if c['order'] is not None:
        check(order == c['order'], 'another order of the qubits', order)
    n = c['n']
    if c['normalize']:
        check(abs(sum(res.values()) - (1 if n else 0)) < 1e-9, 'total', res)
        counts = {k: v * n for k, v in res.items()}
        check(all(abs(v - round(v)) < 1e-6 for v in counts.values()),
              'fractions', res)
        counts = {k: round(v) for k, v in counts.items()}
    else:
        counts = res
    check(sum(counts.values()) == n and all(v > 0 for v in counts.values()),
          'total', res)
    eps = 1e-5 if c['dtype'] == 'complex64' else 1e-9
    low = 1e-10
    for bits in product('01', repeat=len(qs)):
        b = ''.join(bits)
        want = p[tuple(int(bits[order.index(q)]) for q in qs)]
        k = counts.get(b, 0)
        if want < eps:
            check(k == 0, f'{b} has probability {want}')
            continue
        tail = min(binom.cdf(k, n, min(1, want + 1e-7)),
                   binom.sf(k - 1, n, min(1, want + 1e-7)))
        check(tail > low, f'{b} of probability {want}: {k} times out of {n}')
    check(all(len(b) == len(qs) and set(b) <= {'0', '1'} for b in counts),
          'strings', counts)
    if c['seed'] % 3 == 0 and n < 100:
        (again, o2), _ = go(c)
        check(again == res, 'other samples for the same seed')
        # the circuit instead of its intermediate state, and vice versa
        (other, o3), _ = go(dict(c, state=not c['state']))
        check(other == res and o2 == o3,
              'a reused intermediate state gives other samples')
    n_out = int(np.sum(p > eps))
    return dict(nontrivial=n_out > 1 and n > 1,
                tags=[c['form'], f'{min(n_out, 8)} outcomes',
                      'reused state' if c['state'] else 'circuit'])


def picture(c):
    (res, order), _ = go(c)
    return repr(sorted(res.items())) + repr(tuple(order))


def run_processes(c):
    c = dict(c, order=c['order'] or tuple(sorted(qubits_of(c['circuit']),
                                                 key=repr)))
    check(picture(c) == twin('checks.c22', 'picture', c),
          'other samples in another process (other order of sets)')
    return dict(nontrivial=c['n'] > 1 and len(c['circuit']) > 2)


def run_refuse(c):
    x, names = build(c)
    qs = list(names.values())
    kw = dict(betas=(0, 1), n_steps=1)

    def refuse(why, x=x, types=ValueError, **k):
        expect_raises(lambda: Sampler(n_jobs=1).sample(x, **dict(kw, **k)),
                      types, why)

    g = gates_of(c['circuit'])
    a, b = qs[0], 'another'
    for k, name in enumerate(OTHER2):
        m = matrix((name, 3, ('a', 'b')))
        refuse('not classical', g[:k] + [(m, (a, b))] + g[k:])
    refuse('not classical', g + [(np.kron(FIXED['H'], FIXED['H']), (a, b))])
    refuse('not classical', g + [(2 * np.eye(4), (a, b))])
    refuse('not classical', g + [(np.ones((4, 4)) / 2, (a, b))])
    # not even a matrix for qubits
    refuse('three levels', g + [(np.eye(3), (a, b))])
    refuse('wrong order', qubit_order=qs + ['nope'])
    refuse('wrong order', qubit_order=qs[1:])
    for w in (1, 10.):
        expect_raises(lambda: Sampler(max_width=w), NotImplementedError,
                      'finite width')
    return dict(nontrivial=len(g) > 1)


SUBS = [
    Sub('samples', cases(), run, 320, 40000,
        'several outcomes, more than one sample', 2),
    Sub('distribution', cases(max_q=2, max_gates=5, samples=(150, 300),
                              forms=('gates',)), run, 64, 8000,
        'several outcomes, more than one sample', 2),
    Sub('processes', cases(forms=('gates',), samples=(2, 20)), run_processes,
        64, 4000, 'more than one sample and two gates', .6),
    Sub('refuse', cases(forms=('gates',)), run_refuse, 48, 2000,
        'more than one gate', .3),
]
