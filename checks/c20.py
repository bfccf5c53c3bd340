"""C20: all front ends of circuits mean the same circuit."""
import bz2
import gzip
import io
import json
import os
import sys
import tempfile

import cirq
import qiskit
from circuits import *  # noqa: F403
from frontends import *  # noqa: F403
from harness import Sub, check, expect_raises, known, skip, st
from qiskit.quantum_info import Operator
from tnco.app import load_tn
from tnco.utils.circuit import load

PLAIN = tuple(k for k in QASM if k not in ('CX', 'CZ', 'SWAP', 'CCX', 'CH',
                                           'CSWAP') and
              k[:-1] not in ('CX', 'CZ', 'SWAP', 'CCX'))
FORMS = ('gates', 'tuple', 'cirq', 'frozen', 'moment', 'cirq json',
         'cirq dict', 'qasm', 'qiskit', 'file', 'stdin')


@st.composite
def cases(draw):
    form = draw(st.sampled_from(FORMS))
    inner = 'qasm'
    if form in ('file', 'stdin'):
        inner = draw(st.sampled_from(['qasm', 'cirq json']))
    qasm = 'qasm' in (form, inner) and form in ('qasm', 'file', 'stdin')
    kw = dict(one=PLAIN, two=('CX', 'CZ', 'SWAP', 'CH', 'CX'),
              three=('CCX', 'CSWAP'), echo=False) if qasm else {}
    if form == 'moment':
        kw.update(max_gates=4)
    c = draw(circuits(namings=('int',), max_q=4, **dict(dict(max_gates=10),
                                                        **kw)))
    if form == 'moment':
        used, keep = set(), []
        for g in c:
            if not used & set(g[2]):
                used |= set(g[2])
                keep.append(g)
        c = tuple(keep)
    qs = qubits_of(c)
    return dict(
        circuit=c, form=form, inner=inner,
        initial=draw(states(qs, extra=False)),
        final=draw(states(qs, extra=False)),
        measure=draw(st.booleans()), comments=draw(st.booleans()),
        how=draw(st.sampled_from(['one', 'each', 'masked', 'pauli'])),
        split=draw(st.integers(0, max(qs))),
        names=draw(st.sampled_from(['line', 'grid', 'named'])),
        zipped=draw(st.sampled_from(['', '.gz', '.gzip', '.bz2'])),
        simplify=draw(st.booleans()),
        decompose=draw(st.booleans()), fuse=draw(st.sampled_from([0, 4])),
        dtype=draw(st.sampled_from([None, 'complex128', 'complex64'])),
        seed=draw(st.integers(0, 100)))


def qubit_of(c):
    if c['form'] in ('gates', 'tuple'):
        return lambda q: q
    if c['form'] == 'qasm' or (c['form'] in ('file', 'stdin') and
                               c['inner'] == 'qasm'):
        return lambda q: qasm_qubit(q, c['split'])
    if c['names'] == 'line':
        return cirq.LineQubit
    if c['names'] == 'grid':
        return lambda q: cirq.GridQubit(1, q)
    return lambda q: cirq.NamedQubit('n%d' % q)


def measurements(how, qs):
    if how == 'masked':
        return cirq.measure(*qs, key='m', invert_mask=(True,))
    if how == 'pauli':
        paulis = cirq.X, cirq.Y, cirq.Z
        return cirq.measure_single_paulistring(
            cirq.PauliString({q: paulis[i % 3] for i, q in enumerate(qs)}))
    return cirq.measure(*qs, key='m') if how == 'one' else [
        cirq.measure(q) for q in qs]


def build(c):
    """(object in that front end, qubit -> its qubit, moment?)"""
    circuit, form = c['circuit'], c['form']
    n = max(qubits_of(circuit)) + 1
    qubit = qubit_of(c)
    if form in ('gates', 'tuple'):
        gates = gates_of(circuit)
        return gates if form == 'gates' else tuple(gates), qubit
    if form == 'qiskit':
        qc = to_qiskit(circuit, n)
        if c['measure']:
            qc.measure_all()
        return qc, lambda q: qc.qubits[q]
    text = None
    if form in ('qasm', 'file', 'stdin') and (form == 'qasm' or
                                              c['inner'] == 'qasm'):
        text = to_qasm(circuit, n, c['measure'], c['comments'],
                       c['split'])
        return text, qubit
    ops = list(to_cirq_ops(circuit, qubit))
    if form == 'moment':
        return cirq.Moment(ops), qubit
    qc = cirq.Circuit(ops)
    if c['measure']:
        qs = sorted(qc.all_qubits())
        qc.append(measurements(c.get('how'), qs))
    if form == 'frozen':
        return qc.freeze(), qubit
    if form == 'cirq':
        return qc, qubit
    text = cirq.to_json(qc)
    return json.loads(text) if form == 'cirq dict' else text, qubit


def values(c, o):
    """The amplitudes by every way there is: (name, tensor, indices)."""
    x, qubit = build(c)
    opt = dict(dtype=c['dtype'], seed=c['seed'])
    if c['dtype'] == 'complex64':
        opt.update(atol=1e-5)

    def state(s):
        if isinstance(s, dict):
            return {qubit(q): v if isinstance(v, str) else list(v)
                    for q, v in s.items()}
        return s

    opt.update(initial_state=state(c['initial']),
               final_state=state(c['final']))
    app = dict(opt, simplify_circuit=c['simplify'],
               decompose_hyper_inds=c['decompose'], fuse=c['fuse'])
    low = dict(opt, simplify=c['simplify'], decompose_hyper_inds=c['decompose'],
               fuse=c['fuse'])

    if c['form'] in ('gates', 'tuple', 'cirq', 'frozen', 'moment', 'qiskit'):
        a, ts, out = load(x, **low)
        yield 'load', contract, (a, ts, out), qubit
    if c['form'] == 'moment':
        return
    if c['form'] == 'file':
        d = tempfile.mkdtemp()
        f = os.path.join(d, 'circuit.txt' + c['zipped'])
        op = dict([('.gz', gzip.open), ('.gzip', gzip.open),
                   ('.bz2', bz2.open)]).get(c['zipped'], open)
        with op(f, 'wb') as h:
            h.write(x.encode())
        try:
            tn = load_tn(f, **app)
        finally:
            os.remove(f)
            os.rmdir(d)
    elif c['form'] == 'stdin':
        old, sys.stdin = sys.stdin, io.StringIO(x)
        try:
            tn = load_tn('stdin', **app)
        finally:
            sys.stdin = old
    else:
        tn = load_tn(x, **app)
    yield 'load_tn', contract, (list(tn.arrays), list(tn.ts_inds),
                                tn.output_inds), qubit


def contract(net, inds):
    return contract_network(net[0], net[1], inds)


def run(c):
    qs = qubits_of(c['circuit'])
    gates = gates_of(c['circuit'])
    want, inds = amplitudes(gates, qs, c['initial'], c['final'])
    tol = 1e-3 if c['dtype'] == 'complex64' else 1e-6
    wide = [q for q in c['circuit'] if len(q[2]) > 1]
    found = False
    for name, f, net, qubit in values(c, None):
        xs = tuple((qubit(q), k) for q, k in inds)
        check(frozenset(xs) == frozenset(net[2]), name, 'open indices',
              net[2], xs)
        if c['dtype'] is not None:
            check(all(a.dtype == np.dtype(c['dtype']) for a in net[0]),
                  'dtype')
        got = f(net, xs)
        try:
            # QASM fixes gates up to a phase only
            same_amplitudes(got, want, tol, phase=c['simplify'] or
                            c['form'] in ('qasm', 'file', 'stdin'))
        except AssertionError:
            if c['form'] != 'qiskit':
                raise
            # a listed finding: the matrices of qiskit, whose first qubit is
            # the least significant one, are read as if it was the most
            # significant one
            swapped, i2 = amplitudes(
                [(little_endian(m, len(on)), on) for m, on in gates], qs,
                c['initial'], c['final'])
            same_amplitudes(got, swapped, tol, phase=c['simplify'])
            if not known('qiskit-qubit-order'):
                raise
            found = True
    return dict(nontrivial=len(gates) > 1 and bool(wide),
                tags=[c['form'] + (' (' + c['inner'] + ')' if c['form'] in
                                   ('file', 'stdin') else '')] +
                (['qiskit order'] if found else []))


def little_endian(m, n):
    """The matrix qiskit uses for a gate."""
    order = list(reversed(range(n)))
    return np.asarray(m).reshape((2,) * 2 * n).transpose(
        order + [n + k for k in order]).reshape(2**n, 2**n)


def run_simulators(c):
    """The references agree with the simulators of the front ends, and so do
    the networks."""
    circuit = c['circuit']
    qs = qubits_of(circuit)
    n = len(qs)
    pos = {q: k for k, q in enumerate(qs)}
    circuit = tuple((g, p, tuple(pos[q] for q in on)) for g, p, on in circuit)
    qs = tuple(range(n))
    want, inds = amplitudes(gates_of(circuit), qs, None, None)
    want = want.reshape(2**n, 2**n)
    qubits = cirq.LineQubit.range(n)
    qc = cirq.Circuit(to_cirq_ops(circuit, cirq.LineQubit))
    U = qc.unitary(qubit_order=qubits, qubits_that_should_be_present=qubits)
    # a broken reference must not be blamed on the code
    same_amplitudes(U, want, 1e-6, phase=True)
    kq = to_qiskit(circuit, n)
    V = Operator(kq).reverse_qargs().data
    same_amplitudes(V, want, 1e-6, phase=True)
    xs = tuple((q, 'f') for q in qubits) + tuple((q, 'i') for q in qubits)
    a, ts, out = load(qc, initial_state=None, final_state=None,
                      simplify=c['simplify'], seed=c['seed'])
    same_amplitudes(contract_network(a, ts, xs).reshape(2**n, 2**n), U, 1e-6,
                    phase=c['simplify'])
    return dict(nontrivial=len(circuit) > 2 and n > 1)


@st.composite
def sim_cases(draw):
    return dict(circuit=draw(circuits(namings=('int',), max_q=4)),
                simplify=draw(st.booleans()), seed=draw(st.integers(0, 99)))


SUBS = [
    Sub('forms', cases(), run, 2400, 120000,
        'more than one gate, one on several qubits', 3),
    Sub('simulators', sim_cases(), run_simulators, 400, 20000,
        'more than two gates on more than one qubit', 1),
]
