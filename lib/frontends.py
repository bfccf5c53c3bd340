"""The same circuit in every front end."""
import math

from circuits import FIXED, matrix

# gates with a name in OpenQASM 2
QASM = {
    'X': 'x', 'Y': 'y', 'Z': 'z', 'H': 'h', 'S': 's', 'T': 't', 'I': 'id',
    'S+': 'sdg', 'T+': 'tdg', 'CX': 'cx', 'CZ': 'cz', 'SWAP': 'swap',
    'CCX': 'ccx', 'CH': 'ch', 'CSWAP': 'cswap', 'rx': 'rx', 'ry': 'ry',
    'rz': 'rz', 'H+': 'h', 'X+': 'x', 'CX+': 'cx', 'CZ+': 'cz', 'CCX+': 'ccx',
    'Z+': 'z', 'Y+': 'y', 'SWAP+': 'swap',
}


def number(q):
    """Position of a qubit in the registers: qubits are integers here."""
    assert isinstance(q, int)
    return q


def to_qasm(circuit, n, measure=False, comments=False, split=0):
    """OpenQASM text; the first `split` qubits are a register of their own."""
    def name(q):
        return f'a[{q}]' if q < split else f'q[{q - split}]'

    out = ['// a circuit', ''] if comments else []
    out += ['OPENQASM 2.0;', 'include "qelib1.inc";']
    if split:
        out.append(f'qreg a[{split}];')
    out.append(f'qreg q[{n - split}];')
    if measure:
        out.append(f'creg c[{n}];')
    for k, (g, par, qs) in enumerate(circuit):
        if comments and k % 3 == 1:
            out.append('// next')
        arg = '' if par is None else f'({par!r})'
        if g.endswith('+') and g[:-1] in ('rx', 'ry', 'rz'):
            g, arg = g[:-1], f'({-par!r})'
        out.append(f'{QASM[g]}{arg} ' + ','.join(map(name, qs)) + ';')
    if measure:
        out += [f'measure {name(q)} -> c[{q}];'
                for q in sorted({q for _, _, qs in circuit for q in qs})]
    return '\n'.join(out) + '\n'


def qasm_qubit(q, split=0):
    import cirq
    return cirq.NamedQubit(f'a_{q}' if q < split else f'q_{q - split}')


def to_cirq_ops(circuit, qubit):
    """Operations of cirq, with its own gates where there are any."""
    import cirq
    named = {
        'X': cirq.X, 'Y': cirq.Y, 'Z': cirq.Z, 'H': cirq.H, 'S': cirq.S,
        'T': cirq.T, 'I': cirq.I, 'CX': cirq.CNOT, 'CZ': cirq.CZ,
        'SWAP': cirq.SWAP, 'ISWAP': cirq.ISWAP, 'CCX': cirq.CCX,
        'CCZ': cirq.CCZ, 'CSWAP': cirq.CSWAP, 'V': cirq.X**.5,
        'S+': cirq.S**-1, 'T+': cirq.T**-1, 'ISWAP+': cirq.ISWAP**-1,
        'CH': cirq.ControlledGate(cirq.H),
    }
    for g in circuit:
        name, par, qs = g
        if name in named:
            gate = named[name]
        elif name in ('rx', 'ry', 'rz'):
            gate = getattr(cirq, name)(par)
        elif name == 'cp':
            gate = cirq.CZPowGate(exponent=par / math.pi)
        else:
            gate = cirq.MatrixGate(matrix(g))
        yield gate.on(*map(qubit, qs))


def to_qiskit(circuit, n):
    import qiskit
    from qiskit.circuit.library import UnitaryGate
    qc = qiskit.QuantumCircuit(n)
    for g in circuit:
        name, par, qs = g
        if name in QASM and name not in ('I', 'CH') and not (
                name.endswith('+') and name not in ('S+', 'T+')):
            f = getattr(qc, QASM[name])
            f(*qs) if par is None else f(par, *qs)
        elif name in ('cp',):
            qc.cp(par, *qs)
        else:
            # their first qubit is the least significant one
            qc.append(UnitaryGate(matrix(g)), list(reversed(qs)))
    return qc


__all__ = [k for k in dir() if not k.startswith('_')]
assert FIXED
