"""C19: the network of a circuit has the amplitudes of the circuit."""
from circuits import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from twin import twin
from tnco.utils.circuit import load


@st.composite
def load_cases(draw, **kw):
    simplify = draw(st.booleans())
    c = draw(circuits(other=() if simplify else NON_UNITARY, **kw))
    qs = qubits_of(c)
    # limits the size of the reference
    ini, fin = draw(states(qs)), draw(states(qs))
    return dict(
        circuit=c, initial=ini, final=fin,
        options=dict(simplify=simplify,
                     use_matrix_commutation=draw(st.booleans()),
                     decompose_hyper_inds=draw(st.booleans()),
                     fuse=draw(st.sampled_from([None, 0, 1, 2, 3, 4, 4, 6, 30])),
                     seed=draw(st.sampled_from([0, 1, 7, 1 << 31]))),
        dtype=draw(st.sampled_from([None, None, 'complex128', 'complex64'])),
        defaults=draw(st.integers(0, 3)) == 0)


def plain(state):
    """Vectors as arrays."""
    if isinstance(state, dict):
        return {q: v if isinstance(v, str) else list(v)
                for q, v in state.items()}
    return state


def go(c, **kw):
    o = dict(seed=3) if c['defaults'] and c['options']['simplify'] else dict(
        c['options'])
    o.update(dtype=c['dtype'])
    if c['dtype'] == 'complex64':
        o.update(atol=1e-5)
    o.update(kw)
    return load(gates_of(c['circuit']), initial_state=plain(c['initial']),
                final_state=plain(c['final']), **o)


def run(c):
    qs = qubits_of(c['circuit'])
    o = c['options']
    gates = gates_of(c['circuit'])
    if c['dtype'] == 'complex64':
        gates = [(m.astype('complex64'), on) for m, on in gates]
    arrays, ts, out = go(c)
    check(len(arrays) == len(ts), 'number of tensors')
    want, inds = amplitudes(gates, qs, c['initial'], c['final'])
    check(frozenset(inds) == frozenset(out), 'open indices', out, inds)
    low = c['dtype'] == 'complex64'
    # the loader takes gates for equal up to relative errors of 1e-5
    tol = 1e-3 if low else 1e-6
    same_amplitudes(contract_network(arrays, ts, inds), want, tol,
                    phase=o['simplify'])
    for a in arrays:
        check(c['dtype'] is None or a.dtype == np.dtype(c['dtype']), 'dtype',
              a.dtype)
    bare = not (o['simplify'] or o['decompose_hyper_inds'] or o['fuse'])
    n_states = len(state_of(c['initial'], qs)) + len(state_of(c['final'], qs))
    if bare:
        check(len(arrays) == len(gates) + n_states, 'number of tensors')
    again = go(c)
    check(list(again[1]) == list(ts) and again[2] == out and
          all(map(np.array_equal, again[0], arrays)),
          'another network for the same seed')
    return dict(nontrivial=len(gates) > 2 and len(qs) > 1,
                tags=[f'{min(len(out), 8)} open',
                      'simplify' if o['simplify'] else 'as is',
                      'decompose' if o['decompose_hyper_inds'] else 'dense',
                      'fewer tensors' if len(arrays) < len(gates) + n_states
                      else 'all tensors'])


def picture(c):
    arrays, ts, out = go(c)
    return repr(([tuple(t) for t in ts], sorted(out, key=repr),
                 [(np.round(a, 6) + 0).tolist() for a in arrays]))


def run_processes(c):
    check(picture(c) == twin(
        'checks.c19', 'picture', c),
        'another network in another process (other order of sets)')
    return dict(nontrivial=len(c['circuit']) > 2)


@st.composite
def deep_cases(draw):
    """Long circuits on few qubits, with diagonal gates and echoes."""
    return draw(load_cases(max_q=4, max_gates=40, min_gates=12,
                           one=('Z', 'S', 'T', 'X', 'H', 'rz'),
                           two=('CZ', 'zz', 'cp', 'CX', 'SWAP'),
                           three=('CCZ', 'diag', 'perm')))


def run_refuse(c):
    gates = gates_of(c['circuit'])
    qs = qubits_of(c['circuit'])

    def refuse(why, g=gates, types=ValueError, **kw):
        expect_raises(lambda: load(g, **kw), types, why)

    for k in ('initial_state', 'final_state'):
        refuse('not normalized', **{k: {qs[0]: [1, 1]}})
        refuse('not a vector', **{k: {qs[0]: [1, 0, 0]}})
        refuse('not a token', **{k: {qs[0]: '2'}})
        refuse('not a token', **{k: 'x'}, types=NotImplementedError)
    refuse('wrong size', g=gates + [(np.eye(4), qs[:1])])
    refuse('unknown option', nope=1, types=TypeError)
    return dict(nontrivial=len(gates) > 2)


R = 'more than two gates, more than one qubit'
SUBS = [
    Sub('load', load_cases(), run, 3200, 200000, R, 3),
    Sub('deep', deep_cases(), run, 800, 40000, R, 2),
    Sub('processes', load_cases(namings=('str', 'tuple')), run_processes, 600,
        20000, 'more than two gates', 1),
    Sub('refuse', load_cases(), run_refuse, 200, 4000, 'more than two gates',
        .3),
]
