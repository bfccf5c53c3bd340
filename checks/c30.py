"""C30: Tensor and TensorNetwork objects are always self-consistent."""
import copy
import json
import pickle
import re
from collections import Counter

import numpy as np

from harness import Sub, check, expect_raises, st
from tnco.app import Tensor, TensorNetwork

NAMES = ['a', 'b', 'c', 'd', 0, 1, ('q', 0), ('q', 1), ('x', 'y', 2)]
BAD_DIMS = [0, -1, 2.5, 'x', None, float('nan'), -2.0]
NUMBERS = ('int64', 'float64', 'complex128', 'bool', 'int8', 'complex64')
TAGS = st.dictionaries(st.sampled_from(['t', 'u', 'v']),
                       st.one_of(st.integers(-3, 3), st.text('xy', max_size=2),
                                 st.lists(st.integers(0, 2), max_size=2),
                                 st.none()), max_size=2)


def as_int(x):
    """The integer x stands for, or None."""
    if isinstance(x, str) or x is None or x != x or x != int(x):
        return None
    return int(x)


def make_array(shape, dtype, s):
    """An array whose items are all different if there are not too many."""
    n = int(np.prod(shape, dtype=int))
    a = (np.arange(n) * 3 + s) % 101
    if dtype == 'bool':
        a = a % 2 == 0
    elif dtype.startswith('complex'):
        a = a - 1j * ((a + s) % 7)
    elif dtype == 'float64':
        a = a / 4 - 5
    return np.reshape(a.astype(dtype), shape)


def wrap(how, xs):
    if how in ('int64', 'int32', 'float64'):
        return [getattr(np, how)(x) if as_int(x) is not None else x for x in xs]
    if how == 'array':
        return np.array(xs) if all(as_int(x) is not None for x in xs) else xs
    return dict(list=list, tuple=tuple, iter=iter)[how](xs)


# ---- one tensor ------------------------------------------------------------------
@st.composite
def tensors(draw):
    n = draw(st.integers(0, 4))
    inds = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n,
                         unique=draw(st.sampled_from([True, True, False]))))
    true = draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
    shape = draw(st.sampled_from(['none', 'right', 'right', 'wrong', 'any']))
    if shape == 'none':
        array = None
    elif shape == 'right':
        array = list(true)
    elif shape == 'wrong':
        array = list(true)
        if array and draw(st.booleans()):
            array[draw(st.integers(0, n - 1))] = draw(st.integers(0, 5))
        else:
            array.insert(draw(st.integers(0, n)), draw(st.integers(0, 3)))
    else:
        array = draw(st.lists(st.integers(0, 3), max_size=4))
    kind = draw(st.sampled_from(['none', 'scalar', 'right', 'right', 'wrong',
                                 'bad']))
    if kind == 'none':
        dims = None
    elif kind == 'scalar':
        dims = draw(st.sampled_from([1, 2, 3, 2., 0, -1, 2.5, -3.]))
        if dims in (1, 2, 3) and array and draw(st.booleans()):
            array = [int(dims)] * draw(st.integers(max(n - 1, 0), n + 1))
    else:
        dims = list(true)
        if kind == 'wrong':
            if dims and draw(st.booleans()):
                dims[draw(st.integers(0, n - 1))] += 1
            elif dims and draw(st.booleans()):
                dims.pop()
            else:
                dims.append(draw(st.integers(1, 3)))
        elif kind == 'bad' and dims:
            dims[draw(st.integers(0, n - 1))] = draw(st.sampled_from(BAD_DIMS))
    return dict(inds=inds, dims=dims, shape=array,
                dtype=draw(st.sampled_from(NUMBERS)),
                dims_how=draw(st.sampled_from(
                    ['list', 'tuple', 'iter', 'int64', 'int32', 'float64',
                     'array'])),
                inds_how=draw(st.sampled_from(['list', 'tuple', 'iter'])),
                nested=draw(st.booleans()), tags=draw(st.none() | TAGS),
                s=draw(st.integers(0, 50)))


def model(inds, dims, shape):
    """The dimensions of the tensor; None if it cannot be created."""
    if dims is None and shape is None:
        return None
    if dims is None:
        dims = list(shape)
    elif not isinstance(dims, list):
        d = as_int(dims)
        if d is None or d < 1:
            return None
        dims = [d] * len(inds)
    dims = [as_int(x) for x in dims]
    if any(x is None or x < 1 for x in dims) or len(dims) != len(inds):
        return None
    if shape is not None and list(shape) != dims:
        return None
    return tuple(dims)


def build(case):
    dims, array = case['dims'], None
    if isinstance(dims, list):
        dims = wrap(case['dims_how'], dims)
    if case['shape'] is not None:
        array = make_array(case['shape'], case['dtype'], case['s'])
        if case['nested'] and array.size and case['dtype'] in (
                'int64', 'float64', 'complex128', 'bool'):
            array = array.tolist()
    return Tensor(wrap(case['inds_how'], case['inds']), dims, array,
                  case['tags'])


def decode(x):
    """The array of a JSON text: complex numbers are written 're + imj'."""
    if isinstance(x, list):
        return [decode(y) for y in x]
    if isinstance(x, str):
        m = re.fullmatch(r'(\S+) \+ (\S+)j', x)
        check(m, 'complex number', x)
        return complex(float(m[1]), float(m[2]))
    return x


def is_json(text, t):
    """Is this (parsed) JSON text the tensor?"""
    def listed(x):
        return json.loads(json.dumps(x))

    check(set(text) >= {'inds', 'dims', 'array', 'tags'}, 'fields', text)
    check(text['inds'] == listed(t.inds), 'inds', text, t.inds)
    check(text['dims'] == listed([int(x) for x in t.dims]) and
          all(type(x) is int for x in text['dims']), 'dims', text, t.dims)
    check(text['tags'] == listed(t.tags), 'tags', text, t.tags)
    if t.array is None:
        check(text['array'] is None, 'array', text)
    else:
        a = np.array(decode(text['array']))
        check(a.shape == t.array.shape and np.array_equal(a, t.array), 'array',
              text, t.array)


def run_tensor(case):
    dims = model(case['inds'], case['dims'], case['shape'])
    if dims is None:
        expect_raises(lambda: build(case), Exception, 'inconsistent')
        return dict(tags=['refused'])
    t = build(case)

    def is_right(t):
        check(t.inds == tuple(case['inds']), 'inds', t.inds)
        check(t.dims == dims and type(t.dims) is tuple, 'dims', t.dims, dims)
        check(t.ndim == len(dims), 'ndim', t.ndim)
        check(t.tags == (case['tags'] or {}), 'tags', t.tags)
        if case['shape'] is None:
            check(t.array is None, 'array')
        else:
            a = make_array(case['shape'], case['dtype'], case['s'])
            check(t.array.shape == dims and np.array_equal(t.array, a),
                  'array', t.array, a)

    is_right(t)
    check(t == t and not t != t and t == build(case), 'equality')
    is_json(json.loads(t.to_json()), t)
    check(str(len(dims)) in repr(t), 'repr', repr(t))
    for u in (pickle.loads(pickle.dumps(t)), copy.copy(t), copy.deepcopy(t)):
        is_right(u)
        check(u == t, 'copy')
    for k in ('inds', 'dims', 'array', 'tags'):
        expect_raises(lambda: setattr(t, k, getattr(t, k)), AttributeError, k)
    if case['tags'] is not None:
        # The tags given are not shared
        given = dict(case['tags'])
        t = Tensor(case['inds'], dims, tags=given)
        given['more'] = 1
        check('more' not in t.tags, 'shared tags')
    return dict(nontrivial=bool(dims), tags=['accepted'])


# ---- equality ----------------------------------------------------------------------
@st.composite
def pairs(draw):
    n = draw(st.integers(0, 4))
    return dict(inds=draw(st.permutations(NAMES))[:n],
                dims=draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
                dtype=draw(st.sampled_from(NUMBERS)),
                s=draw(st.integers(0, 50)), at=draw(st.integers(0, 80)),
                arrays=draw(st.sampled_from(['both', 'both', 'both', 'none'])),
                how=draw(st.sampled_from(
                    ['same', 'noise', 'item', 'inds', 'order', 'dims', 'ndim',
                     'no-array', 'tags', 'other', 'dtype', 'size'])),
                noise=draw(st.sampled_from([1e-6, -1e-7, 3e-6, 1e-9])),
                step=draw(st.sampled_from([1, -1, 1e-3, -1e-4, 1e5])))


def run_equal(case):
    inds, dims, how = list(case['inds']), list(case['dims']), case['how']
    array = None if case['arrays'] == 'none' else make_array(
        dims, case['dtype'], case['s'])
    x = Tensor(inds, dims, array, {'t': 1})
    yi, yd, ya, tags, want = list(inds), list(dims), array, {'t': 1}, True
    k = case['at']
    if how in ('noise', 'item') and array is not None:
        kind = 'complex128' if 'complex' in case['dtype'] else 'float64'
        step = case['noise' if how == 'noise' else 'step']
        ya = np.array(array, dtype=kind)
        ya.flat[k % ya.size] += step
        want = how == 'noise'
    elif how == 'inds' and inds:
        yi[k % len(yi)] = 'other'
        want = False
    elif how == 'order' and len(inds) > 1:
        a, b = k % len(inds), (k // 4 + k + 1) % len(inds)
        yi[a], yi[b] = yi[b], yi[a]
        want = yi == inds
    elif how in ('dims', 'size') and inds:
        j = k % len(inds)
        yd[j] = 1 if how == 'size' and yd[j] != 1 else yd[j] + 1
        ya = None if array is None else make_array(yd, case['dtype'], case['s'])
        want = False
    elif how == 'ndim':
        yi.append('last')
        yd.append(1)
        ya = None if array is None else np.reshape(array, yd)
        want = False
    elif how == 'no-array' and array is not None:
        ya, want = None, False
    elif how == 'tags':
        tags = {'other': 2}
    elif how == 'dtype' and array is not None:
        ya = array.astype('complex128')
    y = Tensor(yi, yd, ya, tags)
    check((x == y) is want and (y == x) is want and (x != y) is not want, how,
          x == y, y == x)
    tn_x, tn_y = TensorNetwork([x], inds), TensorNetwork([y], yi)
    check((tn_x == tn_y) is want and (tn_x != tn_y) is not want, how, 'network')
    for z in (None, 3, 'x', inds, tn_x):
        check(not x == z and x != z, 'another type', z)
    return dict(nontrivial=bool(inds), tags=[how, 'equal' if want else 'unequal'])


# ---- networks -----------------------------------------------------------------------
@st.composite
def networks(draw):
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, len(NAMES)))]
    true = {x: draw(st.integers(1, 3)) for x in names}
    wide = draw(st.booleans())
    ts = []
    left = {x: 2 for x in names}
    for _ in range(draw(st.integers(0, 6))):
        avail = names if wide else [x for x in names if left[x]]
        inds = draw(st.lists(st.sampled_from(avail), max_size=4,
                             unique=not wide or draw(st.booleans()))) \
            if avail else []
        for x in inds:
            left[x] -= 1
        ts.append(dict(inds=inds, dims=[true[x] for x in inds],
                       array=draw(st.booleans()), s=draw(st.integers(0, 50)),
                       tags=draw(st.none() | TAGS)))
    mistake = draw(st.sampled_from([None] * 5 + ['dims', 'output', 'sparse',
                                                 'type']))
    if mistake == 'dims' and any(t['inds'] for t in ts):
        t = draw(st.sampled_from([t for t in ts if t['inds']]))
        t['dims'][draw(st.integers(0, len(t['inds']) - 1))] += draw(
            st.integers(1, 2))
    used = list(dict.fromkeys(x for t in ts for x in t['inds']))

    def subset():
        return [x for x in used if draw(st.booleans())]

    def extra(xs):
        missing = [x for x in NAMES if x not in used] + ['no such index']
        return xs + [draw(st.sampled_from(missing))]

    out = draw(st.sampled_from(['none', 'none', 'given']))
    out = None if out == 'none' and mistake != 'output' else subset()
    sparse = None if draw(st.booleans()) and mistake != 'sparse' else subset()
    return dict(ts=ts, out=extra(out) if mistake == 'output' else out,
                sparse=extra(sparse) if mistake == 'sparse' else sparse,
                junk=draw(st.sampled_from([None, 1, 'ab', ('a',)]))
                if mistake == 'type' else False,
                tags=draw(st.none() | TAGS),
                how=draw(st.sampled_from(['list', 'tuple', 'iter'])),
                change=draw(st.sampled_from(
                    [None, 'out', 'sparse', 'tags', 'drop', 'array', 'swap'])),
                at=draw(st.integers(0, 99)))


def make_network(case):
    how = dict(list=list, tuple=tuple, iter=iter)[case['how']]
    ts = [Tensor(t['inds'], t['dims'],
                 make_array(t['dims'], 'float64', t['s']) if t['array'] else
                 None, t['tags']) for t in case['ts']]
    given = ts + ([case['junk']] if case['junk'] is not False else [])
    return ts, TensorNetwork(
        how(given), None if case['out'] is None else how(case['out']),
        None if case['sparse'] is None else how(case['sparse']), case['tags'])


def run_network(case):
    ts = case['ts']
    used = [x for t in ts for x in t['inds']]
    count, dims, why = Counter(used), {}, None
    for t in ts:
        for x, d in zip(t['inds'], t['dims']):
            if dims.setdefault(x, d) != d:
                why = 'dimensions'
    hyper = [x for x, n in count.items() if n > 2]
    if case['out'] is None and hyper:
        why = 'no output'
    if not {*(case['out'] or ()), *(case['sparse'] or ())} <= set(used):
        why = 'unknown index'
    if case['junk'] is not False:
        why = 'type'
    if why:
        expect_raises(lambda: make_network(case), Exception, why)
        return dict(tags=['refused:' + why])
    given, tn = make_network(case)
    out = {x for x, n in count.items() if n == 1} if case['out'] is None else \
        set(case['out'])

    def is_right(tn):
        check(tn.n_tensors == len(tn) == len(ts), 'tensors', len(tn))
        check(tn.inds == set(used) and tn.n_inds == len(count), 'inds', tn.inds)
        check(dict(tn.dims) == dims, 'dims', tn.dims, dims)
        check(tn.output_inds == out, 'output', tn.output_inds, out)
        check(tn.sparse_inds == set(case['sparse'] or ()), 'sparse',
              tn.sparse_inds)
        check(tn.tags == (case['tags'] or {}), 'tags', tn.tags)
        check(list(tn) == given and list(tn.tensors) == given and
              all(tn[i] == t and tn[i - len(ts)] == t
                  for i, t in enumerate(given)), 'tensors')
        check([list(x) for x in tn.ts_inds] == [t['inds'] for t in ts],
              'ts_inds', tn.ts_inds)
        check(list(tn.ts_tags) == [t['tags'] or {} for t in ts], 'ts_tags')
        check(len(tn.arrays) == len(ts) and all(
            (a is None) is not t['array'] and
            (a is None or np.array_equal(a, make_array(t['dims'], 'float64',
                                                       t['s'])))
            for a, t in zip(tn.arrays, ts)), 'arrays')
        for i in (len(ts), -len(ts) - 1):
            expect_raises(lambda: tn[i], IndexError, i)

    is_right(tn)
    check(tn == make_network(case)[1], 'equality')
    check(str(len(ts)) in repr(tn) and str(len(count)) in repr(tn), 'repr')
    for u in (pickle.loads(pickle.dumps(tn)), copy.copy(tn),
              copy.deepcopy(tn)):
        is_right(u)
        check(u == tn, 'copy')

    def frozen():
        tn.dims['a'] = 5

    expect_raises(frozen, TypeError, 'dims')
    for k in ('tensors', 'output_inds', 'sparse_inds', 'tags', 'inds', 'dims'):
        expect_raises(lambda: setattr(tn, k, getattr(tn, k)), AttributeError, k)

    text = json.loads(tn.to_json())
    check(len(text['tensors']) == len(ts), 'json')
    for x, t in zip(text['tensors'], given):
        is_json(x, t)
    for k, want in (('output_inds', out), ('sparse_inds', case['sparse'] or ())):
        got = [tuple(x) if isinstance(x, list) else x for x in text[k]]
        check(len(got) == len(set(got)) and set(got) == set(want), k, got)

    # A network which differs in one thing is not equal
    other, k = copy.deepcopy(case), case['at']
    change = case['change']
    # Drops 'out' being given by default
    other['out'] = sorted(out, key=repr)
    if change in ('out', 'sparse') and count:
        x = sorted(count, key=repr)[k % len(count)]
        xs = set(other[change] or ())
        other[change] = sorted(xs ^ {x}, key=repr)
    elif change == 'tags':
        other['tags'] = {**(case['tags'] or {}), 'another': k}
    elif change == 'drop' and ts:
        other['ts'].pop(k % len(ts))
        left = {x for t in other['ts'] for x in t['inds']}
        if not {*other['out'], *(other['sparse'] or ())} <= left:
            change = None
            other['ts'] = case['ts']
    elif change == 'array' and ts:
        t = other['ts'][k % len(ts)]
        t['array'] = not t['array']
    elif change == 'swap' and len(ts) > 1:
        other['ts'].append(other['ts'].pop(0))
        if make_network(case)[0] == make_network(other)[0]:
            change = None
    else:
        change = None
    check((make_network(other)[1] == tn) is (change is None), 'equality',
          change)
    return dict(nontrivial=len(ts) > 1,
                tags=['accepted', f'change:{change}'] + ['hyper'] * bool(hyper))


SUBS = [
    Sub('tensor', tensors(), run_tensor, 3000, 200000,
        'refused, or with at least one index', 2),
    Sub('equality', pairs(), run_equal, 2000, 100000, 'at least one index', 2),
    Sub('network', networks(), run_network, 2500, 150000,
        'refused, or two tensors or more', 3),
]
