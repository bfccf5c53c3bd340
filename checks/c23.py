"""C23: dumped results load back, files are never silently overwritten."""
import bz2
import gzip
import json
import os
import pickle
import shutil
import tempfile
from decimal import Decimal
from pathlib import Path

from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from tnco.app import Optimizer, dump_results
from tnco.app.app import load_file

NAMES = ('res.json', 'res', 'res.gzip', 'res.bz2', 'a.b.bz2', 'x.gzip.bz2',
         'res.gz', 'bz2', 'x.bz2.json', 'with space.gzip')


@st.composite
def cases(draw):
    c = draw(array_nets(max_t=4, max_total_log2=8))
    return dict(
        c, format=draw(st.sampled_from([None, 'raw', 'json', 'JSON', 'Raw',
                                        'json'])),
        name=draw(st.sampled_from((None,) + NAMES)),
        compression=draw(st.sampled_from([
            None, 'auto', 'none', 'bz2', 'gzip', 'GZIP', 'auto'])),
        overwrite=draw(st.booleans()),
        exists=draw(st.booleans()), path=draw(st.booleans()),
        by=draw(st.sampled_from(['function', 'function', 'optimizer'])),
        width=draw(st.sampled_from([None, None, 2., 3., 100.])),
        n_runs=draw(st.integers(0, 3)),
        seed=draw(st.integers(0, 99)))


def network(c):
    tags = [dict(name=k, note='t%d' % k) for k in range(len(c['ts']))]
    from tnco.app import Tensor, TensorNetwork
    ts = [Tensor(xs, dims=[c['dims'][x] for x in xs], array=a, tags=t)
          for xs, a, t in zip(c['ts'], make_arrays(c), tags)]
    return TensorNetwork(ts, output_inds=c['out'], sparse_inds=c['sparse'],
                         tags=dict(mine=1))


def optimize(c, tn, **kw):
    return quiet(Optimizer(n_jobs=1, seed=c['seed'], max_width=c['width'],
                           **kw).optimize, tn, betas=(0, 10), n_steps=4,
                 n_runs=c['n_runs'], fuse=0, decompose_hyper_inds=False,
                 **({} if c['n_projs'] is None else dict(
                     n_projs=c['n_projs'])))


def js(x):
    """What JSON makes of indices, paths, ..."""
    if isinstance(x, (tuple, list)):
        return [js(y) for y in x]
    return x


def number(x):
    if isinstance(x, str):
        re, im = x.split(' + ')
        return complex(float(re), float(im[:-1]))
    return x


def numbers(x):
    return [numbers(y) for y in x] if isinstance(x, list) else number(x)


def same_set(a, b, what):
    check(sorted(map(repr, a)) == sorted(map(repr, map(js, b))), what, a, b)


def check_json(d, tn, res, timed=True):
    check(set(d) == {'tn', 'res'}, 'keys', list(d))
    t = d['tn']
    check(len(t['tensors']) == len(tn), 'tensors')
    for x, y in zip(t['tensors'], tn):
        check(x['inds'] == js(y.inds) and x['dims'] == list(y.dims) and
              x['tags'] == y.tags, 'tensor', x, y)
        check((x['array'] is None) == (y.array is None), 'array')
        if y.array is not None:
            check(np.array_equal(np.array(numbers(x['array'])), y.array) and
                  np.array(numbers(x['array'])).shape == y.array.shape,
                  'array', x['array'], y.array)
    same_set(t['output_inds'], tn.output_inds, 'output_inds')
    same_set(t['sparse_inds'], tn.sparse_inds, 'sparse_inds')
    check(len(d['res']) == len(res), 'results')
    for x, r in zip(d['res'], res):
        check(Decimal(x['cost']) == r.cost, 'cost', x['cost'], r.cost)
        check(not timed or x['runtime_s'] == r.runtime_s, 'runtime')
        check(x['path'] == js(r.path), 'path', x['path'], r.path)
        check(x['disconnected_paths'] == js(r.disconnected_paths), 'paths')
        if hasattr(r, 'slices'):
            same_set(x['slices'], r.slices, 'slices')
            check(len(x['disconnected_slices']) == len(r.disconnected_slices),
                  'slices')
            for a, b in zip(x['disconnected_slices'], r.disconnected_slices):
                same_set(a, b, 'slices')


def check_raw(x, tn, res, timed=True):
    tn2, res2 = x
    check(len(tn2) == len(tn), 'tensors')
    for a, b in zip(tn2, tn):
        check(a.inds == b.inds and a.dims == b.dims and a.tags == b.tags and
              (a.array is None) == (b.array is None) and
              (a.array is None or np.array_equal(a.array, b.array)), 'tensor')
    check(tn2.output_inds == tn.output_inds and
          tn2.sparse_inds == tn.sparse_inds and tn2.tags == tn.tags and
          dict(tn2.dims) == dict(tn.dims) and tn2.inds == tn.inds, 'network')
    check(len(res2) == len(res), 'results')
    for a, b in zip(res2, res):
        for k in ('cost', 'runtime_s', 'path', 'disconnected_paths',
                  'disconnected_costs', 'slices', 'disconnected_slices'):
            check(hasattr(a, k) == hasattr(b, k), k)
            if hasattr(b, k) and (timed or k != 'runtime_s'):
                check(getattr(a, k) == getattr(b, k), k)


OLD = b'something else\n'


def run(c):
    d = tempfile.mkdtemp()
    try:
        return inner(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inner(c, d):
    tn = network(c)
    _, res = optimize(c, tn)
    kw = {} if c['compression'] is None else dict(
        output_compression=c['compression'])
    comp = (c['compression'] or 'auto').lower()
    if c['format'] is not None:
        kw['output_format'] = c['format']
    fmt = (c['format'] or 'raw').lower()
    exists = False
    if c['name'] is not None:
        f = os.path.join(d, c['name'])
        kw['output_filename'] = Path(f) if c['path'] else f
        if c['exists']:
            exists = True
            Path(f).write_bytes(OLD)
    if c['overwrite']:
        kw['overwrite_output_file'] = True

    def go():
        if c['by'] == 'function':
            return dump_results(tn, res, **kw)
        return optimize(c, tn, **kw)

    timed = c['by'] == 'function'
    tags = [fmt, comp, 'file' if c['name'] else 'text']
    if c['name'] is None and comp not in ('auto', 'none'):
        expect_raises(go, ValueError, 'compression without a file')
        return dict(nontrivial=False)
    if exists and not c['overwrite']:
        expect_raises(go, FileExistsError, 'the file exists')
        check(Path(f).read_bytes() == OLD and os.listdir(d) == [c['name']],
              'the file was changed')
        return dict(nontrivial=True, tags=tags + ['refused'])
    out = go()
    if c['name'] is None:
        if fmt == 'json':
            check(isinstance(out, str), 'type')
            check_json(json.loads(out), tn, res, timed)
        else:
            check_raw(out, tn, res, timed)
    else:
        check(out is None, 'returns', out)
        check(os.listdir(d) == [c['name']], 'files', os.listdir(d))
        data = Path(f).read_bytes()
        if comp == 'auto':
            comp = c['name'].rpartition('.')[2] if '.' in c['name'] else ''
        if comp == 'gzip':
            check(data[:2] == b'\x1f\x8b', 'not a gzip file')
            data = gzip.decompress(data)
        elif comp == 'bz2':
            check(data[:3] == b'BZh', 'not a bzip2 file')
            data = bz2.decompress(data)
        back = load_file(f)
        if fmt == 'json':
            check_json(json.loads(data.decode()), tn, res, timed)
            check_json(back, tn, res, timed)
        else:
            check_raw(pickle.loads(data), tn, res, timed)
            check(isinstance(back, bytes) and back == data, 'load_file')
    return dict(nontrivial=len(res) > 0 and len(tn) > 1, tags=tags)


def run_refuse(c):
    d = tempfile.mkdtemp()
    try:
        tn = network(c)
        f = os.path.join(d, 'keep.json')
        Path(f).write_bytes(OLD)

        def refuse(why, types=ValueError, **kw):
            for go in (lambda: dump_results(tn, [], **kw),
                       lambda: Optimizer(n_jobs=1, max_width=c['width'], **kw)):
                expect_raises(go, types, why)
                check(Path(f).read_bytes() == OLD and
                      os.listdir(d) == ['keep.json'], 'files were changed')

        for x in ('xml', 'jsonl', '', 'pickle'):
            for o in ({}, dict(overwrite_output_file=True)):
                refuse('format', output_format=x, output_filename=f, **o)
                refuse('format', output_format=x)
        for x in ('zip', 'gz', 'bzip2', '', 'json'):
            refuse('compression', output_compression=x, output_filename=f,
                   overwrite_output_file=True)
        for x in ('gzip', 'bz2'):
            refuse('compression without a file', output_compression=x)
        for x in ('json', 'raw', None):
            for z in ('auto', 'none', 'gzip', 'bz2'):
                refuse('exists', types=FileExistsError, output_format=x,
                       output_compression=z, output_filename=f)
        expect_raises(lambda: dump_results(tn, [], nope=1), TypeError,
                      'unknown option')
        expect_raises(lambda: load_file(os.path.join(d, 'missing')),
                      FileNotFoundError, 'missing file')
        expect_raises(lambda: load_file('a\0b'), ValueError, 'name')
        return dict(nontrivial=len(tn) > 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def contents(draw):
    kind = draw(st.sampled_from(['json', 'text', 'binary', 'binary']))
    if kind == 'json':
        x = draw(st.recursive(
            st.none() | st.booleans() | st.integers() |
            st.floats(allow_nan=False, allow_infinity=False) | st.text(
                st.characters(exclude_categories=('Cs',)), max_size=5),
            lambda s: st.lists(s, max_size=4) | st.dictionaries(
                st.text('abc', max_size=3), s, max_size=3), max_leaves=8))
    elif kind == 'text':
        x = 'OPENQASM 2.0;\n' + draw(st.text(st.characters(
            exclude_categories=('Cs',)), max_size=40))
    else:
        x = draw(st.binary(max_size=40))
    return dict(kind=kind, x=x, pack=draw(st.lists(
        st.sampled_from(['gzip', 'bz2']), max_size=3)),
        name=draw(st.sampled_from(['f', 'f.gz', 'f.bz2', 'f.json'])))


def run_load(c):
    """load_file: whatever is in the file, however often compressed."""
    x = c['x']
    data = (json.dumps(x).encode() if c['kind'] == 'json' else
            x.encode() if c['kind'] == 'text' else x)
    if c['kind'] == 'binary':
        # not anything else
        data = b'\x80\x04\xff' + data
    want = data if c['kind'] == 'binary' else x
    for p in c['pack']:
        data = gzip.compress(data) if p == 'gzip' else bz2.compress(data)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, c['name'])
        Path(f).write_bytes(data)
        got = load_file(f)
        check(type(got) is type(want) and got == want, 'load_file', got, want)
        check(Path(f).read_bytes() == data, 'the file was changed')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(nontrivial=bool(c['pack']), tags=[c['kind']])


SUBS = [
    Sub('dump', cases(), run, 1600, 100000,
        'several tensors and at least one result, or refused', 3),
    Sub('refuse', cases(), run_refuse, 100, 2000, 'several tensors', .5),
    Sub('load_file', contents(), run_load, 1600, 60000, 'compressed', .6),
]
