"""C24: every textual or structured input form denotes the same network."""
import bz2
import gzip
import io
import json
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
from harness import Sub, check, expect_raises, skip, st
from tnco.app import Tensor, TensorNetwork, load_tn
from tnco.app.app import load_file
from tnco.utils.tn import read_inds

POOL = ('a', 'b', 'c', 'd1', 'T_0', '0', '7', '2', 'x.y', 'é', '[a]', '"q"',
        'stdin', 'OPENQASM', '/', '*', '//', 'a,b', 'null', '-1', 'λ', '@', '$')
TOKENS = [('*', '/'), ('*', '/'), ('*', '/'), ('/', '*'), ('@', '$'),
          ('out', 'sparse'), ('*', '@'), ('0', '1')]
FORMS = ('tuples', 'lists', 'text', 'json', 'dumps', 'stdin-text', 'stdin-json',
         'file-text', 'file-json', 'file-string', 'objects', 'tuple-of-tuples')
PACK = ('plain', 'gzip', 'bz2', 'gzip+bz2', 'bz2+gzip')


@st.composite
def networks(draw, max_n=8, dup=True):
    """An abstract network: entries (dimension, names), outputs, sparse."""
    out, sparse = draw(st.sampled_from(TOKENS))
    names = [x for x in draw(st.lists(st.sampled_from(POOL), min_size=1,
                                      max_size=6, unique=True))
             if x not in (out, sparse)] or ['t']
    n = draw(st.integers(0, max_n))
    es = []
    for _ in range(n):
        k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
        ts = draw(st.lists(st.sampled_from(names), min_size=1, max_size=k,
                           unique=not (dup and draw(st.integers(0, 9)) == 0)))
        d = draw(st.sampled_from([1, 2, 2, 2, 3, 4, 7, 10, 2**20, 2**40]))
        es.append((d, tuple(ts), draw(st.integers(0, 3)) == 0,
                   draw(st.integers(0, 5)) == 0, draw(st.integers(0, 99))))
    return dict(es=es, out=out, sparse=sparse)


def entries(c):
    """What the user writes: tokens anywhere among the names."""
    r = []
    for d, ts, o, s, k in c['es']:
        row = list(ts)
        if o:
            row.insert(k % (len(row) + 1), c['out'])
        if s:
            row.insert(k // 10 % (len(row) + 1), c['sparse'])
        r.append((d, *row))
    return r


SEPS = (' ', '  ', '\t', ' \t ')
COMMENTS = ('#', '# a comment', '#2 a b', '# OPENQASM 2.0;', '## 1 "x" [',
            '#\t*')
BLANKS = ('', '   ', '\t')
ENDS = ('\n', '\n', '\r\n')


@st.composite
def styles(draw):
    return dict(seps=draw(st.lists(st.sampled_from(SEPS), min_size=1,
                                   max_size=4)),
                extra=draw(st.lists(st.tuples(
                    st.integers(0, 9), st.sampled_from(COMMENTS + BLANKS)),
                    max_size=5)),
                end=draw(st.sampled_from(ENDS)),
                trail=draw(st.sampled_from(['', ' ', '\t', '   '])),
                level=draw(st.sampled_from([9, 6, 1, 1, 2, 3, 4, 5, 7, 8])),
                parts=draw(st.sampled_from([1, 1, 2])),
                zero=draw(st.booleans()),
                indent=draw(st.sampled_from([None, None, 1, 4])),
                ascii=draw(st.booleans()),
                last=draw(st.booleans()))


def text(c, s):
    lines = []
    for i, e in enumerate(entries(c)):
        sep = s['seps'][i % len(s['seps'])]
        d = ('0' if s['zero'] else '') + str(e[0])
        lines.append(sep.join([d, *e[1:]]) + s['trail'])
    for k, x in s['extra']:
        lines.insert(k % (len(lines) + 1), x)
    if not any(x.strip() for x in lines):
        lines.append('# empty')
    return s['end'].join(lines) + (s['end'] if s['last'] else '')


def to_json(c, s):
    return json.dumps([list(e) for e in entries(c)], indent=s['indent'],
                      ensure_ascii=s['ascii'])


def objects(c):
    """The TensorNetwork itself, built from the abstract network."""
    ts = {}
    for i, (d, names, *_) in enumerate(c['es']):
        for t in names:
            ts.setdefault(t, []).append(i)
    dims = [e[0] for e in c['es']]
    return TensorNetwork(
        [Tensor(xs, [dims[x] for x in xs], tags=dict(name=t))
         for t, xs in ts.items()],
        output_inds=[i for i, e in enumerate(c['es']) if e[2]],
        sparse_inds=[i for i, e in enumerate(c['es']) if e[3]])


def pack(b, how, level=9, parts=1):
    for x in how.split('+'):
        if x == 'plain':
            continue
        f = gzip.compress if x == 'gzip' else bz2.compress
        # A file may also consist of several compressed parts
        n = len(b) // parts + 1
        b = b''.join(f(b[i:i + n], level) for i in range(0, len(b), n)) \
            if b else f(b, level)
    return b


def load(c, s, form, packing, opts):
    if form == 'tuples':
        return load_tn(entries(c), **opts)
    if form == 'lists':
        return load_tn(list(map(list, entries(c))), **opts)
    if form == 'tuple-of-tuples':
        return load_tn(tuple(entries(c)), **opts)
    if form == 'objects':
        return load_tn(objects(c), **opts)
    if form == 'text':
        return load_tn(text(c, s), **opts)
    if form == 'json':
        return load_tn(to_json(c, s), **opts)
    if form == 'dumps':
        return load_tn(json.dumps(to_json(c, s)), **opts)
    if form.startswith('stdin'):
        old = sys.stdin
        sys.stdin = io.StringIO(text(c, s) if form == 'stdin-text' else
                                to_json(c, s))
        try:
            return load_tn('stdin', **opts)
        finally:
            sys.stdin = old
    x = text(c, s) if form == 'file-text' else to_json(c, s)
    if form == 'file-string':
        x = json.dumps(text(c, s))
    d = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        p = os.path.join(d, ('net', 'net.json', 'a b.gz', '2')[len(x) % 4])
        b = pack(x.encode(), packing, s.get('level', 9), s.get('parts', 1))
        with open(p, 'wb') as f:
            f.write(b)
        y = load_file(p)
        check(y == (json.loads(x) if is_json(x) else x), 'load_file', y)
        r = load_tn(p, **opts)
        with open(p, 'rb') as f:
            check(f.read() == b, 'the file was changed')
        return r
    finally:
        shutil.rmtree(d)


def is_json(x):
    try:
        json.loads(x)
        return True
    except json.JSONDecodeError:
        return False


def describe(tn):
    return ([(t.inds, t.dims, t.array, t.tags) for t in tn], tn.output_inds,
            tn.sparse_inds, dict(tn.dims), tn.tags)


@st.composite
def form_cases(draw):
    fuse = draw(st.sampled_from([0, 0, 0, None, 1., 2, 4., 30.]))
    return dict(net=draw(networks(dup=fuse == 0 or fuse is None)),
                style=draw(styles()), fuse=fuse,
                forms=draw(st.lists(st.sampled_from(FORMS), min_size=1,
                                    max_size=4, unique=True)),
                pack=draw(st.sampled_from(PACK)),
                decompose=draw(st.booleans()),
                seed=draw(st.integers(0, 1000)))


def run_forms(case):
    c, s = case['net'], case['style']
    opts = dict(fuse=case['fuse'], decompose_hyper_inds=case['decompose'],
                output_index_token=c['out'], sparse_index_token=c['sparse'],
                seed=case['seed'])
    if (c['out'], c['sparse']) == ('*', '/'):
        del opts['output_index_token'], opts['sparse_index_token']
    ref = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for form in case['forms']:
            tn = load(c, s, form, case['pack'], opts)
            check(isinstance(tn, TensorNetwork), type(tn))
            # The abstract network itself
            outs = {i for i, e in enumerate(c['es']) if e[2]}
            sp = {i for i, e in enumerate(c['es']) if e[3]}
            used = set().union(*(t.inds for t in tn))
            check(tn.sparse_inds == sp, form, 'sparse', tn.sparse_inds, sp)
            check(tn.output_inds == outs, form, 'output', tn.output_inds, outs)
            for t in tn:
                check(t.dims == tuple(c['es'][x][0] for x in t.inds),
                      form, 'dims', t.inds, t.dims)
                check(t.array is None, form, 'array')
            if not case['fuse'] or sp:
                got = {t.tags['name']: sorted(t.inds) for t in tn}
                check(len(got) == len(tn), form, 'names', got)
                want = {}
                for i, e in enumerate(c['es']):
                    for t in e[1]:
                        want.setdefault(t, []).append(i)
                check(got == want, form, 'tensors', got, want)
                check(set(tn.dims) == set(range(len(c['es']))), form, 'inds')
            check(used <= set(range(len(c['es']))), form, used)
            # All the forms give the same answer, also once fused
            x = describe(tn)
            if ref is None:
                ref = form, x
            check(ref[1] == x, 'forms differ', ref, (form, x))
    return dict(nontrivial=len(c['es']) >= 2 and len(case['forms']) >= 2,
                tags=case['forms'] + (['fused'] if case['fuse'] else []))


# ---- read_inds ------------------------------------------------------------
@st.composite
def read_cases(draw):
    c = draw(networks())
    lab = st.one_of(st.integers(-3, 9), st.sampled_from('abcxyz*/'),
                    st.tuples(st.integers(0, 2), st.sampled_from('ab')))
    labels = draw(st.lists(lab, min_size=len(c['es']), max_size=len(c['es']),
                           unique_by=repr))
    return dict(net=c, labels=labels, np=draw(st.booleans()))


def run_read(case):
    c = case['net']
    conv = np.int64 if case['np'] else int
    m = {l: (conv(e[0]), *e[1:]) for l, e in zip(case['labels'], entries(c))}
    if len(m) != len(c['es']):
        return dict(nontrivial=False)
    opts = dict(output_index_token=c['out'], sparse_index_token=c['sparse'])
    before = dict(m)
    ts, dims, out, sp = read_inds(m, **opts)
    check(m == before, 'input changed')
    want = {}
    for l, e in zip(case['labels'], c['es']):
        for t in e[1]:
            want.setdefault(t, []).append(l)
    check({k: sorted(map(repr, v)) for k, v in ts.items()} ==
          {k: sorted(map(repr, v)) for k, v in want.items()}, ts, want)
    check(dims == {l: e[0] for l, e in zip(case['labels'], c['es'])} and
          all(type(d) is int for d in dims.values()), dims)
    check(out == {l for l, e in zip(case['labels'], c['es']) if e[2]}, out)
    check(sp == {l for l, e in zip(case['labels'], c['es']) if e[3]}, sp)
    expect_raises(lambda: read_inds(m, output_index_token=c['out'],
                                    sparse_index_token=c['out']), ValueError)
    return dict(nontrivial=len(m) >= 2)


# ---- malformed input ------------------------------------------------------
BAD = ('dim0', 'negative', 'float', 'word', 'none', 'no-tensor', 'lonely-out',
       'lonely-sparse', 'tokens', 'string-dim', 'iterator', 'object', 'dict',
       'not-a-file', 'broken-json', 'json-object', 'entry', 'nan')
SCALARS = (None, 3, 2.5, True, object, len)


@st.composite
def bad_cases(draw):
    return dict(net=draw(networks(dup=False)), style=draw(styles()),
                bad=draw(st.sampled_from(BAD)), pos=draw(st.integers(0, 9)),
                form=draw(st.sampled_from(['tuples', 'text', 'json', 'stdin',
                                           'file'])))


def run_bad(case):
    c, s, bad = case['net'], case['style'], case['bad']
    opts = dict(output_index_token=c['out'], sparse_index_token=c['sparse'],
                fuse=0)
    es = entries(c)
    row = {
        'dim0': (0, 'a'), 'negative': (-2, 'a', 'b'), 'float': (2.5, 'a', 'b'),
        'word': ('two', 'a', 'b'), 'none': (None, 'a', 'b'),
        'no-tensor': (2,), 'lonely-out': (2, c['out']),
        'lonely-sparse': (2, c['sparse']), 'string-dim': ('2x', 'a', 'b'),
        'entry': 7, 'nan': (float('nan'), 'a'),
    }.get(bad)
    if {'a', 'b'} & {c['out'], c['sparse']}:
        skip()
    types = (TypeError, ValueError)
    if row is not None:
        es.insert(case['pos'] % (len(es) + 1), row)
        form = case['form']
        if form == 'text' or form == 'stdin' or form == 'file':
            rows = [e if isinstance(e, tuple) else (e,) for e in es]
            x = s['end'].join(s['seps'][0].join(map(str, r)) for r in rows)
        elif form == 'json':
            x = json.dumps([list(e) if isinstance(e, tuple) else e
                            for e in es])
        else:
            x = es
    elif bad == 'tokens':
        x = es + [(2, 'a', 'b')]
        opts['sparse_index_token'] = c['out']
        form = 'tuples'
    else:
        form = 'tuples'
        x = {
            'iterator': iter(es), 'object': SCALARS[case['pos'] % len(SCALARS)],
            'dict': {'tensors': es}, 'not-a-file': '/no/such/file/%d' %
            case['pos'], 'broken-json': to_json(c, s) + ']',
            'json-object': json.dumps(dict(net=es)),
        }[bad]
        if bad == 'iterator':
            types += (NotImplementedError,)
    if form == 'stdin':
        old = sys.stdin
        sys.stdin = io.StringIO(x)
        try:
            expect_raises(lambda: load_tn('stdin', **opts), types, x)
        finally:
            sys.stdin = old
    elif form == 'file':
        d = tempfile.mkdtemp(prefix='verif-c24-')
        try:
            p = os.path.join(d, 'net')
            with open(p, 'wb') as f:
                f.write(x.encode())
            expect_raises(lambda: load_tn(p, **opts), types, x)
        finally:
            shutil.rmtree(d)
    else:
        expect_raises(lambda: load_tn(x, **opts), types, repr(x))
    return dict(tags=[bad, form])


SUBS = [
    Sub('forms', form_cases(), run_forms, 2500, 60000, 'two entries or more '
        'in two forms or more', 3),
    Sub('read_inds', read_cases(), run_read, 1500, 30000,
        'two entries or more', 1),
    Sub('malformed', bad_cases(), run_bad, 1200, 20000, '', 1),
]
