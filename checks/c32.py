"""C32: The command line does exactly what the library does."""
import bz2
import contextlib
import gzip
import io
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import traceback
import warnings

from harness import Sub, check, st
from tnco.app import Optimizer
from tnco.app.cli import main

NAMES = ('a', 'b', 'c', 'T1', 'x_y', 'node.3', 'Q', 'tensor')
PROGRAM = 'import sys; from tnco.app.cli import main; sys.exit(main())'


# ---- the two ways of running ------------------------------------------------------
def command(argv, stdin=''):
    """Exit status, output and messages of the command, in this process."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin
    sys.argv, sys.stdin = ['tnco', *argv], io.StringIO(stdin)
    code = 0
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(
                out), contextlib.redirect_stderr(err):
            warnings.simplefilter('ignore')
            try:
                r = main()
                code = 0 if r is None else r if isinstance(r, int) else 1
            except SystemExit as e:
                code = 0 if e.code is None else e.code
            except Exception:
                code = 1
                traceback.print_exc()
    finally:
        sys.argv, sys.stdin = old
    return code, out.getvalue(), err.getvalue()


def process(argv, stdin=''):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROGRAM, *argv],
                       input=stdin, capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PAGER='cat'))
    return p.returncode, p.stdout, p.stderr


def library(tn, ctor, opts, stdin=''):
    old = sys.stdin
    sys.stdin = io.StringIO(stdin)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stderr(
                io.StringIO()):
            warnings.simplefilter('ignore')
            return Optimizer(**ctor).optimize(tn, **opts)
    finally:
        sys.stdin = old


# ---- the same results ----------------------------------------------------------------
def canonical(text):
    """The parsed JSON without times and without the order of sets."""
    x = json.loads(text)
    check(set(x) == {'tn', 'res'}, 'fields', sorted(x))
    for r in x['res']:
        check(float(r.pop('runtime_s')) >= 0, 'time')
    for k in ('output_inds', 'sparse_inds'):
        x['tn'][k] = sorted(x['tn'][k], key=repr)
    for r in x['res']:
        for k in [k for k in r if 'slices' in k]:
            r[k] = [sorted(y, key=repr) if isinstance(y, list) else y
                    for y in r[k]] if k != 'slices' else sorted(r[k], key=repr)
    return x


def raw_picture(x):
    tn, res = x
    return (tn.to_json() and [t.to_json() for t in tn.tensors],
            sorted(map(repr, tn.output_inds)), sorted(map(repr, tn.sparse_inds)),
            sorted(tn.tags, key=repr),
            [(str(r.cost), [list(map(int, p)) for p in r.path],
              [list(p) for p in r.disconnected_paths],
              sorted(map(repr, getattr(r, 'slices', ())))) for r in res])


# ---- inputs and options ------------------------------------------------------------------
GATES = ('h', 't', 's', 'x', 'cx', 'cz')
FORMS = ('tuples', 'lists', 'json', 'text', 'qasm', 'cirq-json')
WAYS = ('inline', 'inline', 'inline', 'stdin', 'file', 'file.gzip', 'file.bz2')


@st.composite
def inputs(draw):
    form = draw(st.sampled_from(FORMS))
    sparse = False
    if form in ('qasm', 'cirq-json'):
        n = draw(st.integers(1, 3))
        gates = []
        for _ in range(draw(st.integers(1, 6))):
            g = draw(st.sampled_from(GATES[:4] if n == 1 else GATES))
            q = draw(st.permutations(range(n)))
            gates.append((g, *q[:2 if g in ('cx', 'cz') else 1]))
        data = (n, tuple(gates))
    else:
        names = draw(st.permutations(NAMES))[:draw(st.integers(2, 6))]
        rows = []
        sparse = draw(st.integers(0, 4)) == 0
        for i in range(draw(st.integers(1, 9))):
            ts = draw(st.lists(st.sampled_from(names), min_size=1,
                               max_size=draw(st.sampled_from([2, 2, 3])),
                               unique=True))
            if len(ts) != 2 and draw(st.booleans()) or len(ts) < 2:
                ts.append('*')
            if sparse and (i == 0 or draw(st.integers(0, 3)) == 0):
                ts.append('/')
            rows.append((draw(st.sampled_from([2, 2, 3, 4])), *ts))
        data = tuple(rows)
    return dict(form=form, data=data, sparse=sparse,
                way=draw(st.sampled_from(WAYS)))


def written(c):
    """(the text, the object when it is an argument of the command)"""
    form, data = c['form'], c['data']
    if form == 'tuples':
        return repr([tuple(r) for r in data]), [tuple(r) for r in data]
    if form == 'lists':
        return repr([list(r) for r in data]), [list(r) for r in data]
    if form == 'json':
        t = json.dumps(data)
        return t, json.loads(t)
    if form == 'text':
        t = '# a network\n' + ''.join(' '.join(map(str, r)) + '\n'
                                      for r in data)
        return t, t
    n, gates = data
    if form == 'qasm':
        t = ['OPENQASM 2.0;', 'include "qelib1.inc";', f'qreg q[{n}];']
        for g, *q in gates:
            t.append(g + ' ' + ','.join(f'q[{x}]' for x in q) + ';')
        return '\n'.join(t), '\n'.join(t)
    import cirq
    ops = dict(h=cirq.H, t=cirq.T, s=cirq.S, x=cirq.X, cx=cirq.CNOT, cz=cirq.CZ)
    q = cirq.LineQubit.range(n)
    t = cirq.to_json(cirq.Circuit(ops[g](*(q[x] for x in xs))
                                  for g, *xs in gates))
    return t, json.loads(t)


@st.composite
def options(draw, inp):
    """(constructor options, options of optimize)"""
    circuit = inp['form'] in ('qasm', 'cirq-json')
    ctor = dict(seed=draw(st.integers(0, 2**32)), n_jobs=1)
    for k, xs in dict(
            max_width=[None, None, 4, 4.5, 6., 8, 100],
            width_type=['float32', 'float64', 'float1024'],
            cost_type=['float64', 'float32', 'float1024'],
            atol=[1e-5, 1e-8, .01], method=['sa'], backend=['numpy', None],
            dtype=['complex64', 'complex128', None], verbose=[False, 0]).items():
        if draw(st.integers(0, 2)) == 0:
            ctor[k] = draw(st.sampled_from(xs))
    opts = dict(n_steps=draw(st.integers(1, 20)),
                betas=draw(st.sampled_from([(0, 100), (0.5, 10), (3, 1e3),
                                            (10, 0)])))
    if draw(st.integers(0, 3)) == 0:
        opts = dict(betas=draw(st.sampled_from([[0, 1, 2], [5], [], [.5, 1.5],
                                                (1, 2, 3)])))
    for k, xs in dict(n_runs=[1, 2, 3], fuse=[0, 1, 2, 4, 6.5, None],
                      decompose_hyper_inds=[True, False],
                      timeout=[3600, 100.5]).items():
        if draw(st.booleans()):
            opts[k] = draw(st.sampled_from(xs))
    if inp['sparse'] and draw(st.booleans()):
        opts['n_projs'] = draw(st.integers(1, 8))
    if circuit:
        for k, xs in dict(initial_state=['0', '+', '-', '1', None],
                          final_state=['0', '+', '-', '1', None],
                          simplify_circuit=[True, False]).items():
            if draw(st.booleans()):
                opts[k] = draw(st.sampled_from(xs))
    if ctor.get('max_width') is not None and draw(st.booleans()):
        opts['update_slices'] = draw(st.integers(1, 12))
    return ctor, opts


@st.composite
def cases(draw, files=False, jobs=False):
    c = draw(inputs())
    ctor, opts = draw(options(c))
    if jobs:
        ctor['n_jobs'] = draw(st.sampled_from([1, 2, -1]))
    c.update(ctor=ctor, opts=opts,
             before=draw(st.integers(0, 3)), hyphen=draw(st.booleans()),
             equal=draw(st.booleans()), positional=draw(st.booleans()),
             boolean=draw(st.booleans()), n=draw(st.integers(0, 99)))
    if files:
        c.update(
            format=draw(st.sampled_from([None, 'json', 'raw', 'JSON'])),
            name=draw(st.sampled_from([None, 'out', 'out.json', 'x.bz2',
                                       'x.gzip', 'a b.gzip'])),
            compression=draw(st.sampled_from([None, 'auto', 'none', 'gzip',
                                              'bz2'])),
            exists=draw(st.booleans()),
            overwrite=draw(st.sampled_from([None, True, True, False])))
        if c['name'] is None:
            c['format'] = draw(st.sampled_from([None, 'json', 'Json']))
            c['compression'] = draw(st.sampled_from([None, 'auto', 'none']))
    return c


def literal(x):
    """How a value is written in a command."""
    if isinstance(x, str):
        return repr(x) if x in '01-' else x
    return repr(x)


def arguments(c, tn, ctor, opts):
    def flag(k, v, bare=True):
        k = k.replace('_', '-') if c['hyphen'] else k
        if isinstance(v, bool) and c['boolean'] and bare:
            return ['--' + ('' if v else 'no') + k]
        if c['equal']:
            return [f'--{k}={literal(v)}']
        return ['--' + k, literal(v)]

    opts = dict(opts)
    first, last = [], []
    # Options of the constructor may be written anywhere
    for i, (k, v) in enumerate(ctor.items()):
        early = c['before'] == 0 or c['before'] == 1 and i % 2
        (first if early else last).append(flag(k, v, not early))
    args = []
    if c['positional']:
        args = [tn, literal(opts.pop('betas'))]
        if 'n_steps' in opts and c['n'] % 2:
            args.append(literal(opts.pop('n_steps')))
    else:
        last.append(['--tn', tn] if not c['equal'] else [f'--tn={tn}'])
    last += [flag(k, v) for k, v in opts.items()]
    k = c['n'] % (len(last) + 1)
    last = last[k:] + last[:k]
    return sum(first, []) + ['optimize'] + args + sum(last, [])


@contextlib.contextmanager
def given(c):
    """(directory, argument of the command, object of the library, stdin)"""
    text, obj = written(c)
    d = tempfile.mkdtemp(prefix='verif-c32-')
    try:
        way = c['way']
        if way == 'inline':
            yield d, text, obj, ''
        elif way == 'stdin':
            # What is read is not Python
            text = text if c['form'] not in ('tuples', 'lists') else \
                json.dumps(obj)
            yield d, 'stdin', 'stdin', text
        else:
            text = text if c['form'] not in ('tuples', 'lists') else \
                json.dumps(obj)
            path = os.path.join(d, 'in' + way[4:])
            b = text.encode()
            b = gzip.compress(b) if 'gzip' in way else \
                bz2.compress(b) if 'bz2' in way else b
            with open(path, 'wb') as f:
                f.write(b)
            yield d, path, path, ''
    finally:
        shutil.rmtree(d)


def run(c, how=command):
    ctor, opts = dict(c['ctor']), dict(c['opts'])
    with given(c) as (d, arg, obj, stdin):
        try:
            want = library(obj, dict(ctor, output_format='json'), opts, stdin)
        except Exception as e:
            want = e
        code, out, err = how(arguments(c, arg, ctor, opts), stdin)
        if isinstance(want, Exception):
            check(code != 0, 'status', code, 'the library:', repr(want))
            check(type(want).__name__ in err or str(want) in err,
                  'no message', err[-500:], repr(want))
            return dict(tags=['error', type(want).__name__], nontrivial=False)
        check(code == 0, 'status', code, err[-1500:])
        check(canonical(out) == canonical(want), 'output', out, want)
        res = canonical(out)['res']
        check(len(res) == opts.get('n_runs', 1), 'runs')
        check(os.listdir(d) == [os.path.basename(arg)] * (arg != obj or
              c['way'].startswith('file')) or c['way'] in ('inline', 'stdin'),
              'files', os.listdir(d))
    return dict(nontrivial=any(r['path'] for r in res),
                tags=[c['form'], c['way'].split('.')[0]] +
                ['width'] * (ctor.get('max_width') is not None))


def run_process(c):
    return run(c, process)


# ---- files --------------------------------------------------------------------------------
def run_files(c):
    ctor, opts = dict(c['ctor']), dict(c['opts'])
    with given(c) as (d, arg, obj, stdin):
        extra, path = {}, None
        if c['name'] is not None:
            path = os.path.join(d, c['name'])
            extra['output_filename'] = path
        for k, x in (('output_format', c['format']),
                     ('output_compression', c['compression']),
                     ('overwrite_output_file', c['overwrite'])):
            if x is not None:
                extra[k] = x
        fmt = 'json' if c['format'] is None else c['format'].lower()
        old = None
        if path and c['exists']:
            old = b'something else %d' % c['n']
            with open(path, 'wb') as f:
                f.write(old)
        files = sorted(os.listdir(d))
        try:
            want = library(obj, dict(ctor, output_format=fmt), opts, stdin)
        except Exception as e:
            want = e
        code, out, err = command(arguments(c, arg, {**ctor, **extra}, opts),
                                 stdin)
        if old is not None and not c['overwrite']:
            check(code != 0 and 'FileExistsError' in err, 'status', code,
                  err[-500:])
            check(open(path, 'rb').read() == old, 'the file was changed')
            check(sorted(os.listdir(d)) == files, 'files')
            return dict(tags=['refused'])
        if isinstance(want, Exception):
            check(code != 0, 'status', code, repr(want))
            check(sorted(os.listdir(d)) == files, 'files')
            check(old is None or open(path, 'rb').read() == old, 'old file')
            return dict(tags=['error'], nontrivial=False)
        check(code == 0, 'status', code, err[-1500:])
        if path is None:
            check(canonical(out) == canonical(want), 'output', out, want)
            return dict(tags=['no file'])
        check(not out.strip(), 'output', out)
        check(sorted(os.listdir(d)) == sorted({*files, c['name']}), 'files',
              os.listdir(d))
        b = open(path, 'rb').read()
        comp = c['compression'] or 'auto'
        if comp == 'auto':
            comp = c['name'].rpartition('.')[2]
        b = gzip.decompress(b) if comp == 'gzip' else \
            bz2.decompress(b) if comp == 'bz2' else b
        if fmt == 'json':
            check(canonical(b.decode()) == canonical(want), 'file')
        else:
            check(raw_picture(pickle.loads(b)) == raw_picture(want), 'file')
    return dict(tags=['written', fmt, comp if comp in ('gzip', 'bz2') else
                      'plain'])


# ---- requests that make no sense -------------------------------------------------------------
BAD = {
    'no-betas': ['optimize', '{tn}'],
    'no-network': ['optimize', '--betas=(0, 1)', '--n-steps=3'],
    'no-steps': ['optimize', '{tn}', '--betas=(0, 1)'],
    'steps': ['optimize', '{tn}', '--betas=(0, 1)', '--n-steps=0'],
    'steps-fraction': ['optimize', '{tn}', '--betas=(0, 1)', '--n-steps=2.5'],
    'same-betas': ['optimize', '{tn}', '--betas=(1, 1)', '--n-steps=3'],
    'method': ['optimize', '{tn}', '--betas=[1]', '--method=none'],
    'format': ['optimize', '{tn}', '--betas=[1]', '--output-format=xml'],
    'compression': ['optimize', '{tn}', '--betas=[1]',
                    '--output-compression=zip', '--output-filename={d}/out'],
    'compression-no-file': ['optimize', '{tn}', '--betas=[1]',
                            '--output-compression=gzip'],
    'exists': ['optimize', '{tn}', '--betas=[1]',
               '--output-filename={d}/there'],
    'exists-raw': ['optimize', '{tn}', '--betas=[1]', '--output-format=raw',
                   '--output-filename={d}/there.gzip'],
    'unknown-option': ['optimize', '{tn}', '--betas=[1]', '--no-such-option=1'],
    'unknown-command': ['optimise', '{tn}', '--betas=[1]'],
    'no-such-file': ['optimize', '{d}/missing.json', '--betas=[1]'],
    'not-a-network': ['optimize', 'some words', '--betas=[1]'],
    'projections': ['optimize', '{tn}', '--betas=[1]', '--n-projs=0'],
    'jobs': ['optimize', '{tn}', '--betas=[1]', '--n-jobs=0'],
    'cost-type': ['optimize', '{tn}', '--betas=[1]', '--cost-type=int'],
    'hyper': ['optimize', '[[2, "a", "b", "c"], [3, "a", "b", 1.5]]',
              '--betas=[1]', '--output-index-token=a', '--seed=None',
              '--max-width=x'],
}


@st.composite
def bad_cases(draw):
    rows = [(draw(st.integers(2, 4)), *draw(st.lists(
        st.sampled_from('abcd'), min_size=2, max_size=2, unique=True)))
        for _ in range(draw(st.integers(1, 5)))]
    return dict(bad=draw(st.sampled_from(sorted(BAD))), rows=rows,
                seed=draw(st.integers(0, 99)), early=draw(st.booleans()),
                width=draw(st.sampled_from([None, 3, 10])))


def run_bad(c, how=command):
    d = tempfile.mkdtemp(prefix='verif-c32-')
    try:
        for x in ('there', 'there.gzip'):
            with open(os.path.join(d, x), 'w') as f:
                f.write('precious')
        argv = [x.replace('{d}', d).replace('{tn}', repr(c['rows']))
                for x in BAD[c['bad']]]
        argv = [x for x in argv]
        more = [f'--seed={c["seed"]}'] * ('--seed=None' not in argv)
        if c['width'] and c['bad'] not in ('hyper',):
            more.append(f'--max-width={c["width"]}')
        if '--n-jobs=0' not in argv:
            more.append('--n-jobs=1')
        argv = more + argv if c['early'] else argv + more
        code, out, err = how(argv)
        check(code != 0, c['bad'], 'status', code, out)
        check(err.strip(), 'no message')
        check('"res"' not in out, 'results', out)
        check(sorted(os.listdir(d)) == ['there', 'there.gzip'], 'files')
        for x in ('there', 'there.gzip'):
            check(open(os.path.join(d, x)).read() == 'precious', x)
    finally:
        shutil.rmtree(d)
    return dict(tags=[c['bad']])


def run_bad_process(c):
    return run_bad(c, process)


SUBS = [
    Sub('library', cases(), run, 600, 30000, 'a path with contractions', 4),
    Sub('files', cases(files=True), run_files, 500, 20000,
        'the library accepts the options', 3),
    Sub('malformed', bad_cases(), run_bad, 300, 10000, '', 2),
    Sub('process', cases(jobs=True), run_process, 24, 800,
        'a path with contractions', 6),
    Sub('malformed-process', bad_cases(), run_bad_process, 16, 400, '', 3),
]
