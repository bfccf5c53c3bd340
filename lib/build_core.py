"""Provides a tnco_core extension module compiled from the C++ in /repo/include.

Three routes, all of which end with a module that is what /repo's *current*
C++ compiles to:

1. cache: build/core-<hash of the C++ sources>/ in this directory (git-ignored).
2. installed: the module already installed in /opt/venv, used only when the
   table lib/prebuilt.json says that exactly this source hash compiles (with
   the project's own flags) to exactly that binary (sha256).  The project's
   build is bit-reproducible, so this is a content-addressed cache hit.
3. compile: the single translation unit is compiled as several smaller ones in
   parallel (explicit instantiation of the per-type `core<...>` templates); if
   that split does not compile or load, the plain single unit is compiled.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
PY = '/opt/venv/bin/python'
SOEXT = '.cpython-312-x86_64-linux-gnu.so'
FLAGS = ['-O1', '-std=c++17', '-fPIC', '-fvisibility=hidden']


def strip_cpp(text):
    """Removes comments and normalizes blanks (string-literal aware)."""
    rx = re.compile(
        r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', re.S)
    text = rx.sub(lambda m: m[0] if m[0][0] in '"\'' else ' ', text)
    return re.sub(r'[ \t]+', ' ', text)


def sources():
    inc = REPO / 'include'
    return sorted(p for p in inc.rglob('*')
                  if p.is_file() and p.suffix in ('.hpp', '.cpp', '.h'))


def source_hash(raw=False):
    h = hashlib.sha256()
    for p in sources():
        t = p.read_text(errors='surrogateescape')
        if not raw:
            # trailing comment lines do not change the compiled code
            t = strip_cpp(t).rstrip()
        h.update(str(p.relative_to(REPO)).encode() + b'\0')
        h.update(t.encode(errors='surrogateescape') + b'\0')
    return h.hexdigest()


def includes():
    import pybind11
    return [
        '-I' + str(REPO / 'include'), '-isystem',
        sysconfig.get_paths()['include'], '-isystem',
        pybind11.get_include()
    ]


def run(cmd, timeout=800):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stderr[-4000:]


COST = ['float', 'double', 'long double', 'tnco::float1024']
WIDTH = ['float', 'double', 'long double']


def _split_units(tmp):
    one = ('optimize::prob', 'optimize::infinite_memory::cost_model',
           'optimize::infinite_memory')
    two = ('optimize::finite_width::cost_model',
           'optimize::finite_width::greedy')
    pre = ['#include <pybind11/pybind11.h>', '#include <pybind11/stl.h>',
           '#include <tnco/globals.hpp>']
    for ns in one:
        pre.append(f'namespace tnco::{ns} {{ template <typename C> auto '
                   'core(pybind11::module &) -> void;')
        pre += [f'extern template auto core<{c}>(pybind11::module &) -> void;'
                for c in COST]
        pre.append('}')
    for ns in two:
        pre.append(f'namespace tnco::{ns} {{ template <typename C, typename W>'
                   ' auto core(pybind11::module &) -> void;')
        pre += [f'extern template auto core<{c}, {w}>(pybind11::module &)'
                ' -> void;' for c in COST for w in WIDTH]
        pre.append('}')
    units = []

    def unit(name, body):
        f = tmp / (name + '.cpp')
        f.write_text('\n'.join(pre + body) + '\n')
        units.append(f)

    inst = 'template auto core<{}>(pybind11::module &) -> void;'
    hdr = ['#include <tnco/optimize/main.hpp>']
    for i, c in enumerate(COST):
        ns = two[1]
        unit(f'g{i}', hdr + [f'namespace tnco::{ns} {{'] +
             [inst.format(f'{c}, {w}') for w in WIDTH] + ['}'])
    unit('fc', hdr + [f'namespace tnco::{two[0]} {{'] +
         [inst.format(f'{c}, {w}') for c in COST for w in WIDTH] + ['}'])
    body = list(hdr)
    for ns in one:
        body += [f'namespace tnco::{ns} {{'] + [inst.format(c) for c in COST
                                               ] + ['}']
    unit('im', body)
    unit('main', [f'#include <{REPO}/include/tnco/main.cpp>'])
    return units


def _link(objs, out, extra=()):
    libs = [
        next(p for p in (f'/usr/lib/x86_64-linux-gnu/lib{n}.so', f'-l{n}')
             if p.startswith('-') or os.path.exists(p)) for n in ('mpfr', 'gmp')
    ]
    return run(['g++', '-fPIC', '-O1', '-shared', *extra, '-o', str(out),
                *map(str, objs), *libs])


def _loads(directory):
    code = ('import sys; sys.meta_path[:] = [f for f in sys.meta_path if '
            '"ScikitBuild" not in type(f).__name__]; '
            'sys.path.insert(0, sys.argv[1]); import tnco_core; '
            'assert tnco_core.__file__.startswith(sys.argv[1]); '
            'tnco_core.Bitset(); tnco_core.optimize')
    p = subprocess.run([PY, '-c', code, str(directory)],
                       capture_output=True,
                       text=True)
    return p.returncode == 0, p.stderr


def _compile_split(outdir, tmp):
    units = _split_units(tmp)
    objs = [u.with_suffix('.o') for u in units]
    procs = [
        subprocess.Popen(['g++', '-Dtnco_core_EXPORTS', *includes(), *FLAGS,
                          '-w', '-c', str(u), '-o', str(o)],
                         stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE) for u, o in zip(units, objs)
    ]
    err = []
    for p in procs:
        _, e = p.communicate()
        if p.returncode:
            err.append(e.decode(errors='replace')[-1500:])
    if err:
        return False, '\n'.join(err)
    rc, e = _link(objs, outdir / ('tnco_core' + SOEXT),
                  ['-Wl,-z,muldefs'])
    if rc:
        return False, e
    return _loads(outdir)


def _compile_single(outdir, tmp):
    obj = tmp / 'main.o'
    rc, e = run(['g++', '-Dtnco_core_EXPORTS', *includes(), *FLAGS, '-c',
                 str(REPO / 'include/tnco/main.cpp'), '-o', str(obj)])
    if rc:
        return False, e
    rc, e = _link([obj], outdir / ('tnco_core' + SOEXT))
    if rc:
        return False, e
    return _loads(outdir)


def installed_module():
    import site
    for d in site.getsitepackages():
        f = Path(d) / ('tnco_core' + SOEXT)
        if f.exists():
            return f
    return None


def get_core(log=lambda *_: None, allow_installed=True):
    """Returns (directory holding tnco_core, how it was obtained)."""
    raw = source_hash(raw=True)
    norm = source_hash()
    table = {}
    tf = HERE / 'prebuilt.json'
    if tf.exists():
        table = json.loads(tf.read_text())
    root = VERIF / 'build'
    root.mkdir(exist_ok=True)
    dest = root / f'core-{norm[:24]}'
    with open(root / '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if (dest / 'ok').exists():
            return dest, 'cache'
        tmp = Path(tempfile.mkdtemp(dir=root, prefix='tmp-'))
        try:
            out = tmp / 'out'
            out.mkdir()
            how = None
            inst = installed_module()
            if allow_installed and inst is not None and norm in table:
                sha = hashlib.sha256(inst.read_bytes()).hexdigest()
                if sha == table[norm]:
                    shutil.copy(inst, out / inst.name)
                    how = 'installed (content-verified)'
            if how is None:
                log('compiling tnco_core from', str(REPO))
                ok, e = _compile_split(out, tmp)
                how = 'compiled (split)'
                if not ok:
                    log('split compilation not possible:', e[-600:])
                    for f in out.iterdir():
                        f.unlink()
                    ok, e = _compile_single(out, tmp)
                    how = 'compiled (single unit)'
                if not ok:
                    raise RuntimeError('cannot compile tnco_core:\n' + e)
            (out / 'ok').write_text(f'{how}\n{raw}\n')
            # Only keep the current build
            for d in root.glob('core-*'):
                shutil.rmtree(d, ignore_errors=True)
            out.rename(dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dest, how


if __name__ == '__main__':
    if sys.argv[1:] == ['--table']:
        # compile the single unit with the project's own flags and record
        # the hash of the result
        with tempfile.TemporaryDirectory() as t:
            t = Path(t)
            ok, e = _compile_single(t, t)
            assert ok, e
            sha = hashlib.sha256(
                (t / ('tnco_core' + SOEXT)).read_bytes()).hexdigest()
        f = HERE / 'prebuilt.json'
        table = json.loads(f.read_text()) if f.exists() else {}
        table[source_hash()] = sha
        f.write_text(json.dumps(table, indent=1) + '\n')
        inst = installed_module()
        print(sha, inst and hashlib.sha256(
            inst.read_bytes()).hexdigest() == sha)
    else:
        import time
        t0 = time.time()
        print(*get_core(print, allow_installed='--compile' not in sys.argv),
              round(time.time() - t0, 1))
