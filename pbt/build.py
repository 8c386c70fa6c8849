"""Builds the native extensions of /repo's current working tree, outside /repo.

The Python files and the Cython/C++ sources of the tree are copied to
<cache>/trees/<hash>/ and every extension that setup.py declares is generated,
compiled and linked there.  Every step is cached by the content of its inputs
(generated C++ + headers + flags), so a change to one kernel recompiles only
that kernel, and a stale object is never used.  Nothing is written to /repo or
/opt/vp.  setup.py itself is executed with setuptools.setup and cythonize
replaced by recorders, so the list of extensions is the repository's own.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(os.path.dirname(HERE), '.cache'))
PY = '/opt/venv/bin/python'
SRC_EXT = ('.py', '.pyx', '.pxd', '.pxi', '.h', '.hpp', '.hh', '.c', '.cc', '.cpp', '.cxx')
CXXFLAGS = ['-O2', '-fno-strict-overflow', '-fwrapv', '-fPIC', '-DNDEBUG', '-w']


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:24]


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _generated(path):
    """A C/C++ file that Cython would regenerate from the .pyx next to it"""
    stem, ext = os.path.splitext(path)
    return ext in ('.cpp', '.c') and os.path.exists(stem + '.pyx')


def collect():
    """Relative path -> bytes of every source of the package"""
    files = {}
    for root, dirs, names in os.walk(os.path.join(REPO, 'panels')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for n in sorted(names):
            p = os.path.join(root, n)
            if n.endswith(SRC_EXT) and not _generated(p) and not os.path.islink(p):
                files[os.path.relpath(p, REPO)] = _read(p)
    for n in ('setup.py', 'README.md', 'LICENSE', 'pyproject.toml'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            files[n] = _read(p)
    files.setdefault('panels/version.py', b"git_revision = 'x'\nfullversion = '0'\n__version__ = '0'\nisreleased = False\n")
    return files


_CAPTURE = r'''
import json, sys, os
import setuptools, Cython.Build
rec = []
def cythonize(exts, *a, **k):
    for e in exts:
        rec.append(dict(name=e.name, sources=[os.path.normpath(s) for s in e.sources],
            include_dirs=[d for d in e.include_dirs if os.path.isdir(d)],
            cargs=list(e.extra_compile_args), largs=list(e.extra_link_args),
            macros=[list(m) for m in e.define_macros], libs=list(e.libraries)))
    rec.append(dict(directives=k.get('compiler_directives') or {}, language_level=k.get('language_level', 3)))
    return []
Cython.Build.cythonize = cythonize
setuptools.setup = lambda **k: None
sys.argv = ['setup.py', 'build_ext']
src = open('setup.py').read()
exec(compile(src, 'setup.py', 'exec'), {'__name__': '__main__', '__file__': os.path.abspath('setup.py')})
print('@@' + json.dumps(rec))
'''

_CYTH = r'''
import sys, json
from Cython.Compiler.Main import compile as cc, CompilationOptions, default_options
a = json.loads(sys.argv[1])
o = CompilationOptions(default_options, output_file=a['out'], cplus=1,
        language_level=a['language_level'], compiler_directives=a['directives'])
r = cc(a['src'], options=o)
sys.exit(1 if r.num_errors else 0)
'''


def _run(cmd, cwd, what):
    env = dict(os.environ)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-4000:]))
    return p.stdout


def _atomic(path, fill):
    """Creates path through a temporary name; fill(tmp) writes it"""
    if os.path.exists(path):
        os.utime(path)
        return path
    tmp = '%s.%d.tmp' % (path, os.getpid()) + os.path.splitext(path)[1]
    fill(tmp)
    os.rename(tmp, path)
    return path


def ensure(verbose=False):
    """Returns the directory to put first on sys.path"""
    files = collect()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(files, verbose)


def _ensure(files, verbose):
    cyver = subprocess.run([PY, '-c', 'import Cython;print(Cython.__version__)'], capture_output=True, text=True).stdout
    key = _sha(cyver, *[x for k in sorted(files) for x in (k, files[k])])
    trees = os.path.join(CACHE, 'trees')
    tree = os.path.join(trees, key)
    if os.path.exists(os.path.join(tree, '.done')):
        os.utime(tree)
        return tree
    shutil.rmtree(tree, ignore_errors=True)
    for rel, data in files.items():
        p = os.path.join(tree, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    out = _run([PY, '-c', _CAPTURE], tree, 'reading setup.py')
    # setup.py rewrites version.py: harmless inside the copy
    rec = json.loads(out[out.index('@@') + 2:].splitlines()[0])
    opts = rec.pop()
    objs = os.path.join(CACHE, 'objs')
    os.makedirs(objs, exist_ok=True)
    inc_hash = _sha(*[x for k in sorted(files) if k.endswith(('.h', '.hpp', '.hh', '.pxd', '.pxi')) for x in (k, files[k])])
    pyinc = sysconfig.get_paths()['include']
    for cand in (subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                                capture_output=True, text=True).stdout.strip(),):
        pyinc = cand or pyinc
    suffix = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                            capture_output=True, text=True).stdout.strip()

    def obj(src, ext):
        flags = CXXFLAGS + ext['cargs'] + ['-D%s=%s' % (m[0], m[1]) if m[1] is not None else '-D' + m[0] for m in ext['macros']]
        data = files[src]
        if src.endswith('.pyx'):
            ckey = _sha(cyver, inc_hash, src, data, json.dumps(opts, sort_keys=True))
            cpp = os.path.join(objs, ckey + '.cpp')

            def gen(tmp):
                # the generated file must not sit next to a package __init__ it could be confused with: run in the tree
                _run([PY, '-c', _CYTH, json.dumps(dict(src=src, out=tmp, directives=opts['directives'],
                      language_level=opts['language_level']))], tree, 'cython ' + src)
            _atomic(cpp, gen)
        else:
            cpp = os.path.join(tree, src)
        okey = _sha(inc_hash, _read(cpp), ' '.join(flags), src)
        o = os.path.join(objs, okey + '.o')
        _atomic(o, lambda tmp: _run(['g++'] + flags + ['-I' + pyinc] + ['-I' + d for d in ext['include_dirs']]
                                    + ['-c', cpp, '-o', tmp], tree, 'compiling ' + src))
        return o

    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # big files first
        todo = sorted({(s, json.dumps(e, sort_keys=True) if False else i) for i, e in enumerate(rec) for s in e['sources']},
                      key=lambda t: -len(files[t[0]]))
        futs = {}
        for s, i in todo:
            e = rec[i]
            k = (s, tuple(e['cargs']), tuple(e['include_dirs']), json.dumps(e['macros']))
            if k not in futs:
                futs[k] = ex.submit(obj, s, e)
            jobs[(s, i)] = futs[k]
        for f in futs.values():
            f.result()

        def link(i):
            e = rec[i]
            dst = os.path.join(tree, *e['name'].split('.')) + suffix
            _run(['g++', '-shared', '-o', dst] + [jobs[(s, i)].result() for s in e['sources']]
                 + e['largs'] + ['-l' + l for l in e['libs']], tree, 'linking ' + e['name'])
        list(ex.map(link, range(len(rec))))
    for dp, dn, fn in os.walk(tree):
        pass
    open(os.path.join(tree, '.done'), 'w').close()
    _prune(trees, objs, keep=tree)
    return tree


def _prune(trees, objs, keep):
    ts = sorted((os.path.join(trees, t) for t in os.listdir(trees)), key=os.path.getmtime)
    for t in ts[:-12]:
        if t != keep:
            shutil.rmtree(t, ignore_errors=True)
    os_ = sorted((os.path.join(objs, o) for o in os.listdir(objs)), key=os.path.getmtime)
    for o in os_[:-600]:
        os.unlink(o)


if __name__ == '__main__':
    import time
    t = time.time()
    d = ensure(True)
    print(d, '%.1fs' % (time.time() - t))
