"""The compiled package for concrete executions (counter-example replay, cross-checks, bounded stand-ins).

/repo's own in-place extensions are reused only when the recorded digests of the sources they were built from
(build/.source-sums, written by the project's build) equal the current sources; otherwise all extensions are compiled
from the current sources into a cache directory of /verif (never into /repo).  Python files are always linked from the
current tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SUF = sysconfig.get_config_var('EXT_SUFFIX')


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.pyx', '.pxd', '.pxi')):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def sha(p):
    return hashlib.sha256(open(os.path.join(REPO, p), 'rb').read()).hexdigest()


def inplace_ok(srcs):
    try:
        sums = {}
        for l in open(os.path.join(REPO, 'build', '.source-sums')):
            h, p = l.split(None, 1)
            sums[p.strip()] = h
    except OSError:
        return False
    for s in srcs + ['setup.py']:
        if sums.get(s) != sha(s):
            return False
    for s in srcs:
        if s.endswith('.pyx'):
            so = os.path.join(REPO, s[:-4] + SUF)
            if not os.path.exists(so):
                return False
            # never trust an extension that is older than its generated C++ source
    return True


def compile_ext(srcs, dst):
    import numpy
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    tmp = dst + '.src.%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    for s in srcs:
        d = os.path.join(tmp, os.path.dirname(s))
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(REPO, s), d)
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        if '__init__.py' in fs:
            t = os.path.join(tmp, os.path.relpath(d, REPO))
            os.makedirs(t, exist_ok=True)
            open(os.path.join(t, '__init__.py'), 'a').close()
    out = dst + '.out.%d' % os.getpid()
    shutil.rmtree(out, ignore_errors=True)
    env = dict(os.environ, CPATH=numpy.get_include(), PYTHONPATH=os.path.join(tmp, 'src'))

    def one(s):
        cpp = os.path.join(tmp, s[:-4] + '.cpp')
        r = subprocess.run([PY, '-m', 'cython', '-3', '--cplus', os.path.join(tmp, s), '-o', cpp],
                           cwd=os.path.join(tmp, 'src'), env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('cython %s\n%s' % (s, r.stderr[-3000:] + r.stdout[-2000:]))
        so = os.path.join(out, s[:-4] + SUF)
        os.makedirs(os.path.dirname(so), exist_ok=True)
        r = subprocess.run(['g++', '-O1', '-fPIC', '-shared', '-w', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']
                           + inc + [cpp, '-o', so], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('g++ %s\n%s' % (s, r.stderr[-3000:]))
    try:
        pyx = [s for s in srcs if s.endswith('.pyx')]
        pyx.sort(key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, pyx))
        if not os.path.exists(dst):
            try:
                os.rename(out, dst)
            except OSError:
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def runtime(workdir):
    """lay out an importable copy of the current package (python files + extensions) in workdir; returns its src path"""
    srcs = sources()
    if inplace_ok(srcs):
        ext_root, how = REPO, 'in-place extensions (digests match)'
    else:
        h = hashlib.sha256()
        for s in srcs:
            h.update(s.encode() + b'\0' + sha(s).encode())
        cache = os.path.join(HERE, '.build', h.hexdigest()[:20])
        if not os.path.exists(cache):
            os.makedirs(os.path.dirname(cache), exist_ok=True)
            compile_ext(srcs, cache)
        ext_root, how = cache, 'extensions compiled from the current sources'
    dst = os.path.join(workdir, 'src')
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds[:] = [x for x in ds if x != '__pycache__']
        t = os.path.join(dst, os.path.relpath(d, os.path.join(REPO, 'src')))
        os.makedirs(t, exist_ok=True)
        for f in fs:
            if f.endswith(('.so', '.cpp', '.c', '.pyc')):
                continue
            shutil.copy(os.path.join(d, f), os.path.join(t, f))
    for s in srcs:
        if s.endswith('.pyx'):
            so = s[:-4] + SUF
            os.symlink(os.path.join(ext_root, so), os.path.join(workdir, so))
    return dst, how


def source_digest():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith(('.py', '.pyx', '.pxd')):
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()
