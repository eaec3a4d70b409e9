"""Build the package from /repo's current working tree in a scratch directory (the concrete side of every check)."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('build failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))


def build(jobs=4, checked=False, opt='-O1', extra=()):
    """Returns the scratch root holding an importable `panels`. checked=True turns Cython's bounds checks on."""
    root = tempfile.mkdtemp(prefix='verif-build-')
    try:
        _build(root, jobs, checked, opt, list(extra))
        if any('sanitize' in x for x in extra):
            open(os.path.join(root, 'asan'), 'w').close()
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise
    return root


def _build(root, jobs, checked, opt, extra):
    src = os.path.join(REPO, 'panels')
    dst = os.path.join(root, 'panels')
    skip = {'__pycache__'}
    pyx = []
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in skip]
        rel = os.path.relpath(d, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        core = 'core' in rel.split(os.sep)
        for f in fs:
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h', '.hpp')) or core:
                shutil.copyfile(os.path.join(d, f), os.path.join(dst, rel, f))
                if f.endswith('.pyx'):
                    pyx.append(os.path.normpath(os.path.join('panels', rel, f)))
    if not os.path.isfile(os.path.join(dst, 'version.py')):
        with open(os.path.join(dst, 'version.py'), 'w') as fh:
            fh.write("__version__ = version = 'x'\n")
    if checked:
        for p in pyx:
            p = os.path.join(root, p)
            t = open(p).read()
            t = t.replace('boundscheck=False', 'boundscheck=True').replace('boundscheck(False)', 'boundscheck(True)')
            open(p, 'w').write(t)
    inc = ['-I', os.path.join(root, 'panels/core/include'), '-I', subprocess.run(
        [PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'], capture_output=True, text=True).stdout.strip()]
    cores = [f for f in sorted(os.listdir(os.path.join(dst, 'core/src'))) if f.endswith('.cpp')]
    flags = [opt, '-g0', '-fPIC', '-fopenmp', '-w'] + extra
    with ThreadPoolExecutor(jobs) as ex:
        objs = [os.path.join(root, c + '.o') for c in cores]
        fs = [ex.submit(_run, ['g++'] + flags + inc + ['-c', os.path.join(dst, 'core/src', c), '-o', o], root)
              for c, o in zip(cores, objs)]
        pyx.sort(key=lambda p: -os.path.getsize(os.path.join(root, p)))

        def one(p):
            cpp = p[:-4] + '.cy.cpp'
            _run([PY, '-m', 'cython', '--cplus', p, '-o', cpp], root)
            o = p[:-4] + '.o'
            _run(['g++'] + flags + inc + ['-c', cpp, '-o', o], root)
            return p, o
        gs = [ex.submit(one, p) for p in pyx]
        for f in fs:
            f.result()
        done = [g.result() for g in gs]
        ls = [ex.submit(_run, ['g++', '-shared', '-fopenmp', o] + objs + ['-o', p[:-4] + SUFFIX], root) for p, o in done]
        for l in ls:
            l.result()
    for p, o in done:
        os.remove(os.path.join(root, o))
        os.remove(os.path.join(root, p[:-4] + '.cy.cpp'))


if __name__ == '__main__':
    import time
    t = time.time()
    r = build(int(sys.argv[1]) if len(sys.argv) > 1 else 8, opt=sys.argv[2] if len(sys.argv) > 2 else '-O1')
    print(r, time.time() - t)
