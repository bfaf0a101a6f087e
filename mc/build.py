"""Locate (or build) an importable MTfit source tree matching /repo's current working tree."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class BuildError(Exception):
    pass


def _key():
    """Same content key as /opt/vp/lib/ext.sh."""
    script = r'''
cd "$1" || exit 1
{ git ls-files -co --exclude-standard -- 'src/*.pyx' 'src/*.pxd' 'src/*.pxi' | LC_ALL=C sort -u | while read -r f; do [ -f "$f" ] && sha256sum "$f"; done
  sha256sum setup.py setup.cfg versioneer.py src/MTfit/_version.py /opt/vp/lib/cc; } 2>&1 | sha256sum
'''
    return subprocess.run(['bash', '-c', script, 'x', REPO], capture_output=True, text=True).stdout.strip()


def _mods(root):
    setup = open(os.path.join(root, 'setup.py')).read()
    out = []
    for f in glob.glob(os.path.join(root, 'src', '**', '*.pyx'), recursive=True):
        if os.path.relpath(f, root) in setup:
            out.append(f[:-4])
    return sorted(out)


def _have_all(root):
    m = _mods(root)
    return bool(m) and all(glob.glob(x + '.cpython-3*.so') for x in m)


def source_tree():
    """Return (src_dir, scratch_dir or None)."""
    stamp = os.path.join(REPO, 'build', 'vp.stamp')
    try:
        current = open(stamp).read().strip() == _key() and _have_all(REPO)
    except OSError:
        current = False
    if current:
        # a .so older than its .pyx cannot happen when the content key matches
        return os.path.join(REPO, 'src'), None
    scratch = tempfile.mkdtemp(prefix='mtfit_mc_build_')
    for name in ('src', 'setup.py', 'setup.cfg', 'versioneer.py', 'README.rst', 'README.md', 'scripts',
                 'CHANGELOG', 'VERSION', 'MANIFEST.in', 'docs', 'LICENSE', 'license.txt'):
        p = os.path.join(REPO, name)
        if os.path.isdir(p):
            if name in ('src', 'scripts'):
                shutil.copytree(p, os.path.join(scratch, name),
                                ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c', '*.egg-info'))
        elif os.path.exists(p):
            shutil.copy(p, scratch)
    env = dict(os.environ)
    env['CCACHE_DIR'] = os.path.join(scratch, 'ccache')
    env['CCACHE_DISABLE'] = '1'
    env.setdefault('CC', '/opt/vp/lib/cc')
    if not os.path.exists(env['CC']):
        env['CC'] = 'gcc'
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '4'], cwd=scratch, env=env,
                       capture_output=True, text=True)
    if not _have_all(scratch):
        tail = (r.stdout + r.stderr)[-4000:]
        shutil.rmtree(scratch, ignore_errors=True)
        raise BuildError('extension build failed\n' + tail)
    return os.path.join(scratch, 'src'), scratch
