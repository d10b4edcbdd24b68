"""Builds the MIR dump of /repo's current working tree (type-checks the crate, runs nothing of it)."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
TARGET = os.environ.get('VP_TARGET') or os.path.join(CACHE, 'target')


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def driver():
    src = os.path.join(VERIF, 'driver', 'vpmir.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'vpmir-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        run(['rustc', '+nightly', '--edition', '2021', '-Copt-level=1', '-Cprefer-dynamic', '-o', tmp, src])
        os.replace(tmp, out)
    return out


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot']).strip()


def dump(keep=None):
    """-> path of a fresh dump (caller removes it)"""
    drv = driver()
    os.makedirs(CACHE, exist_ok=True)
    d = tempfile.mkdtemp(prefix='run', dir=CACHE)
    out = os.path.join(d, 'mir.json')
    # forget the crate's own build so that the wrapper runs on the current sources
    for sub in ('.fingerprint', 'build'):
        fp = os.path.join(TARGET, 'debug', sub)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n == 'yaml-subset' or n.startswith('yaml-subset-'):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['CARGO_INCREMENTAL'] = '0'
    env['VP_CRATE'] = 'yaml_subset'
    env['VP_MIR_OUT'] = out
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    env['RUSTFLAGS'] = '-Zmir-opt-level=0 -Cpanic=abort'
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    try:
        run(['cargo', '+nightly', 'check', '--offline', '--lib', '--all-features', '--target-dir', TARGET], cwd=REPO, env=env)
    except BuildError:
        shutil.rmtree(d, ignore_errors=True)
        raise
    if not os.path.exists(out):
        raise BuildError('no dump produced')
    return out


def setup():
    p = dump()
    n = os.path.getsize(p)
    shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    print('analysis driver and dependencies ready (dump %d bytes)' % n)


if __name__ == '__main__':
    setup()
