"""Facts for /repo's current tree, and a fork pool over analysis units."""
import fcntl
import hashlib
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, HERE)
CRATES = ['server', 'pd', 'db', 'dict', 'common', 'keys']


def source_hash():
    h = hashlib.sha256()
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests', 'node_modules'))
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock')):
                out.append(os.path.join(d, f))
    for f in [os.path.join(VERIF, 'extract.sh')] + [os.path.join(VERIF, 'driver', 'src', 'main.rs')]:
        out.append(f)
    for f in sorted(out):
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20], len(out)


def build_driver():
    drv = os.path.join(VERIF, 'driver')
    exe = os.path.join(drv, 'target/release/factdump')
    src = [os.path.join(drv, 'src/main.rs'), os.path.join(drv, 'Cargo.toml')]
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in src):
        return
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], cwd=drv, check=True, env=env,
                   stdout=sys.stderr)


class BuildBroken(Exception):
    pass


def facts_dir():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h, n = source_hash()
        out = os.path.join(BUILD, 'facts-' + h)
        if os.path.exists(os.path.join(out, 'ok')):
            return out, n
        build_driver()
        for d in os.listdir(BUILD):
            if d.startswith('facts'):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tgt = os.path.join(BUILD, 'target')
        # the wrapper is only run for crates cargo finds stale: drop the workspace crates' freshness records
        own = CRATES + ['rudis', 'macros']
        for top, cut in (('debug/build', False), ('debug/.fingerprint', True), ('debug/incremental', True)):
            fp = os.path.join(tgt, top)
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if (d.rsplit('-', 1)[0] if cut else d) in own:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run([os.path.join(VERIF, 'extract.sh'), out, tgt, REPO], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        got = {f.split('.')[0].split('-')[0] for f in os.listdir(out)} if os.path.isdir(out) else set()
        if r.returncode or not set(CRATES) <= got:
            sys.stderr.write(r.stdout[-4000:])
            raise BuildBroken('extraction failed (rc %d, crates %s)' % (r.returncode, sorted(got)))
        open(os.path.join(out, 'ok'), 'w').close()
        return out, n


_J = []


def _call(i):
    f, a = _J[i]
    try:
        return i, 'ok', f(*a)
    except Exception:
        return i, 'crash', traceback.format_exc()


def pool(jobs, cost=None):
    """run [(f, args)] in forked workers; yields (index, status, result)"""
    global _J
    _J = jobs
    order = sorted(range(len(jobs)), key=lambda i: -(cost(i) if cost else 0))
    n = min(len(jobs), max(1, (os.cpu_count() or 2)))
    if n <= 1:
        for i in order:
            yield _call(i)
        return
    with mp.get_context('fork').Pool(n) as p:
        yield from p.imap_unordered(_call, order, chunksize=1)
