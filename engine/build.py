"""Builds the MIR driver and dumps the typed MIR of /repo's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
DRIVER = os.path.join(BUILD, 'driver', 'release', 'mirdump')
CRATES = ('srp', 'spake2', 'aucpace')

CONFIGS = {
    'all': (['--workspace', '--all-features'], {}),
    'all-nodbg': (['--workspace', '--all-features'], {'MIRDUMP_DEBUG_ASSERTIONS': 'off'}),
    'default': (['--workspace'], {}),
    # parameters bounded by a trait of the crate stay parameters
    'generic': (['--lib', '-p', 'spake2', '--all-features'], {'MIRDUMP_GENERIC': '1'}),
    'generic-nodbg': (['--lib', '-p', 'spake2', '--all-features'], {'MIRDUMP_GENERIC': '1', 'MIRDUMP_DEBUG_ASSERTIONS': 'off'}),
    'bare': (['-p', 'aucpace', '-p', 'spake2', '--no-default-features'], {}),
}


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def _files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(files):
            out.append(os.path.join(base, f))
    return out


def tree_key():
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ('driver/src/main.rs', 'driver/src/json.rs'):
        with open(os.path.join(ROOT, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(REPO.encode())
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    stamp = os.path.join(BUILD, 'driver.stamp')
    h = hashlib.sha256()
    for f in ('driver/src/main.rs', 'driver/src/json.rs', 'driver/Cargo.toml'):
        with open(os.path.join(ROOT, f), 'rb') as fh:
            h.update(fh.read())
    k = h.hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == k:
        return
    rc, out = run(['cargo', '+nightly', 'build', '--release', '--offline'], {'CARGO_TARGET_DIR': os.path.join(BUILD, 'driver')},
                  os.path.join(ROOT, 'driver'))
    if rc:
        raise BuildError('driver does not build:\n' + out[-3000:])
    open(stamp, 'w').write(k)


_sysroot = []


def sysroot():
    if not _sysroot:
        rc, out = run(['rustc', '+nightly', '--print', 'sysroot'])
        _sysroot.append(out.strip())
    return _sysroot[0]


def mentions(word):
    """some source file of the crates contains the word"""
    for c in CRATES:
        for base, _, files in os.walk(os.path.join(REPO, c, 'src')):
            for f in files:
                if f.endswith('.rs') and word in open(os.path.join(base, f), encoding='utf8', errors='replace').read():
                    return True
    return False


def custom(pkg, feats, assertions=True):
    """name of the configuration of one package with exactly these features"""
    name = '%s+%s%s' % (pkg, '+'.join(feats) or 'none', '' if assertions else '-nodbg')
    CONFIGS[name] = (['--lib', '-p', pkg, '--no-default-features'] + (['--features', ','.join(feats)] if feats else []),
                     {} if assertions else {'MIRDUMP_DEBUG_ASSERTIONS': 'off'})
    return name


def dump(cfg, prefix=None):
    """directory holding {srp,spake2,aucpace}.json for the current tree"""
    args, env = CONFIGS[cfg]
    with Lock():
        driver()
        key = tree_key()
        out = os.path.join(BUILD, 'dumps', '%s-%s' % (cfg, key))
        done = os.path.join(out, 'done')
        if os.path.exists(done):
            return out
        base = os.path.join(BUILD, 'dumps')
        os.makedirs(base, exist_ok=True)
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        tgt = os.path.join(BUILD, 'tgt')
        for c in CRATES:
            shutil.rmtree(os.path.join(tgt, 'debug', 'build', c), ignore_errors=True)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.rsplit('-', 1)[0] in CRATES:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, 'debug', 'incremental'), ignore_errors=True)
        e = {'CARGO_INCREMENTAL': '0', 'MIRDUMP_OUT': out, 'LD_LIBRARY_PATH': sysroot() + '/lib',
             'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'CARGO_TARGET_DIR': tgt}
        e.update(env)
        rc, log = run(['cargo', '+nightly', 'check', '--offline'] + args, e, REPO)
        if rc:
            raise BuildError('/repo does not build (%s):\n%s' % (cfg, log[-3000:]))
        want = [c for c in CRATES if '--workspace' in args or c in args]
        for c in want:
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise BuildError('no dump of %s for configuration %s\n%s' % (c, cfg, log[-2000:]))
        open(done, 'w').write('ok')
        return out


def light(pkg, combos, workers=8):
    """{features: facts or ('error', log)} for one package under many feature
    combinations: each is type-checked by cargo, the driver records the
    exported interface, the linked crates and the lint level only"""
    import json
    import concurrent.futures as cf
    import queue
    with Lock():
        driver()
        key = tree_key()
        base = os.path.join(BUILD, 'light', '%s-%s' % (pkg, key))
        for d in sorted(os.listdir(os.path.join(BUILD, 'light'))) if os.path.isdir(os.path.join(BUILD, 'light')) else ():
            if not d.endswith(key):
                shutil.rmtree(os.path.join(BUILD, 'light', d), ignore_errors=True)
        os.makedirs(base, exist_ok=True)
        q = queue.Queue()
        for i in range(workers):
            q.put(i)

        def one(fs):
            # the pseudo-feature '-nodbg' stands for a build without debug assertions
            name = '+'.join(fs) or 'none'
            key, nodbg, fs = fs, '-nodbg' in fs, tuple(f for f in fs if f != '-nodbg')
            out = os.path.join(base, name)
            j = os.path.join(out, pkg + '.json')
            if not os.path.exists(j):
                i = q.get()
                try:
                    os.makedirs(out, exist_ok=True)
                    tgt = os.path.join(BUILD, 'ltgt', str(i))
                    fp = os.path.join(tgt, 'debug', '.fingerprint')
                    if os.path.isdir(fp):
                        for d in os.listdir(fp):
                            if d.rsplit('-', 1)[0] in CRATES:
                                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
                    e = {'CARGO_INCREMENTAL': '0', 'MIRDUMP_OUT': out, 'MIRDUMP_LIGHT': '1', 'LD_LIBRARY_PATH': sysroot() + '/lib',
                         'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'CARGO_TARGET_DIR': tgt, 'CARGO_BUILD_JOBS': '2'}
                    if nodbg:
                        e['MIRDUMP_DEBUG_ASSERTIONS'] = 'off'
                    rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib', '-p', pkg, '--no-default-features',
                                   '--features', ','.join(fs)], e, REPO)
                    if rc or not os.path.exists(j):
                        return key, ('error', log[-3000:])
                finally:
                    q.put(i)
            return key, json.load(open(j))
        try:
            with cf.ThreadPoolExecutor(workers) as ex:
                return dict(ex.map(one, combos))
        finally:
            if len(combos) > 16:
                shutil.rmtree(os.path.join(BUILD, 'ltgt'), ignore_errors=True)


if __name__ == '__main__':
    driver()
    for c in sys.argv[1:] or ['all']:
        print(dump(c))
