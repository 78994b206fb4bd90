"""Dumping the type-checked program (MIR) of /repo's working tree.

/repo is copied (sources and Cargo files only) into a scratch directory, so the
tree itself is never written.  `cargo +nightly check` runs there with the driver
of /verif/driver as RUSTC_WORKSPACE_WRAPPER; nothing of the crate is executed."""
import os, sys, subprocess, hashlib, shutil, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
WORK = os.environ.get('VP_WORK', os.path.join(VERIF, '.work'))
DRV = os.path.join(VERIF, 'driver')
MIRDUMP = os.path.join(DRV, 'target/release/mirdump')

class BuildError(Exception): pass

def run(cmd, cwd, env, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def env_nightly():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    sr = subprocess.run(['rustc', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE).stdout.decode().strip()
    e['LD_LIBRARY_PATH'] = sr + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC'): e.pop(k, None)
    return e

def driver():
    src = os.path.join(DRV, 'src')
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(src) for f in fs)
    if os.path.exists(MIRDUMP) and os.path.getmtime(MIRDUMP) >= newest: return
    rc, out = run(['cargo', 'build', '--release', '--offline'], DRV, env_nightly())
    if rc: raise BuildError('driver does not build:\n' + out[-3000:])

def files(repo):
    out = []
    for top in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        if os.path.exists(os.path.join(repo, top)): out.append(top)
    for d, ds, fs in os.walk(os.path.join(repo, 'src')):
        ds.sort()
        for f in sorted(fs): out.append(os.path.relpath(os.path.join(d, f), repo))
    return out

def digest(repo, extra=b''):
    h = hashlib.sha256(extra)
    with open(os.path.join(DRV, 'src/main.rs'), 'rb') as f: h.update(f.read())
    for f in files(repo):
        h.update(f.encode() + b'\0')
        with open(os.path.join(repo, f), 'rb') as g: h.update(g.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def copy(repo, dst, inject=None):
    if os.path.exists(os.path.join(dst, 'src')): shutil.rmtree(os.path.join(dst, 'src'))
    os.makedirs(dst, exist_ok=True)
    for f in files(repo):
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(repo, f), d)
    # the crate's manifest may name example or bench targets by default discovery only
    if not os.path.exists(os.path.join(repo, 'Cargo.lock')):
        shutil.copyfile(os.path.join(VERIF, 'reference/Cargo.lock'), os.path.join(dst, 'Cargo.lock'))
    for path, text in (inject or {}).items():
        with open(os.path.join(dst, 'src', path), 'a') as g: g.write('\n' + text)

def dump(repo=None, inject=None, out=None, keep=int(os.environ.get('VP_KEEP', '4'))):
    """path of the JSON dump of the tree (cached by content)"""
    repo = repo or REPO
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        driver()
        key = digest(repo, repr(sorted((inject or {}).items())).encode())
        dd = os.path.join(WORK, 'dumps')
        os.makedirs(dd, exist_ok=True)
        path = out or os.path.join(dd, key + '.json')
        if os.path.exists(path) and not out: return path, key
        tree = os.path.join(WORK, 'tree')
        copy(repo, tree, inject)
        tgt = os.path.join(WORK, 'target')
        fp = os.path.join(tgt, 'debug/.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('perception-eval-'): shutil.rmtree(os.path.join(fp, d))
        e = env_nightly()
        tmp = path + '.tmp'
        if os.path.exists(tmp): os.remove(tmp)
        e.update(MIRDUMP_CRATE='perception_eval', MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=MIRDUMP, CARGO_TARGET_DIR=tgt)
        rc, log = run(['cargo', 'check', '--lib', '--offline'], tree, e)
        if rc or not os.path.exists(tmp): raise BuildError('the crate does not build for analysis:\n' + log[-4000:])
        os.rename(tmp, path)
        if not out:
            old = sorted((os.path.join(dd, f) for f in os.listdir(dd)), key=os.path.getmtime)
            for f in old[:-keep]: os.remove(f)
        return path, key

if __name__ == '__main__':
    t = time.time()
    print(dump(), '%.1fs' % (time.time() - t))
