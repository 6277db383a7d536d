"""Builds and loads the facts (MIR of the workspace as seen by the compiler) of /repo."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HUDI_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NIGHTLY = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu'
STABLE = '1.84-x86_64-unknown-linux-gnu'
CRATES = ['hudi_core', 'hudi_datafusion', 'hudi', 'hudi_python']


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def _env(target):
    e = dict(os.environ)
    for k in ('VIRTUAL_ENV', 'PYO3_PYTHON', 'PYTHONPATH', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e.update(HOME='/root', RUSTC=NIGHTLY + '/bin/rustc', RUSTUP_TOOLCHAIN=STABLE, RUSTC_WRAPPER='',
             CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', LD_LIBRARY_PATH=NIGHTLY + '/lib')
    return e


def _files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules', '.venv', '__pycache__'))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def build_driver():
    drv = os.path.join(VERIF, 'driver')
    key = _hash(_files(os.path.join(drv, 'src'), ('.rs',)) + [os.path.join(drv, 'Cargo.toml')])
    stamp = os.path.join(BUILD, 'driver.stamp')
    exe = os.path.join(BUILD, 'driver', 'release', 'hudi-facts')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=drv,
                       env=_env(os.path.join(BUILD, 'driver')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        fail('driver build failed\n' + r.stdout.decode(errors='replace')[-4000:])
    open(stamp, 'w').write(key)
    return exe, key


def source_key(dkey):
    files = []
    for d in ('crates', 'python'):
        files += [f for f in _files(os.path.join(REPO, d), ('.rs', '.toml', '.proto'))]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock') if os.path.exists(os.path.join(REPO, f))]
    return _hash(files) + dkey[:8]


def ensure():
    """Returns the directory with one JSON file per crate for the current tree of /repo."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dkey = build_driver()
        if not os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            shutil.copy('/opt/vp/Cargo.lock', os.path.join(REPO, 'Cargo.lock'))
        key = source_key(dkey)
        out = os.path.join(BUILD, 'facts', key)
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES) and os.path.exists(os.path.join(out, 'ok')):
            os.utime(out)
            return out
        tgt = os.path.join(BUILD, 'check')
        for p in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'hudi*')):
            shutil.rmtree(p, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = _env(tgt)
        e.update(RUSTC_WORKSPACE_WRAPPER=exe, HUDI_FACTS_OUT=tmp, HUDI_FACTS_CRATES=','.join(c for c in crate_names()))
        r = subprocess.run(['cargo', 'check', '--workspace', '--all-features', '--offline', '--locked'],
                           cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            fail('the analysed tree does not build\n' + r.stdout.decode(errors='replace')[-6000:])
        # the python extension's library crate may be called `hudi` as well: keep what was written
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + '.json')):
                fail('no facts for crate %s; have %s' % (c, os.listdir(tmp)))
        open(os.path.join(tmp, 'ok'), 'w').write('')
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep only a few old fact sets
        sets = sorted(glob.glob(os.path.join(BUILD, 'facts', '*')), key=os.path.getmtime)
        for p in sets[:-6]:
            shutil.rmtree(p, ignore_errors=True)
        return out


def sample(name):
    """The directory with the facts of hf/samples/<name>.rs, on which zero-count queries are tried."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'hf', 'samples', name + '.rs')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dkey = build_driver()
        out = os.path.join(BUILD, 'samples', name + '-' + _hash([src])[:12] + dkey[:8])
        if os.path.exists(os.path.join(out, name + '.json')):
            return out
        os.makedirs(out, exist_ok=True)
        e = _env(os.path.join(BUILD, 'samples', 'target'))
        e.update(HUDI_FACTS_OUT=out, HUDI_FACTS_CRATES=name)
        e.pop('CARGO_PKG_NAME', None)
        r = subprocess.run([exe, '--crate-name', name, '--crate-type', 'lib', '--edition', '2021', '--emit', 'metadata', '--out-dir', out, src],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(os.path.join(out, name + '.json')):
            fail('the sample %s does not compile\n%s' % (name, r.stdout.decode(errors='replace')[-3000:]))
        return out


def crate_names():
    return ['hudi_core', 'hudi_datafusion', 'hudi', 'hudi_python']


if __name__ == '__main__':
    print(ensure())
