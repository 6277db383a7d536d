"""Compiles a Rust program against the libraries that build.sh left in /repo/target and runs it."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = '/repo/target/debug'


def externs(crate):
    """Names and files of the libraries the crate was last built with."""
    best = None
    for f in glob.glob(ROOT + '/.fingerprint/%s-*/lib-*.json' % crate.replace('_', '-')):
        if best is None or os.path.getmtime(f) > os.path.getmtime(best):
            best = f
    out = {}
    hashes = {}
    for f in glob.glob(ROOT + '/.fingerprint/*/lib-*'):
        if not f.endswith('.json'):
            hashes.setdefault(open(f).read().strip(), []).append(f)
    for _, name, _, h in json.load(open(best))['deps']:
        hx = int(h).to_bytes(8, 'little').hex()
        for f in hashes.get(hx, ()):
            suffix = os.path.basename(os.path.dirname(f)).rsplit('-', 1)[1]
            for p in glob.glob(ROOT + '/deps/lib%s-%s.*' % (name, suffix)):
                if p.endswith(('.rlib', '.so')):
                    out[name] = p
    return out


def compile(src, work):
    ex = {}
    for c in ('hudi-core', 'hudi-datafusion'):
        for k, v in externs(c).items():
            ex[k] = v
    ex['hudi_core'] = ROOT + '/libhudi_core.rlib'
    ex['hudi_datafusion'] = ROOT + '/libhudi_datafusion.rlib'
    exe = os.path.join(work, 'demo')
    cmd = ['rustc', '--edition', '2021', '-C', 'debuginfo=0', src, '-o', exe, '-L', 'dependency=' + ROOT + '/deps']
    for k, v in ex.items():
        cmd += ['--extern', '%s=%s' % (k, v)]
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.84-x86_64-unknown-linux-gnu')
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-6000:])
        sys.exit(2)
    return exe


def run(src, *args, timeout=120):
    """(exit status, output) of the program."""
    work = tempfile.mkdtemp(prefix='rdemo_')
    try:
        exe = compile(src, work)
        try:
            r = subprocess.run([exe, *args], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)
