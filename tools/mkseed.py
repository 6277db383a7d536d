"""mk(id, property, edits, needs, breaks, demo, rust=None): writes /verif/seeded/<id> from edits made in a scratch copy of /repo.

edits: [(file, old text, new text)]; each old text must occur exactly once.
"""
import json
import os
import shutil
import subprocess

SR = '/tmp/sr'
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')


def mk(sid, prop, edits, needs, breaks, demo, rust=None):
    subprocess.run(['git', '-C', SR, 'checkout', '-q', '--', '.'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(SR, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', '-C', SR, 'diff'], check=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', SR, 'checkout', '-q', '--', '.'], check=True)
    o = os.path.join(OUT, sid)
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(os.path.join(o, 'patch.diff'), 'w').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    open(os.path.join(o, 'demo.py'), 'w').write(demo)
    if 'hudi_tab' in demo:
        shutil.copy(os.path.join(HERE, 'hudi_tab.py'), o)
    if 'rdemo' in demo:
        shutil.copy(os.path.join(HERE, 'rdemo.py'), o)
    if rust:
        open(os.path.join(o, 'main.rs'), 'w').write(rust)
    open(os.path.join(o, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/vp/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(o, 'demo.sh'), 0o755)
    print('made', sid)
