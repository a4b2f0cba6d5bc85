"""mkseed.mk(id, prop, [(file, old, new)...], needs, breaks, demo_code): writes /verif/seeded/<id>"""
import json, os, subprocess, tempfile, shutil, difflib
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
def orig(f, text):
    """every line of the replaced text is a line of the original repository"""
    b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '--root', '-l', f], text=True).split('\n')
    s = open('/repo/' + f).read()
    a = s[:s.index(text)].count('\n')
    n = text.rstrip('\n').count('\n') + 1
    return [l for l in b[a:a + n] if l.split()[0].lstrip('^') not in ORIG]
ORIG = set(subprocess.check_output(['git', '-C', '/repo', 'rev-list', 'dac1939'], text=True).split())
def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    byf = {}
    for f, old, new in edits:
        s = byf.setdefault(f, open('/repo/' + f).read())
        assert s.count(old) == 1, (id, f, s.count(old), old)
        bad = orig(f, old)
        if bad: print(id, 'FIX LINES', bad)
        byf[f] = s.replace(old, new)
    for f, s in byf.items():
        a = open('/repo/' + f).read().splitlines(True)
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo after the build\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
