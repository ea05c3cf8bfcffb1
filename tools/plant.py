#!/opt/venv/bin/python
"""
Development tool: validates a planted bug in a scratch copy of /repo and stores it as seeded/<id>/.

    plant.py SPEC.py     SPEC defines ID, PROPERTY, EDITS = [(file, old, new)], DEMO (source of demo.py), NEEDS, BREAKS
    plant.py run ID [PROP...]  runs checks against a planted bug, in a scratch copy
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    r = os.path.join(d, 'repo')
    sh(['cp', '-a', REPO, r])
    return d, r


def tests(r):
    o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/test_one_dim_convex.py', 'tests/test_polytope.py', 'tests/test_convex.py'], cwd=r)
    m = re.search(r'(\d+) failed', o.stdout), re.search(r'(\d+) passed', o.stdout), re.search(r'(\d+) error', o.stdout)
    return [int(x.group(1)) if x else 0 for x in m]


def demo(folder, r):
    d = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
    for f in os.listdir(folder):
        if not f.endswith(('.diff', '.json')):
            shutil.copy(os.path.join(folder, f), d)
    try:
        return sh(['bash', os.path.join(d, 'demo.sh')], cwd=r, timeout=300)
    finally:
        shutil.rmtree(d)


def checks(r, props):
    env = dict(os.environ, AIDEME_REPO=r)
    out = []
    for p in props:
        o = sh([PY, '-B', os.path.join(VERIF, 'check.py'), p], env=env, cwd=VERIF)
        lines = [l for l in o.stdout.splitlines() if 'VIOLATION' in l or 'class' in l][:3]
        out.append((p, o.returncode, lines or o.stdout[-300:] + o.stderr[-300:]))
        print('   check', p, 'rc', o.returncode, (lines or [o.stdout[-300:] + o.stderr[-500:]])[0][:300], flush=True)
    return out


def main():
    if sys.argv[1] == 'run':
        folder = os.path.join(VERIF, 'seeded', sys.argv[2])
        d, r = scratch()
        try:
            assert sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=r).returncode == 0
            checks(r, sys.argv[3:] or [json.load(open(os.path.join(folder, 'meta.json')))['property']])
        finally:
            shutil.rmtree(d)
        return
    for path in sys.argv[1:]:
        s = runpy.run_path(path)
        if 'BUGS' in s:
            for b in s['BUGS']:
                one(b)
        else:
            one(s)


def one(s):
    folder = os.path.join(VERIF, 'seeded', s['ID'])
    d, r = scratch()
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(r, f)
            text = open(p).read()
            if text.count(old) != 1:
                print(s['ID'], 'EDIT MATCHES', text.count(old), 'TIMES', f, old[:60])
                return
            open(p, 'w').write(text.replace(old, new))
        diff = sh(['git', 'diff'], cwd=r).stdout
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=r).stdout.strip()
        roots = set(sh(['git', 'log', '--format=%H', '--invert-grep', '--grep=^fix:'], cwd=r).stdout.split())
        original = added = 0
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m:
                n = int(m.group(1))
            elif l.startswith('-') and not l.startswith('---'):
                bl = sh(['git', 'blame', '-l', '-L', '{0},{0}'.format(n), 'HEAD', '--', f], cwd=r).stdout.split()[0].lstrip('^')
                if any(c.startswith(bl) for c in roots):
                    original += 1
                else:
                    added += 1
                n += 1
            elif l.startswith(' '):
                n += 1
        t = tests(r)
        base_t = tests(REPO)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, 'patch.diff'), 'w').write(diff)
        open(os.path.join(folder, 'demo.py'), 'w').write(s['DEMO'].lstrip())
        open(os.path.join(folder, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        good, bad = demo(folder, REPO), demo(folder, r)
        ok = good.returncode == 0 and bad.returncode not in (0, None) and t[0] == base_t[0] and t[1] == base_t[1] and original
        print(s['ID'], 'OK' if ok else 'NOT VALID', 'lines original/own', original, added, 'tests', t, base_t, 'demo', good.returncode, bad.returncode, flush=True)
        if good.returncode:
            print('   good:', (good.stdout + good.stderr)[-600:])
        if not ok or os.environ.get('SHOW'):
            print('   bad:', (bad.stdout + bad.stderr)[-600:])
        if not ok:
            shutil.rmtree(folder)
            return
        if not os.environ.get('NOCHECK'):
            checks(r, [s['PROPERTY']] + s.get('ALSO', []))
    finally:
        shutil.rmtree(d)


main()
