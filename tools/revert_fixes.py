#!/opt/venv/bin/python
""" Development tool: undoes each repair of known_findings.jsonl in a scratch copy, and runs the check of its property there. """
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main(only):
    for line in open(os.path.join(VERIF, 'known_findings.jsonl')):
        _, prop, commit, *what = line.split()
        prop = prop.split('=')[1]
        if only and commit not in only and prop not in only:
            continue
        d = tempfile.mkdtemp(prefix='revert-', dir='/tmp')
        r = os.path.join(d, 'repo')
        try:
            sh(['cp', '-a', '/repo', r])
            o = sh(['git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', commit], cwd=r)
            if o.returncode:
                print(prop, commit, 'CONFLICT', flush=True)
                continue
            o = sh(['/opt/venv/bin/python', '-B', os.path.join(VERIF, 'check.py'), prop], env=dict(os.environ, AIDEME_REPO=r), cwd=VERIF)
            first = [l for l in o.stdout.splitlines() if l.startswith('violation')][:1]
            print(prop, commit, 'rc', o.returncode, 'CAUGHT' if o.returncode == 1 and 'VIOLATION' in o.stdout else 'missed', ' '.join(what)[:80], first, flush=True)
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
