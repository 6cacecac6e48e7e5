#!/usr/bin/env python3
"""Run the check of each planted change's own property (or all claimed checks with --all)
on a scratch copy of /repo with the change applied."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
allc = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))


def one(i):
    d = tempfile.mkdtemp(prefix='tc')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('tests', '.git'))
    subprocess.run(['git', 'init', '-q'], cwd=d + '/r')
    subprocess.run(['git', 'apply', '--exclude=tests/*', '%s/%s/patch.diff' % (S, i)], cwd=d + '/r', check=True)
    p = json.load(open('%s/%s/meta.json' % (S, i)))['property']
    out = []
    for c in (['C%02d' % k for k in range(1, 26)] if allc else [p]):
        r = subprocess.run([sys.executable, '-m', 'bmpcheck', c, '--tier', 'quick'], cwd=os.environ.get('BC', '/verif'), capture_output=True, text=True,
                           env=dict(os.environ, BMPCHECK_REPO=d + '/r', BMPCHECK_OUT=d + '/ev'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'undecided:' in l.lower() or l.startswith('  UNDEC')]
        out.append((c, r.returncode, v[:2] or r.stdout.splitlines()[-3:]))
    shutil.rmtree(d)
    return i, p, out


with ThreadPoolExecutor(7) as ex:
    for i, p, out in ex.map(one, ids):
        if allc:
            print(i, p, 'caught by', [c for c, rc, v in out if rc == 1], 'errors', [c for c, rc, v in out if rc not in (0, 1)])
        else:
            c, rc, v = out[0]
            print(i, p, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, '' if rc == 1 else v)
