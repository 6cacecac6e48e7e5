#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from a definitions file: each seed is a dict with id, property,
file, edits [(old, new)], demo (Python source run in /repo), needs, breaks.  The change is
made in a scratch copy; it is kept only if the stable tests pass and the demonstration
fails with it and passes without it."""
import json, os, re, shutil, subprocess, sys, tempfile
OUT = '/verif/seeded'
PY = '/opt/venv/bin/python'
stable = json.load(open('/opt/vp/BASELINE.json'))


def run(c, cwd, t=600):
    return subprocess.run(c, cwd=cwd, capture_output=True, text=True, timeout=t)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='plant')
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        for f, fn, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            i, j = 0, len(t)
            if fn:
                m = re.search(r'^def %s\(' % fn, t, re.M)
                i = m.start()
                m = re.compile(r'^(?:def |@)', re.M).search(t, i + 4)
                j = m.start() if m else len(t)
            b = t[i:j]
            if b.count(old) != 1:
                print(s['id'], 'EDIT matches', b.count(old), old[:60]); break
            open(p, 'w').write(t[:i] + b.replace(old, new) + t[j:])
        else:
            o = os.path.join(d, 'seed')
            os.mkdir(o)
            open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(o + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec "$py" "$here/demo.py"
''')
            os.chmod(o + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            a = run(['bash', o + '/demo.sh'], '/repo')
            b = run(['bash', o + '/demo.sh'], r)
            ok = a.returncode == 0 and b.returncode != 0
            print(s['id'], 'demo clean', a.returncode, 'patched', b.returncode, '' if ok else (a.stderr[-300:], b.stderr[-300:]))
            if ok:
                diff = run(['git', 'diff'], r).stdout
                open(o + '/patch.diff', 'w').write(diff)
                t = run(['bash', '-c', 'python3 /verif/tools/stabletests.py %s' % r], r)
                print('   tests:', t.stdout.strip()[-200:], t.stderr.strip()[-200:])
                if t.returncode == 0:
                    q = os.path.join(OUT, s['id'])
                    shutil.rmtree(q, ignore_errors=True)
                    shutil.copytree(o, q)
        shutil.rmtree(d)


main()
