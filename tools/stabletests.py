#!/usr/bin/env python3
"""Run the stable tests in a scratch copy of the repository; exit 0 if all of them pass."""
import json, os, subprocess, sys
r = sys.argv[1]
t = os.path.join(r, 'tests', 'test_output')
subprocess.run(['rm', '-rf', os.path.abspath(t)])
os.makedirs(t)
env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-n', 'auto', '--maxprocesses=8', '--timeout=30',
                '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + r + '.xml'], cwd=r, env=env,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.run(['python3', '/opt/vp/results.py', r + '.json', 'junit:' + r + '.xml'], stdout=subprocess.DEVNULL)
b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open(r + '.json'))
m = [x for x in b['stable'] if x not in set(o['passed'])]
print('stable missing', m[:5])
sys.exit(1 if m else 0)
