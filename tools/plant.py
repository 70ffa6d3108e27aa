"""plant.py [ID ...]: build /verif/seeded/<id> from tools/plants.py, confirm that the change
passes the stable tests and that its demonstration fails with it and passes without it,
then say whether the property's quick check catches it."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plants

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)

def original_lines(f):
    out = sh('git', '-C', '/repo', 'blame', '-s', f).stdout.splitlines()
    return {i + 1: l.startswith('^') for (i, l) in enumerate(out)}

def stable():
    sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
    r = json.load(open('/tmp/plant.json'))
    p = set(r.get('passed', [k for (k, v) in r.items() if v == 'passed']) if isinstance(r, dict) else r)
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in p]

def main(ids, check):
    for b in plants.BUGS:
        if ids and not any(re.fullmatch(i, b['id']) for i in ids): continue
        assert sh('git', '-C', '/repo', 'status', '--short').stdout == ''
        d = os.path.join(ROOT, 'seeded', b['id'])
        prob = []
        try:
            for (f, old, new) in b['edits']:
                p = os.path.join('/repo/pcollections', f)
                s = open(p).read()
                n = b.get('nth', 1)
                if s.count(old) < n: prob.append('edit does not apply: ' + old[:60]); break
                at = -1
                for _ in range(n): at = s.index(old, at + 1)
                open(p, 'w').write(s[:at] + new + s[at + len(old):])
            diff = sh('git', '-C', '/repo', 'diff').stdout
            sh('git', '-C', '/repo', 'diff')
            orig = 0; mine = 0
            f = None
            for l in diff.splitlines():
                if l.startswith('--- a/'): f = l[6:]; m = original_lines_head(f)
                elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if m[n]: orig += 1
                    else: mine += 1
                    n += 1
                elif l.startswith(' '): n += 1
            if not orig: prob.append('no original line changed')
            miss = stable()
            if miss: prob.append('tests fail: %s' % miss)
            if os.path.isdir(d): shutil.rmtree(d)
            os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Exits 0 when the property holds.  Run in /repo.\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"\n'
                'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash', d + '/demo.sh', cwd='/repo')
            if r.returncode == 0: prob.append('demo passes with the change')
            why = (r.stderr or r.stdout).strip().splitlines()[-1:]
            caught = ''
            if check and not prob:
                t0 = time.time()
                c = sh('python3-vt', 'check.py', b['property'], 'quick', cwd=ROOT)
                v = [l for l in c.stdout.splitlines() if l.startswith('  c')]
                caught = '%s %.0fs %s' % ('CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode,
                                          time.time() - t0, v[:1])
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        if not prob or os.path.isdir(d):
            r = sh('bash', d + '/demo.sh', cwd='/repo')
            if r.returncode: prob.append('demo fails without the change: ' + r.stderr[-300:])
        if prob and os.path.isdir(d): shutil.rmtree(d)
        print(b['id'], b['property'], 'lines %d/%d' % (orig, mine), 'PROBLEM %s' % prob if prob else 'ok', why, caught, flush=True)

def original_lines_head(f):
    out = sh('git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f).stdout.splitlines()
    return {i + 1: l.startswith('^') for (i, l) in enumerate(out)}

args = sys.argv[1:]
check = '--check' in args
main([a for a in args if not a.startswith('--')], check)
