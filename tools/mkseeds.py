#!/usr/bin/env python3
"""mkseeds.py FILE [ID...]: builds the planted bugs described in FILE (a python file defining SEEDS)."""
import subprocess, sys, os, runpy
seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
os.makedirs('/tmp/seed', exist_ok=True)
for s in seeds:
    if want and s['id'] not in want:
        continue
    subprocess.run('rm -rf /tmp/seed/repo && cp -a /repo /tmp/seed/repo && git -C /tmp/seed/repo checkout -q -- .', shell=True, check=True)
    for f, a, b in s['edits']:
        p = '/tmp/seed/repo/' + f
        t = open(p).read()
        if t.count(a) != 1:
            print(s['id'], 'edit matches', t.count(a), 'times:', a); sys.exit(1)
        open(p, 'w').write(t.replace(a, b))
    subprocess.run(['gofmt', '-l', '/tmp/seed/repo/pkg'])
    open('/tmp/seed/demo_test.go', 'w').write(s['demo'])
    open('/tmp/seed/needs', 'w').write(s['needs'])
    open('/tmp/seed/breaks', 'w').write(s['breaks'])
    print('#####', s['id'], flush=True)
    r = subprocess.run(['/verif/tools/mkseed.sh', s['id'], s['prop'], s['pkg']])
    if r.returncode:
        print('FAILED', s['id']); 
