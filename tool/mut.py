#!/usr/bin/env python3
"""mut.py FILE: MUTS=[(name, check ids, file, old, new)...]; applies each to a scratch copy (/tmp/lr) and reports what the checks say"""
import sys, os, subprocess
exec(open(sys.argv[1]).read())
R = '/tmp/lr'
subprocess.run('mkdir -p %s; rsync -a --delete --exclude _build /repo/lib /repo/projects %s/' % (R, R) if os.path.exists('/usr/bin/rsync') else 'rm -rf /tmp/lr/lib /tmp/lr/projects; mkdir -p /tmp/lr; cp -a /repo/lib /repo/projects /tmp/lr/', shell=True)
for name, ids, f, a, b in MUTS:
    p = R + '/' + f
    s = open(p).read()
    if a not in s:
        print(name, 'NO MATCH'); continue
    open(p, 'w').write(s.replace(a, b, 1))
    for i in ids.split():
        r = subprocess.run(['python3', 'checks/run.py', i], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, LF_REPO=R), capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().split('\n')
        print('%-40s %s rc=%d %s' % (name, i, r.returncode, ' | '.join(out[:int(os.environ.get('ML','1'))])[:int(os.environ.get('MC','200'))]), flush=True)
    open(p, 'w').write(s)
