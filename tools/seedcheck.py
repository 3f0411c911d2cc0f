#!/usr/bin/env python3
"""seedcheck.py ID [--no-stable] [--no-check] [--check PROP]: validates one
planted bug against /repo (patch applies, builds, stable tests pass, demo fails
with it and passes without) and runs its property's quick check on it."""
import json, os, subprocess, sys
a = [x for x in sys.argv[1:] if not x.startswith('--')]
o = [x for x in sys.argv[1:] if x.startswith('--')]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def demo(d): 
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo'); return r.returncode, r.stdout.decode('utf8', 'replace')[-700:]
assert sh('git -C /repo status --porcelain --untracked-files=no').stdout == b'', 'repo dirty'
bad = 0
for i in a:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    out = [i, prop]
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(i, 'patch does not apply', r.stdout.decode()); bad += 1; continue
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(i, 'build fails', b.stdout.decode()[-2000:]); bad += 1; continue
        rc, t = demo(d); out.append('demo+patch rc=%d' % rc)
        if rc == 0 or rc in (3, 124): print(i, 'demo does not fail:', rc, t); bad += 1
        elif '-v' in sys.argv: print(t)
        if '--no-stable' not in o:
            r = sh('python3 /verif/tools/stable.py'); out.append('stable ' + ('ok' if r.returncode == 0 else 'BROKEN ' + r.stdout.decode()[-500:]))
            bad += r.returncode != 0
        if '--no-check' not in o:
            r = sh('python3 check.py %s --tier quick' % prop, cwd='/verif')
            t = r.stdout.decode('utf8', 'replace')
            hit = r.returncode == 1 and 'VIOLATION property=%s' % prop in t
            out.append('CAUGHT ' + ' '.join(sorted({l[4:] for l in t.splitlines() if l.startswith('--- ')})) if hit else 'MISSED rc=%d' % r.returncode)
            if not hit: print(t[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    rc, t = demo(d); out.append('demo clean rc=%d' % rc)
    if rc: print(i, 'demo fails on the clean tree', t); bad += 1
    print(' | '.join(out), flush=True)
sys.exit(bad != 0)
