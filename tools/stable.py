#!/usr/bin/env python3
"""Runs /repo's test suite and reports stable tests that do not pass."""
import json, subprocess
subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/stable.out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
a = json.load(open('/tmp/stable.out.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
bad = [t for t in b if t not in a['passed']]
print('stable', len(b), 'missing', bad)
raise SystemExit(1 if bad else 0)
