#!/usr/bin/env python3
"""replay.py FILE: run one case again, as a check wrote it, and judge it."""
import json, os, shutil, sys, tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
import nd
from run import slim

r = json.load(open(sys.argv[1]))
nd.build()
case = dict(r['case'])
out = nd.run([case])[0]
work = tempfile.mkdtemp(prefix='replay-', dir=nd.OUT)
try:
    v = nd.judge(r['property'], [slim(r['property'], nd.execution(case, out))], work)
finally:
    shutil.rmtree(work, ignore_errors=True)
print(case['in'].encode('latin1').decode('utf-8', 'replace'))
for o in case.get('ops', []):
    print(o)
print(json.dumps(out, indent=1)[:6000])
for _, step, codes in v.violations:
    print(f'VIOLATION property={r["property"]} replay={sys.argv[1]}')
    print(f'  {", ".join(codes)} at step {step}')
sys.exit(1 if v.violations else 0)
