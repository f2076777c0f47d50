#!/usr/bin/env python3
"""Offline setup: parses every specification and builds the repository and the harness once."""
import concurrent.futures as cf, glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
sys.path.insert(0, os.path.join(vf.ROOT, 'checks'))
import gather
os.makedirs(vf.OUT, exist_ok=True)
def sany(m):
    return m, vf.sh(['java', '-cp', vf.JARS, 'tla2sany.SANY', m], cwd=vf.SPECS)
with cf.ThreadPoolExecutor(vf.NPROC) as ex:
    bad = [(m, o) for m, (rc, o) in ex.map(sany, sorted(os.path.basename(x) for x in glob.glob(vf.SPECS + '/*.tla'))) if rc or 'Fatal' in o or 'Could not' in o]
for m, o in bad:
    print(m, o[-2000:])
b = vf.build('rel')
gather.ledger()
print('built', b.exe)
sys.exit(1 if bad else 0)
