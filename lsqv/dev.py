#!/usr/bin/env python3
"""dev.py UNIT [bounded] : run one unit and print every failed obligation"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from concurrent.futures import ThreadPoolExecutor
args = [a for a in sys.argv[1:] if not a.startswith('-')]
mode = 'bounded' if '-b' in sys.argv else 'proof'
tr = '-t' in sys.argv
work = tempfile.mkdtemp(prefix='lsqdev.')
try:
    jobs = []
    for a in args:
        u = engine.Unit(a)
        vs = u.variants + (u.thorough_variants if '-T' in sys.argv else [])
        if mode == 'bounded' and u.fvariants: vs = u.fvariants
        only = [x[2:] for x in sys.argv[1:] if x.startswith('-v')]
        if only: vs = [v for v in vs if v in only]
        for v in vs: jobs.append((u, v))
    with ThreadPoolExecutor(8) as ex:
        for (u, v), r in zip(jobs, ex.map(lambda j: engine.solve(j[0], j[1], mode, work), jobs)):
            print('%-22s %-20s %-9s %d/%d covers %d  %.1fs  %s' % (u.name, v, r.status, r.discharged, r.obligations, r.covers, r.time, r.why))
            for f in [x for x in r.failed if x['status']!='UNKNOWN'][:14]:
                print('   ', f['status'], f['name'], f['file'], f['line'], f['desc'], '(scaffold)' if f['scaffold'] else '')
            if tr:
                for f in [f for f in r.failed if f["status"]=="FAILURE" and os.environ.get("OB","") in f["name"]][:1]:
                    c, o = engine.trace(u, r, f); print(c); print(o[-int(os.environ.get("TL","6000")):])
finally:
    shutil.rmtree(work)
