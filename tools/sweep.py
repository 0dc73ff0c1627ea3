#!/usr/bin/env python3
"""Development: run jobs of the core family with every law on (PROP=ALL) and show verdicts and situations.

sweep.py [tier] [seed] [only indices...]
"""
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import json
import check
import suites
import tlc

tier, seed = (sys.argv[1:3] + ['quick', '1'])[:2] if len(sys.argv) > 2 else ('quick', '1')
jobs = suites.family(tier, int(seed))
if len(sys.argv) > 3:
    jobs = [jobs[int(k)] for k in sys.argv[3:]]
work = tempfile.mkdtemp(prefix='hlc_sweep_')


def one(j, k):
    if not j['impl']['ok']:
        return [dict(p='-', c='IMPL', n=0, e=0, v=j['impl']['error'][-600:])], [], []
    out = os.path.join(work, 'v%d.json' % k)
    r = tlc.run(j['spec'], dict(PROP='ALL', OUT=out, TRACE=j['trace']))
    if not os.path.exists(out):
        return [dict(p='-', c='TLC', n=0, e=0, v=r['out'][-800:])], [], []
    v = json.load(open(out))
    return v['bad'], v['dev'], v['seen']


res, _ = check.run_all(jobs, work, 'thorough', one)
seen = {}
for j, (bad, dev, sn) in zip(jobs, res):
    if bad:
        print(json.dumps(j['params']))
        cl = {}
        for b in bad:
            cl.setdefault((b['p'], b['c']), []).append(b)
        for c, bs in sorted(cl.items()):
            b = min(bs, key=lambda b: b['n'])
            print('   ', c, len(bs), 'first at', b['n'], 'entity', b['e'], str(b['v'])[:600])
    for x in sn:
        seen[' '.join(map(str, x))] = seen.get(' '.join(map(str, x)), 0) + 1
for k in sorted(seen):
    print('%4d %s' % (seen[k], k))
shutil.rmtree(work, ignore_errors=True)
