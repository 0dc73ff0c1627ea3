#!/usr/bin/env python3
"""Development aid: runs checks against one-line mutants of a scratch copy of /repo (HLC_REPO).

mutate.py MUTANTS.py [name-filter]   where MUTANTS.py defines M = [(name, file, old, new, [checks])]
"""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])['M']
flt = sys.argv[2] if len(sys.argv) > 2 else ''
base = tempfile.mkdtemp(prefix='hlc_mut_')
repo = os.path.join(base, 'repo')
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
missed = []
try:
    for name, file, old, new, checks in M:
        if flt not in name:
            continue
        path = os.path.join(repo, 'heat_load_calc', file)
        src = open(path, encoding='utf-8').read()
        if src.count(old) < 1:
            print('?? %s: text not found' % name)
            continue
        open(path, 'w', encoding='utf-8').write(src.replace(old, new, 1))
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'bin', 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, HLC_REPO=repo))
            first = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
            print('%-9s %-32s %s rc=%d %s' % ('caught' if r.returncode == 1 else 'MISSED', name, c, r.returncode,
                                            (first or [''])[0].strip()[:110]), flush=True)
            if r.returncode != 1:
                missed.append((name, c))
                if r.returncode != 0:
                    print(r.stderr[-600:])
        open(path, 'w', encoding='utf-8').write(src)
finally:
    shutil.rmtree(base, ignore_errors=True)
print('missed:', missed)
