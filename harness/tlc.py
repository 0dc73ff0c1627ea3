"""Compiling the Java arithmetic and running TLC."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def classes():
    """Directory of the compiled overrides; compiled anew when the sources changed."""
    src = sorted(glob.glob(os.path.join(ROOT, 'java', 'hlc', '*.java')))
    key = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = os.path.join(ROOT, 'build', 'classes-' + key)
    if os.path.exists(os.path.join(out, 'hlc', 'Overrides.class')):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
    r = subprocess.run(['javac', '-d', tmp, '-cp', TLA + ':' + CM] + src, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('javac failed\n' + r.stderr)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)   # somebody else was first
    return out


def run(module, env, cfg=None, timeout=840, workers=1, heap='1600m', extra=(), spec_dir=SPEC):
    """Run TLC; returns dict(ok, states, distinct, out, kind) with kind in '', 'parse', 'eval', 'violated', 'timeout'."""
    meta = tempfile.mkdtemp(prefix='hlc_tlc_')
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java'] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if workers == 1 else ['-XX:+UseParallelGC']) + \
          ['-Xmx' + heap, '-Xss16m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.CommunityModules:hlc.Overrides',
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta, '-cp', ':'.join([classes(), TLA, CM]), 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
           '-config', os.path.join(spec_dir, (cfg or module) + '.cfg')] + list(extra) + \
          [os.path.join(spec_dir, module + '.tla')]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=meta, timeout=timeout)
        out = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('utf-8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    kind = ''
    if rc == -1:
        kind = 'timeout'
    elif 'Parsing or semantic analysis failed' in out or 'TLC threw an unexpected exception' in out and not m:
        kind = 'parse'
    elif rc in (10, 11, 12, 13, 14):
        kind = 'violated'
    elif rc != 0:
        kind = 'eval'
    return dict(ok=rc == 0, rc=rc, states=states, distinct=distinct, out=out, kind=kind)
