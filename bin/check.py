#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--tier quick|thorough] [--seed N]

Decides one property of properties.jsonl: runs the code in /repo on generated inputs, and has TLC judge the recorded
traces against the specification in /verif/spec.  Exit 0: held; 1: VIOLATION line printed; anything else: machinery.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import suites
import tlc

PY = '/opt/venv/bin/python'


def impl_env():
    e = dict(os.environ)
    e.update(HOME='/root', PYTHONPATH=os.environ.get('HLC_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def generate(jobs, work):
    """Stage 1: behaviours the specification generates, for the jobs that replay them."""
    states = 0
    done = {}
    for job in jobs:
        gen = job.get('generate')
        if not gen:
            continue
        key = json.dumps(gen, sort_keys=True)
        if key not in done:
            out = os.path.join(work, 'gen%d.json' % len(done))
            env = dict(gen.get('env', {}), OUT=out)
            r = tlc.run(gen['spec'], env, cfg=gen.get('cfg'), workers=gen.get('workers', 1), extra=gen.get('extra', ()))
            if not r['ok'] or not os.path.exists(out):
                raise tlc.MachineryError('generation by %s failed:\n%s' % (gen['spec'], r['out'][-3000:]))
            done[key] = (out, r)
            states += r['states']
        job['params']['behaviours'] = done[key][0]
    return [r for _, r in done.values()]


def run_all(jobs, work, tier, judge):
    """Stage 2: run the code and judge what it did, each trace as soon as it is there; (verdicts, seconds until the last trace)."""
    t0 = time.time()
    todo = [j for j in jobs if j.get('driver')]
    for k, j in enumerate(todo):
        j['trace'] = os.path.join(work, 'trace%d.json' % k)
    jf = os.path.join(work, 'jobs.json')
    with open(jf, 'w') as f:
        json.dump(todo, f)
    err = open(os.path.join(work, 'worker.log'), 'w+')
    # a job takes seconds, the longest a minute; more than the limit is no answer at all
    worker = subprocess.Popen([PY, os.path.join(ROOT, 'harness', 'worker.py'), jf, '500' if tier == 'quick' else '20000'],
                              env=impl_env(), cwd=work, stdout=err, stderr=err, start_new_session=True)
    res = [None] * len(jobs)
    t1 = t0
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            waiting = []
            for k, j in enumerate(jobs):
                if j.get('driver'):
                    waiting.append(k)
                else:
                    res[k] = ex.submit(judge, j, k)
            while waiting:
                over = worker.poll() is not None
                for k in list(waiting):
                    f = jobs[k]['trace'] + '.result'
                    if os.path.exists(f):
                        with open(f) as g:
                            jobs[k]['impl'] = json.load(g)
                        waiting.remove(k)
                        res[k] = ex.submit(judge, jobs[k], k)
                t1 = time.time()
                if waiting and (over or tier == 'quick' and t1 - t0 > 860):
                    err.seek(0)
                    raise tlc.MachineryError('worker failed:\n' + err.read()[-3000:])
                time.sleep(0.1)
            return [r.result() for r in res], t1 - t0
    finally:
        try:
            os.killpg(worker.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        worker.wait()
        err.close()


def judge(job, prop, work, k):
    if job.get('driver') and not job['impl']['ok']:
        return dict(bad=[dict(p=prop, c='the calculation failed on legitimate input', n=0, e=0,
                              v=job['impl']['error'][-1500:])], dev=[], seen=[], states=0, distinct=0)
    out = os.path.join(work, 'verdict%d.json' % k)
    env = dict(job.get('env', {}), PROP=prop, OUT=out)
    if job.get('driver'):
        env['TRACE'] = job['trace']
    r = tlc.run(job['spec'], env, cfg=job.get('cfg'), workers=job.get('workers', 1), extra=job.get('extra', ()),
                heap=job.get('heap', '1600m'))
    base = dict(states=r['states'], distinct=r['distinct'])
    if not job.get('driver'):                     # a model: the specification itself must be sound
        if not r['ok']:
            raise tlc.MachineryError('model %s: %s\n%s' % (job['spec'], r['kind'], r['out'][-3000:]))
        return dict(base, bad=[], dev=[], seen=[])
    if r['kind'] in ('parse', 'timeout', 'violated'):
        raise tlc.MachineryError('TLC on %s: %s\n%s' % (job['spec'], r['kind'], r['out'][-3000:]))
    if r['kind'] == 'eval' and ('OutOfMemory' in r['out'] or 'insufficient memory' in r['out'] or r['rc'] < 0
                                or not r['out'].strip()):
        raise tlc.MachineryError('TLC on %s ended with %d\n%s' % (job['spec'], r['rc'], r['out'][-3000:]))
    if r['kind'] == 'eval':
        return dict(base, bad=[dict(p=prop, c='the trace is outside what the specification can describe', n=0, e=0,
                                    v=r['out'][max(r['out'].find('Error:'), 0):][:2500])], dev=[], seen=[])
    with open(out) as f:
        v = json.load(f)
    return dict(base, bad=[b for b in v['bad'] if b['p'] == prop], dev=[d for d in v.get('dev', []) if d[0] == prop],
                seen=v.get('seen', []), steps=v.get('steps', 0))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    known = [f for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if f['property'] == prop]
    names = {f['name'] for f in known}
    if a.replay:
        with open(a.replay) as f:
            jobs = [json.load(f)['job']]
    else:
        jobs = suites.jobs(prop, a.tier, a.seed)
    work = tempfile.mkdtemp(prefix='hlc_check_')
    try:
        tlc.classes()
        gens = generate(jobs, work)
        res, t_impl = run_all(jobs, work, a.tier, lambda j, k: judge(j, prop, work, k))
        bad, dev = [], set()
        replays = os.path.join(ROOT, 'replays')
        for k, (j, r) in enumerate(zip(jobs, res)):
            fresh = list(r['bad'])
            for d in r['dev']:
                if d[1] in names:
                    dev.add(d[1])
                else:
                    fresh.append(dict(p=prop, c='deviation not listed as a known finding: ' + d[1], n=0, e=0, v=''))
            if fresh:
                fresh.sort(key=lambda b: (b['n'] if isinstance(b['n'], int) else 0, str(b['c'])))
                os.makedirs(replays, exist_ok=True)
                path = os.path.join(replays, '%s-%d.json' % (prop, k))
                job = {x: y for x, y in j.items() if x not in ('impl', 'trace')}
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'job': job, 'verdicts': fresh[:60]}, f, indent=1)
                if j.get('driver') and j['impl']['ok']:
                    shutil.copy(j['trace'], path[:-5] + '.trace.json')
                bad.append((path, fresh))
        seen = {}
        for r in res:
            for x in r['seen']:
                key = ' '.join(str(y) for y in x) if isinstance(x, list) else str(x)
                seen[key] = seen.get(key, 0) + 1
        for path, fresh in bad[:12]:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            for b in fresh[:3]:
                print('  %s: step/case %s, entity %s: %s' % (b['c'], b['n'], b['e'], str(b['v'])[:1200]))
        missing = []
        for f in known:
            if f['name'] in dev:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
            else:
                missing.append(f['name'])
        traces = [r for j, r in zip(jobs, res) if j.get('driver')]
        models = [(j, r) for j, r in zip(jobs, res) if not j.get('driver')]
        cov = dict(
            states=sum(r['distinct'] for r in res) + sum(g['distinct'] for g in gens),
            transitions=sum(r['states'] for r in res) + sum(g['states'] for g in gens),
            traces_validated_against_impl=len(traces),
            trace_steps=sum(r.get('steps', 0) or 0 for r in traces),
            models=[dict(spec=j['spec'], cfg=j.get('cfg', j['spec']), distinct=r['distinct'], generated=r['states'])
                    for j, r in models],
            situations=seen,
            known_findings_seen=sorted(dev),
            samples=[dict(spec=j['spec'], driver=j['driver'],
                          params={k: v for k, v in j['params'].items() if k != 'behaviours'},
                          info=j['impl'].get('info', {}), steps=r.get('steps', 0))
                     for j, r in zip(jobs, res) if j.get('driver')][:6])
        ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed,
                  level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2),
                  violations=sum(len(f) for _, f in bad),
                  assumptions=['TLC 1.8 with the real arithmetic of java/hlc/NumImpl.java',
                               'behaviour of the code observed only on the executions recorded in this run'])
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        if not a.replay:
            with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s: %d traces (%d steps), %d states, %d violating traces; impl %.1f s, all %.1f s%s'
              % (prop, len(traces), cov['trace_steps'], cov['states'], len(bad), t_impl, time.time() - t0,
                 '; known findings not met: %s' % missing if missing else ''))
        if a.v:
            print(json.dumps(seen, indent=1))
        return 1 if bad else 0
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except tlc.MachineryError as x:
        print('MACHINERY: %s' % x, file=sys.stderr)
        sys.exit(2)
