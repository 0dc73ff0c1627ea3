"""Runs jobs against the code under test: worker.py JOBS.json LIMIT (with the repository's own Python).

The result of each is left beside its trace, as soon as it is there.  A job that takes longer than LIMIT seconds has failed.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class TooLong(BaseException):
    pass


def over(*_):
    raise TooLong('no result after %s s' % sys.argv[2])


def one(job):
    r = run(job)
    with open(job['trace'] + '.tmp', 'w') as f:
        json.dump(r, f)
    os.rename(job['trace'] + '.tmp', job['trace'] + '.result')


def run(job):
    t = time.time()
    signal.signal(signal.SIGALRM, over)
    signal.alarm(int(sys.argv[2]))
    try:
        mod, fn = job['driver'].split(':')
        info = getattr(importlib.import_module(mod), fn)(job['params'], job['trace'])
        return {'ok': True, 'info': info or {}, 'wall': time.time() - t}
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as x:
        if x.errno in (28, 12):      # no space, no memory
            raise
        return {'ok': False, 'error': traceback.format_exc(limit=-4), 'wall': time.time() - t}
    except BaseException:
        return {'ok': False, 'error': traceback.format_exc(limit=-4), 'wall': time.time() - t}
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    with mp.get_context('fork').Pool(min(8, max(1, len(jobs))), maxtasksperchild=16) as pool:
        pool.map(one, jobs, chunksize=1)
