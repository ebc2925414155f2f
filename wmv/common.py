"""Harness: runs the cases of a check in worker processes, collects what the
monitors saw, decides the verdict, and writes evidence and replay files."""

import contextlib
import errno
import hashlib
import importlib
import io
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WMV_REPO', '/repo')
PY = '/opt/venv/bin/python'


MEMORY = int(2.5e9)         # of a process, address space


class Violation(Exception):
    """The property does not hold on this execution."""


class Inconclusive(Exception):
    """The execution decided nothing (monitor not reached, harness error)."""


class Mon(object):
    """What the monitors of one case observed."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.counts = {}
        self.states = set()
        self.nontrivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        """Record a distinct abstract state (schedule, configuration...)."""
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.count('assertions')
        if not cond:
            raise Violation(msg % args if args else msg)

    def code(self, fn, *args, **kwargs):
        """Call code under test: an exception it raises is a violation."""
        self.count('calls')
        try:
            return fn(*args, **kwargs)
        except (Violation, Inconclusive, Hang):
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc(limit=-4)
            raise Violation('%s raised %s: %s\n%s' % (
                getattr(fn, '__qualname__', fn), type(e).__name__, e, tb))


def quiet():
    """Silence the logging of the code under test."""
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    try:
        import numpy
        numpy.seterr(all='ignore')
    except ImportError:
        pass


_MOD = None


def _init_worker(modname):
    global _MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    # results travel over a pipe; the code under test and git are chatty
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    _MOD = importlib.import_module(modname)


class Hang(BaseException):
    """A case takes many times longer than it ever should."""


def _alarm(signum, frame):
    raise Hang()


_TOP = None         # scratch folder of the whole run


def _run_case(spec):
    """Run one case in a scratch directory. Returns a dict. A case that the
    monitors cannot interpret is run again: if they fail again, the code gives
    something that no user could interpret either."""
    out = _run_once(spec)
    if out['verdict'] == 'error':
        out = _run_once(spec)
        if out['verdict'] == 'error':
            out['verdict'] = 'violated'
            out['msg'] = 'not what the monitors can interpret: ' + out['msg']
    return out


def _run_once(spec):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='wmv.', dir=_TOP)
    mon = Mon(tmp)
    cwd = os.getcwd()
    out = {'spec': spec, 'verdict': 'held', 'msg': ''}
    buf = io.StringIO()
    limit = float(os.environ.get('WMV_CASE_LIMIT', 150))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        work = os.path.join(tmp, 'cwd')
        os.mkdir(work)
        os.chdir(work)
        quiet()
        if getattr(_MOD, 'REDIRECT', True):
            with contextlib.redirect_stdout(buf):
                _MOD.run_case(spec, mon)
        else:
            _MOD.run_case(spec, mon)
    except Violation as e:
        out['verdict'] = 'violated'
        out['msg'] = str(e)
    except Inconclusive as e:
        out['verdict'] = 'inconclusive'
        out['msg'] = str(e)
    except Hang:
        out['verdict'] = 'violated'
        out['msg'] = 'the case did not end within %g s:\n%s' % (
            limit, traceback.format_exc(limit=-6))
    except MemoryError:
        # no case needs a tenth of what a process may take
        out['verdict'] = 'violated'
        out['msg'] = 'the case needs more than %.1f GB of memory:\n%s' % (
            MEMORY / 1e9, traceback.format_exc(limit=-6))
    except BaseException as e:
        full = isinstance(e, OSError) and e.errno in (
            errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN)
        out['verdict'] = 'inconclusive' if full else 'error'
        out['msg'] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out['counts'] = mon.counts
    out['states'] = sorted(mon.states)
    out['nontrivial'] = bool(mon.nontrivial)
    out['s'] = time.time() - t0
    return out


def _alone(ctx, modname, spec):
    """Run one case in a process of its own, again if that dies. None if
    that does not decide anything."""
    for n in range(2):
        ex = ProcessPoolExecutor(1, mp_context=ctx, initializer=_init_worker,
                                 initargs=(modname,))
        try:
            return ex.submit(_run_case, spec).result(200)
        except BrokenProcessPool:
            pass
        except Exception:
            return None
        finally:
            for p in list((ex._processes or {}).values()):
                with contextlib.suppress(Exception):
                    p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
    return {'spec': spec, 'verdict': 'violated', 'counts': {}, 'states': [],
            'nontrivial': False, 's': 0,
            'msg': 'the process that runs the case dies, twice'}


def spec_key(spec):
    s = {k: v for k, v in spec.items() if k != 'seed'}
    return hashlib.md5(json.dumps([s, spec.get('seed')],
                                  sort_keys=True).encode()).hexdigest()


def short(spec):
    s = json.dumps(spec, sort_keys=True)
    return s if len(s) < 600 else s[:600] + '...'


def unusable(pid, rpdir, spec, msg):
    """The code cannot even be imported."""
    os.makedirs(rpdir, exist_ok=True)
    path = os.path.join(rpdir, '%s-import.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'spec': spec, 'message': msg}, f)
    print(msg[-3000:])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def run_check(pid, tier, seed, replay=None):
    global _TOP
    _TOP = tempfile.mkdtemp(prefix='wmv.')
    try:
        return _run_check(pid, tier, seed, replay)
    finally:
        shutil.rmtree(_TOP, ignore_errors=True)


def _run_check(pid, tier, seed, replay):
    t0 = time.time()
    mod = importlib.import_module('wmv.checks.' + pid.lower())
    global _MOD
    _MOD = mod
    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(HERE, 'replays')
    os.makedirs(evdir, exist_ok=True)
    if replay:
        with open(replay) as f:
            specs = [json.load(f)['spec']]
    else:
        rng = random.Random('%s/%s/%s' % (pid, tier, seed))
        specs = list(mod.cases(rng, tier))
    limit = 780 if tier == 'thorough' else 240
    limit = float(os.environ.get('WMV_LIMIT', limit))
    workers = min(getattr(mod, 'WORKERS', 8), 8, max(1, len(specs)))
    results = []
    pending_err = None
    if replay:
        sys.dont_write_bytecode = True
        results = [_run_case(specs[0])]
    else:
        # slow checks may declare that their cases start processes themselves
        ctx = multiprocessing.get_context('fork')
        try:
            if hasattr(mod, 'preload'):
                mod.preload()
        except Exception:
            return unusable(pid, rpdir, specs[0], traceback.format_exc())
        sys.dont_write_bytecode = True
        ex = ProcessPoolExecutor(workers, mp_context=ctx,
                                 initializer=_init_worker,
                                 initargs=(mod.__name__,))
        it = iter(specs)
        live = {}
        stop = False
        try:
            while True:
                while not stop and len(live) < workers * 2:
                    try:
                        spec = next(it)
                    except StopIteration:
                        break
                    live[ex.submit(_run_case, spec)] = spec
                if not live:
                    break
                left = limit - (time.time() - t0)
                if left <= 0:
                    stop = True
                    if time.time() - t0 > limit + 60:
                        pending_err = 'cases still running at the time limit'
                        break
                done, _ = wait(live, timeout=max(1.0, min(left, 5.0)),
                               return_when=FIRST_COMPLETED)
                for f in done:
                    results.append(f.result())
                    del live[f]
                if sum(r['verdict'] == 'violated' for r in results) >= 3:
                    break
        except BrokenProcessPool:
            # which case was it?
            pending_err = 'a worker process died'
            for spec in list(live.values()):
                r = _alone(ctx, mod.__name__, spec)
                if r is not None:
                    results.append(r)
                if r is not None and r['verdict'] == 'violated':
                    break
        finally:
            procs = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                with contextlib.suppress(Exception):
                    p.kill()
    counts = {}
    states = set()
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
    bad = [r for r in results if r['verdict'] == 'violated']
    inc = [r for r in results if r['verdict'] == 'inconclusive']
    nontriv = {spec_key(r['spec']) for r in results if r['nontrivial']}
    samples = [r for r in results if r['nontrivial']][:4] or results[:3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(nontriv),
            'rule': ' '.join(mod.RULE.split()),
            'samples': [{'case': short(r['spec']), 'observed': r['counts']}
                        for r in samples],
            'monitor_counts': counts,
            'distinct_states': len(states),
            'cases_planned': len(specs),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    if not replay:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%s: %d cases (%d nontrivial), %d violated, '
          '%d inconclusive, %.1f s, %s' % (
              pid, tier, seed, len(results), len(nontriv), len(bad),
              len(inc), time.time() - t0,
              ' '.join('%s=%d' % kv for kv in sorted(counts.items()))))
    if bad:
        os.makedirs(rpdir, exist_ok=True)
        for r in bad[:3]:
            name = '%s-%s.json' % (pid, spec_key(r['spec'])[:10])
            path = os.path.join(rpdir, name)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'spec': r['spec'],
                           'message': r['msg'],
                           'rerun': './run_check %s --replay %s' % (
                               pid, path)}, f, indent=1)
            print('case %s\n%s' % (short(r['spec']), r['msg'][:3000]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if pending_err:
        print('INCONCLUSIVE', pending_err)
        return 3
    if inc:
        for r in inc[:3]:
            print('INCONCLUSIVE %s\n%s' % (short(r['spec']), r['msg'][:3000]))
        return 3
    if not replay:
        need = getattr(mod, 'MIN_COUNTS', {})
        for k, v in need.items():
            if counts.get(k, 0) < v:
                print('INCONCLUSIVE monitor %s observed %d < %d events' % (
                    k, counts.get(k, 0), v))
                return 3
        if len(nontriv) < getattr(mod, 'MIN_NONTRIVIAL', 1):
            print('INCONCLUSIVE only %d non-trivial cases' % len(nontriv))
            return 3
    return 0
