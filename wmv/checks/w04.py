"""Parallel runs against serial ones."""

import os
import shutil

from wmv import gen, mpirun, pipeline
from wmv.common import REPO
from wmv.pipeline import complete, same, values

RULE = '''all_multipliers.py is run as 2 to 12 real processes that exchange
messages through a router with random delays, late starters and slow
files, over random
inputs (1 to 6 tiles, empty ones, tiles without mapped land cover, an output
folder of an earlier run), and once serially. All output rasters must be
equal, all processes end with status 0, and the log tells so, each process keeping its own. Non-trivial: at least one non-empty
tile.'''
ASSUMPTIONS = ['the message layer is a stand-in for mpi4py with the same '
               'interface (mpi4py is not installed here)']
MIN_COUNTS = {'mpiruns': 7, 'messages': 40, 'compared_files': 200}
MIN_NONTRIVIAL = 5
WORKERS = 4
preload = pipeline.preload


def cases(rng, tier):
    n = 9 if tier == 'quick' else 200
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'size': [2, 3, 5, 12, 7, 2, 4][
            i % 7], 'stale': i % 9 in (1, 4, 5, 7), 'convert': i % 4 == 3}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    px = float(r.choice([1 / 12., 1 / 15.]))
    case = pipeline.small(r, mon.tmp, px=px)
    pipeline.run(mon, case)
    tiles = complete(mon, case)
    serial = values(case.out)
    os.rename(case.out, case.root + '/serial')
    shutil.rmtree(case.root + '/log')
    if spec['stale']:
        os.makedirs(case.out + '/terrain')
        os.makedirs(case.out + '/M3')
        for f in ('terrain/e1s1_mz_n.nc', 'M3/old.tif', 'note.txt'):
            with open(os.path.join(case.out, f), 'w') as fh:
                fh.write('old')
    lag = float(r.choice([0, .02, .1]))
    st, out, router = mpirun.mpirun(
        mon, spec['size'], [os.path.join(REPO, 'all_multipliers.py'), '-c',
                            case.cfg], case.root, spec['seed'], lag,
        slow=.4 if spec['stale'] else 0)
    what = '%d processes, %d non-empty tiles: ' % (spec['size'], len(tiles))
    mon.count('messages', router.messages)
    bad = [k for k, s in enumerate(st) if s]
    if bad:
        first = [k for k in bad if st[k] is not None] or bad
        mon.fail(what + 'statuses %s\n%s' % (st, out[first[0]][-2500:]))
    complete(mon, case)
    same(mon, values(case.out), serial, what + 'parallel and serial output')
    log = pipeline.tail(case.root + '/log/m.log', 10 ** 7)
    mon.check('Successfully converted' in log, what + 'the log file does not '
              'tell the end of the run: %r', log[-300:])
    # each process has a log of its own, and started it once
    logs = sorted(os.listdir(case.root + '/log'))
    mon.check(len(logs) == spec['size'], what + 'log files %s', logs)
    for f in logs:
        n = pipeline.tail(case.root + '/log/' + f, 10 ** 7).count('(pid ')
        mon.check(n == 1, what + 'log file %s tells of %d processes', f, n)
        mon.count('logs')
    left = set(os.listdir(case.root)) - {'in', 'out', 'log', 'run.cfg',
                                         'serial'}
    mon.check(not left, what + 'files left beside the output: %s', left)
    if spec['convert'] and tiles:
        for d in ('M3', 'M3_max'):
            for f in os.listdir(os.path.join(case.out, d)):
                os.remove(os.path.join(case.out, d, f))
            os.rmdir(os.path.join(case.out, d))
        st, out, router = mpirun.mpirun(
            mon, spec['size'], ['-m', 'utilities.mpi_runner', '-p',
                                case.out], case.root, spec['seed'], lag)
        mon.check(not any(st), what + 'converter statuses %s: %s', st, out)
        mon.count('messages', router.messages)
        same(mon, values(case.out), serial, what + 'converted in parallel')
        mon.count('conversions')
    mon.state(spec['size'], len(tiles), tuple(router.order))
    mon.nontrivial = len(tiles) > 0
