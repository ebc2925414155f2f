"""Completeness of a run, and recovery from a killed one."""

import logging
import os
import signal

import numpy as np

from wmv import gen, pipeline, raster
from wmv.pipeline import complete, same, snapshot, values

RULE = '''Whole runs on random inputs (1 to 6 tiles, empty tiles, tiles without
mapped land cover, barely any land, cells of different sizes): the files under the output
folder must be exactly those of the non-empty tiles, the inputs and the
folders around stay as they were. Some runs are killed (SIGKILL) at a random
event of their log and run again, start over the output of a different run,
or convert again with the converter program; the outcome must be that of
one clean run. Non-trivial: at least two tiles, or a kill.'''
ASSUMPTIONS = ['kill points are the log events of the program (before every '
               'step that writes files), not every instruction']
MIN_COUNTS = {'runs': 20, 'nonempty_tiles': 30, 'empty_tiles': 3, 'kills': 5, 'litter': 4, 'unmapped_tiles': 3,
              'vrt_tiles': 30}
MIN_NONTRIVIAL = 10
preload = pipeline.preload


def cases(rng, tier):
    n = 40 if tier == 'quick' else 900
    kinds = ['plain', 'kill', 'stale', 'unmapped', 'kill', 'reconvert',
             'empty', 'low', 'unmapped', 'low', 'low', 'stale']
    lows = 0
    sorts = [6, 0, 1, 6, 2, 3, 6, 4, 5]
    for i in range(n):
        k = kinds[i % len(kinds)]
        lows += k == 'low'
        yield {'seed': rng.randrange(1 << 30), 'kind': k,
               'low': sorts[lows % 9]}


def kill_hook(count, at):
    """Kill this process at its at-th log event (0: only count them, into a
    file)."""
    state = {'n': 0}
    real = logging.Logger.handle

    def handle(self, record):
        state['n'] += 1
        if at and state['n'] == at:
            os.kill(os.getpid(), signal.SIGKILL)
        if count and state['n'] % 8 == 0:
            with open(count, 'w') as f:
                f.write(str(state['n']))
        return real(self, record)

    def install():
        logging.Logger.handle = handle
    return install


def low(r, dem, k):
    """Land that is barely there."""
    if k == 0:          # a fraction of a metre
        a = (r.random(dem.shape) * .4).astype('f4') + 0.01
    elif k == 1:        # above and below the sea: zero on the whole
        a = np.ones(dem.shape, 'f4')
        a[:, 1::2] = -1
    elif k == 5:        # as high above as below, side by side
        a = np.zeros(dem.shape, 'f4')
        for _ in range(int(r.integers(1, 4))):
            i = int(r.integers(0, a.shape[0]))
            j = int(r.integers(0, a.shape[1] - 1))
            a[i, j:j + 2] = [7, -7]
    elif k == 6:        # a single cell of land
        a = np.zeros(dem.shape, 'f4')
        a[int(r.integers(0, a.shape[0])),
          int(r.integers(0, a.shape[1]))] = r.choice([.2, 1, -3, 256])
    elif k == 2:        # below the sea
        a = -np.abs(dem) - 1
    elif k == 3:        # a few cells of land in the sea
        a = np.zeros(dem.shape, 'f4')
        for _ in range(int(r.integers(1, 5))):
            a[int(r.integers(0, a.shape[0])),
              int(r.integers(0, a.shape[1]))] = r.choice([.2, 1, -3, 256])
    else:               # multiples of 65536
        a = r.integers(-1, 2, dem.shape).astype('f4') * 65536
        a[0, 0] = 65536
    return a.astype('f4')


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    kind = spec['kind']
    outside = os.path.join(mon.tmp, 'outside')
    os.makedirs(outside + '/sub')
    for f in ('a.txt', 'sub/b.txt'):
        with open(os.path.join(outside, f), 'w') as fh:
            fh.write('keep')
    case = pipeline.small(r, mon.tmp, empty=kind == 'empty' or None,
                          maxtiles=4 if kind in ('kill', 'stale') else 6,
                          relative=bool(r.random() < .3))
    if kind == 'empty' and r.random() < .4:
        case.dem[:] = 0
        raster.write(case.demfile, case.dem, case.x0, case.y0, case.px,
                     case.py, 'f4')
    if kind == 'unmapped':
        case.lc[:, :case.lc.shape[1] // 2 + 2] = 9999
        if r.random() < .5:
            case.lc[:] = 9999
        raster.write(case.lcfile, case.lc, case.x0, case.y0, case.px,
                     case.py, 'f4')
    if kind == 'low':
        case.dem = low(r, case.dem, spec['low'])
        raster.write(case.demfile, case.dem, case.x0, case.y0, case.px,
                     case.py, 'f4')
    inputs = snapshot(case.root + '/in')
    away = snapshot(mon.tmp, (case.root,))
    hook = None
    clean = None
    if kind == 'stale':
        other = pipeline.small(r, mon.tmp, sub='other', maxtiles=4,
                               out=case.out)
        pipeline.run(mon, other)
        # what killed runs and users leave
        os.makedirs(case.out + '/old/M3')
        for f in ('terrain/e1.0s1.0_mz_n.nc', 'e1.0s1.0.img', 'notes.txt',
                  'e1.0s1.0_dem.img', 'e1.0s1.0_dem.img.aux.xml',
                  'M3/e1.0s1.0.tif', 'M3_max/wind-multipliers.vrt',
                  'old/M3/x', 'shielding/e1.0s1.0_ms.img',
                  'topographic/x_y.nc'):
            if r.random() < .4:
                with open(os.path.join(case.out, f), 'w') as fh:
                    fh.write('stale')
                mon.count('litter')
        away = snapshot(mon.tmp, (case.root,))
    elif kind == 'kill':
        n = os.path.join(mon.tmp, 'events')
        pipeline.run(mon, case, hook=kill_hook(n, 0))
        complete(mon, case)
        clean = values(case.out)
        total = int(pipeline.tail(n) or 8)
        at = int(r.integers(2, total + 1))
        rc, _ = pipeline.run(mon, case, must=False, hook=kill_hook(None, at))
        mon.check(rc in (0, -9), 'killed run ended with %r', rc)
        mon.count('kills', rc == -9)
        mon.state('kill', at)
        away = snapshot(mon.tmp, (case.root,))
    pipeline.run(mon, case, hook=hook)
    want = complete(mon, case)
    if clean is not None:
        same(mon, values(case.out), clean, 'run again after a kill')
    if kind == 'reconvert' and want:
        before = values(case.out)
        if r.random() < .5:
            for f in sorted(os.listdir(case.out + '/M3'))[::2]:
                os.remove(case.out + '/M3/' + f)
        rc, out = pipeline.command(
            mon, ['-m', 'utilities.mpi_runner', '-p', case.out], case.root)
        mon.check(rc == 0, 'the converter failed: %s', out[-2000:])
        complete(mon, case)
        same(mon, values(case.out), before, 'converted again')
        mon.count('reconversions')
    mon.check(snapshot(case.root + '/in') == inputs, 'the inputs changed: '
              '%s', sorted(set(snapshot(case.root + '/in').items()) ^
                           set(inputs.items()))[:6])
    now = {k: v for k, v in snapshot(mon.tmp, (case.root,)).items()
           if not k.startswith('run')}
    away = {k: v for k, v in away.items() if not k.startswith('run')}
    mon.check(now == away, 'files outside the output folder changed: %s',
              sorted(set(now.items()) ^ set(away.items()))[:6])
    left = set(os.listdir(case.root)) - {'in', 'out', 'log', 'run.cfg'}
    mon.check(not left, 'files left beside the output: %s', sorted(left))
    mon.nontrivial = len(want) > 1 or kind == 'kill'
