"""Distribution of tiles over processes."""

import contextlib
import os
import random
import shutil
import sys
import types
from unittest import mock

import numpy as np

from wmv import raster, simmpi, tilecalc
from wmv.common import Violation

RULE = '''The tile distribution runs on a simulated communicator with 1 to 24
ranks and 0 to 60 tiles: for small numbers all orders in which results can
reach rank 0 are enumerated, for the others random interleavings, with
buffered and with synchronous sends. The monitor records every tile cut,
sent and computed. Whole runs (all_multipliers.run with its tiling, output
folders and conversion, the computation of a tile replaced by a recorder that
other ranks can overtake, as can those who delete folders) must compute all
tiles before any is converted. Non-trivial: at least two workers whose results could
arrive in different orders.'''
ASSUMPTIONS = ['messages between two ranks are not reordered (as MPI '
               'guarantees)',
               'a worker that fails ends the whole job (as MPI does by '
               'default) and is not simulated']
MIN_COUNTS = {'schedules': 1000, 'tiles_computed': 4000, 'complete_spaces': 5,
              'order_choices': 2000, 'spare_ranks': 10, 'whole_runs': 15}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload


def cases(rng, tier):
    big = tier == 'thorough'
    for size in range(1, 6 if not big else 7):
        for n in range(0, 7 if not big else 9):
            for sync in (False, True):
                yield {'kind': 'all', 'size': size, 'n': n, 'sync': sync,
                       'limit': 150 if not big else 20000, 'seed': 0}
    for i in range(120 if not big else 4000):
        yield {'kind': 'random', 'seed': rng.randrange(1 << 30),
               'runs': 6 if not big else 15}
        if i % 3 == 0:
            yield {'kind': 'run', 'seed': rng.randrange(1 << 30)}


def simulate(mon, size, n, sync, eager, choose, empty=()):
    import all_multipliers as am
    import utilities.parallel as par
    world = simmpi.World(size, choose, sync, eager)
    mpi = simmpi.MPI(world)
    am.MPI = par.MPI = mpi
    am.comm = mpi.COMM_WORLD
    tiles = [['t%d' % i, (i, 0, i + 1, -1), (i, 0, i + 1, -1)]
             for i in range(n)]
    cut, done, order = {}, {}, []

    class Probe(am.Multipliers):
        def open_dem(self):
            self.dem_ds = self.probe_open = 'open'

        def cut_dem(self, tile_info):
            mon.check(getattr(self, 'probe_open', None),
                      'tile cut before the DEM is open')
            name = tile_info[0]
            cut[name] = cut.get(name, 0) + 1
            return 'dem-of-' + name

        def multipliers_calculate(self, dem, tile_info):
            name = tile_info[0]
            mon.check(dem == 'dem-of-' + name, 'tile %s was computed with '
                      'the DEM %s', name, dem)
            mon.check(list(tile_info) in tiles, 'unknown tile %s', tile_info)
            mon.check(name in cut, 'tile %s computed before it was cut',
                      name)
            done.setdefault(name, []).append(world.local.rank)
            order.append((name, world.local.rank))

    after = []

    told = []

    def rank(r):
        m = Probe('lc', 'dem')
        m.parallelise_on_tiles([list(t) for t in tiles], **(
            {'progress_callback': told.append} if n % 2 else {}))
        am.comm.barrier()
        after.append((r, len(done)))
    ident = '%d ranks, %d tiles, %s sends: ' % (
        size, n, 'synchronous' if sync else 'buffered')
    try:
        world.run(rank)
    except simmpi.Deadlock as e:
        mon.fail(ident + 'the ranks do not finish: %s' % e)
    for r, e in sorted(world.errors.items()):
        if isinstance(e, Violation):
            mon.fail(ident + str(e))
        mon.fail(ident + 'rank %d raised %s: %s' % (
            r, type(e).__name__, e))
    names = [t[0] for t in tiles]
    mon.check(sorted(done) == sorted(names), ident + 'tiles never computed: '
              '%s', sorted(set(names) - set(done)))
    twice = {k: v for k, v in done.items() if len(v) > 1}
    mon.check(not twice, ident + 'tiles computed more than once: %s', twice)
    mon.check(all(v == 1 for v in cut.values()),
              ident + 'tiles cut more than once: %s', cut)
    mon.check(not world.mail, ident + 'messages never received: %s',
              [m[:3] for m in world.mail])
    if n % 2:
        mon.check(len(told) == n and told == sorted(told) and
                  all(0 <= v <= n for v in told), ident + 'progress was '
                  'told as %s', told)
        mon.count('progress', len(told))
    mon.check(len(after) == size and all(k == n for _, k in after),
              ident + 'ranks passed the barrier after %s tiles', after)
    if size > 2 and n >= size - 1:
        used = {w for v in done.values() for w in v}
        mon.check(len(used) == size - 1, ident + 'only ranks %s got work',
                  sorted(used))
    mon.count('schedules')
    mon.count('messages', world.sent)
    mon.count('tiles_computed', len(order))
    mon.count('order_choices', world.choices)
    mon.count('spare_ranks', max(0, size - 1 - n))
    mon.state(size, n, sync, tuple(order))
    return world


def whole_run(spec, mon):
    """The program on a simulated communicator."""
    import all_multipliers as am
    rng = random.Random(spec['seed'])
    size = rng.choice([2, 2, 3, 4, 6])
    rows, cols = rng.choice([8, 12, 25]), rng.choice([8, 15, 22, 34])
    dem = np.full((rows, cols), 20.)
    demfile = raster.write(mon.tmp + '/dem.tif', dem, 140, -20, .1)
    out = mon.tmp + '/out'
    if rng.random() < .6:
        os.makedirs(out + '/shielding')
        open(out + '/shielding/e1s1_ms_n.nc', 'w').close()
        os.makedirs(out + '/M3')
    cfg = tilecalc.write_cfg(mon.tmp + '/c.cfg', up=.1, dem=demfile,
                             lc=demfile, out=out, log=mon.tmp + '/log/m.log')
    world = simmpi.World(size, simmpi.Chooser((), rng), rng.random() < .3,
                         False)
    fake = types.ModuleType('mpi4py')
    fake.MPI = simmpi.MPI(world)
    computed, early = [], []
    tile_nc = mon.tmp + '/tile.nc'
    raster.write_nc(tile_nc, 'Ms', np.full((2, 2), .9), 140., -20., .1)
    n = -(-rows // 10) * -(-cols // 10)
    ident = '%d processes, %d tiles: ' % (size, n)

    def calc(self, dem, tile_info):
        world._block('compute', lambda: True)
        for d in raster.DIRS:
            shutil.copyfile(tile_nc, '%s/shielding/%s_ms_%s.nc' % (
                out, tile_info[0], d))
        world._block('compute', lambda: True)
        if os.path.exists(dem):
            os.remove(dem)
        early.extend(os.listdir(out + '/M3'))
        computed.append(tile_info[0])

    def pausing(fn):
        def wrapped(*a, **k):
            if getattr(world.local, 'rank', None) is not None:
                world._block('files', lambda: True)
                mon.count('file_pauses')
            return fn(*a, **k)
        return wrapped

    with contextlib.ExitStack() as st:
        for o, name, new in (
                (am.Multipliers, 'multipliers_calculate', calc),
                (shutil, 'rmtree', pausing(shutil.rmtree)),
                (os, 'makedirs', pausing(os.makedirs)),
                (sys, 'argv', ['all_multipliers.py', '-c', cfg])):
            st.enter_context(mock.patch.object(o, name, new))
        st.enter_context(mock.patch.dict(sys.modules, {
            'mpi4py': fake, 'mpi4py.MPI': fake.MPI}))
        try:
            world.run(lambda r: am.run())
        except simmpi.Deadlock as e:
            mon.fail(ident + 'the ranks do not finish: %s' % e)
    for r, e in sorted(world.errors.items()):
        mon.fail(ident + 'rank %d: %s: %s' % (r, type(e).__name__, e))
    mon.check(len(computed) == len(set(computed)) == n,
              ident + 'computed %s', sorted(computed))
    mon.check(not early, ident + 'tiles are converted when others are not '
              'computed: %s', early)
    for sub in ('M3', 'M3_max'):
        converted = sorted(f[:-4] for f in os.listdir(out + '/' + sub)
                           if f.endswith('.tif'))
        mon.check(converted == sorted(computed), ident + 'computed %s, '
                  'converted to %s: %s', sorted(computed), sub, converted)
    mon.check(not world.mail, ident + 'messages never received: %s',
              [m[:3] for m in world.mail])
    mon.count('whole_runs')
    mon.state('run', size, n, tuple(world.log))
    mon.nontrivial = size > 2


def run_case(spec, mon):
    if spec['kind'] == 'run':
        return whole_run(spec, mon)
    if spec['kind'] == 'all':
        k = []

        def one(ch):
            k.append(simulate(mon, spec['size'], spec['n'], spec['sync'],
                              True, ch).choices)
        n, whole = simmpi.explore(one, spec['limit'])
        mon.count('complete_spaces' if whole else 'cut_spaces')
        mon.nontrivial = max(k) > 0
        return
    rng = random.Random(spec['seed'])
    for _ in range(spec['runs']):
        size = rng.choice([1, 2, 3, 4, 5, 8, 12, 24, 40])
        n = rng.choice([0, 1, 2, 3, 5, size - 2, size - 1, size, size + 1,
                        2 * size, 30, 60, rng.choice([60, 130, 300])])
        w = simulate(mon, size, max(0, n), rng.random() < .5,
                     rng.random() < .4,
                     simmpi.Chooser((), rng))
        mon.nontrivial |= w.choices > 0
