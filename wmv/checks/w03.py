"""Distribution of the conversion over processes."""

import contextlib
import os
import random
from unittest import mock

import numpy as np

from wmv import gen, mpirun, pipeline, raster, simmpi, tiles

RULE = '''The conversion of 0 to 12 (sometimes up to 48) random tiles is run on a simulated
communicator of 1 to 16 ranks (more and fewer than tiles) in random
interleavings; some runs are of real processes (the conversion program) with
hash seeds of their own. Folders are listed in random order. Writes of rasters are
recorded with the rank that does them. All tiles must be converted once, whichever rank had them,
and the mosaics must list each tile once. Non-trivial: at least two
ranks.'''
ASSUMPTIONS = ['ranks are threads, one running at a time, or processes that '
               'talk through a stand-in for mpi4py']
MIN_COUNTS = {'runs': 40, 'tiles': 100, 'idle_ranks': 10, 'mpiruns': 4,
              'partial_tiles': 5}
MIN_NONTRIVIAL = 20
preload = pipeline.preload


def cases(rng, tier):
    n = 56 if tier == 'quick' else 1500
    sizes = [1, 2, 3, 4, 5, 7, 8, 16]
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'size': sizes[i % len(sizes)],
               'n': [0, 1, 2, 3, 5, 6, 8, 12][(i // 8 + 5 * i) % 8]}
        if i % 28 == 5:
            yield {'seed': rng.randrange(1 << 30),
                   'size': rng.choice([3, 5, 11, 16, 32]),
                   'n': rng.randrange(17, 49)}
        if i % 9 == 3:
            yield {'seed': rng.randrange(1 << 30), 'size': 2 + i % 3,
                   'n': [5, 8, 12, 3][i // 9 % 4], 'real': True}


def watching(mon, st, root, world):
    """Record which rank writes which raster under root."""
    from osgeo import gdal
    wrote = {}

    def hook(owner, name, at):
        real = getattr(owner, name)

        def call(*a, **k):
            dst = a[at] if len(a) > at else None
            if isinstance(dst, str) and dst.startswith(root):
                wrote.setdefault(dst, []).append((world.local.rank, name))
            return real(*a, **k)
        st.enter_context(mock.patch.object(owner, name, call))
    hook(gdal, 'Translate', 0)
    hook(gdal, 'Warp', 0)
    for name in ('Create', 'CreateCopy'):
        hook(gdal.Driver, name, 1)
    return wrote


def simulated(mon, spec, root, what):
    from utilities import mpi_runner
    size = spec['size']
    rng = random.Random(spec['seed'])
    world = simmpi.World(size, simmpi.Chooser((), rng), rng.random() < .5,
                         False)
    comm = simmpi.MPI(world).COMM_WORLD
    listdir = os.listdir

    def shuffled(*a):
        names = listdir(*a)
        rng.shuffle(names)
        return names
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(os, 'listdir', shuffled))
        wrote = watching(mon, st, root, world)
        try:
            world.run(lambda k: mpi_runner.parallelise_convert_on_tiles(
                root, comm))
        except simmpi.Deadlock as e:
            mon.fail(what + 'the ranks do not finish: %s' % e)
    for f, by in sorted(wrote.items()):
        mon.check(len({k for k, _ in by}) == 1 and len(by) == len(set(by)),
                  what + '%s is written more than once: (rank, call) %s',
                  os.path.relpath(f, root), by)
    mon.count('watched_writes', len(wrote))
    for k, e in sorted(world.errors.items()):
        mon.fail(what + 'rank %d raised %s: %s' % (k, type(e).__name__, e))
    mon.check(not world.mail, what + 'messages never received')
    mon.state(size, spec['n'], tuple(world.log), tuple(
        c for c, _ in world.choose.trace))


def real(mon, spec, root, what):
    st, out, router = mpirun.mpirun(
        mon, spec['size'], ['-m', 'utilities.mpi_runner', '-p', root],
        mon.tmp, spec['seed'])
    mon.check(not any(st), what + 'processes end with statuses %s: %s', st,
              out)
    mon.state(spec['size'], spec['n'], tuple(router.order))


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    size, n = spec['size'], spec['n']
    root = os.path.join(mon.tmp, 'out_%d' % spec['seed'])
    ts = tiles.TileSet(r, root, n, (int(r.integers(2, 7)),
                                    int(r.integers(2, 7))),
                       gone=float(r.choice([0, .3])))
    mon.count('partial_tiles', len({k[0] for k in ts.lostfiles}))
    what = '%d tiles on %d ranks: ' % (n, size)
    (real if spec.get('real') else simulated)(mon, spec, root, what)
    exp = {name + '.tif' for name in ts.vals}
    for folder, bands in (('M3', 8), ('M3_max', 1)):
        base = os.path.join(root, folder)
        files = set(os.listdir(base))
        mon.check(files - {'wind-multipliers.vrt'} == exp,
                  what + '%s holds %s, expected %s', folder, sorted(files),
                  sorted(exp))
        if not n:
            continue
        v = raster.read(base + '/wind-multipliers.vrt')
        listed = sorted(os.path.basename(f) for f in v['files']
                        if f.endswith('.tif'))
        mon.check(listed == sorted(exp), what + '%s mosaic lists %s', folder,
                  listed)
        with open(base + '/wind-multipliers.vrt') as f:
            text = f.read()
        for t in exp:
            mon.check(text.count(t) == v['n'], what + '%s mosaic has tile '
                      '%s %d times in %d bands', folder, t, text.count(t),
                      v['n'])
    for name in ts.vals:
        got = raster.read(root + '/M3/%s.tif' % name)['a']
        want = np.array([ts.product(name, d) for d in tiles.BANDS])
        mon.check(got.shape == want.shape and
                  (abs(got - want) < 1e-4).all(),
                  what + 'tile %s differs from the product of its '
                  'multipliers', name)
        mon.count('tiles')
    mon.count('runs')
    mon.count('idle_ranks', max(0, size - n))
    mon.nontrivial = size > 1
