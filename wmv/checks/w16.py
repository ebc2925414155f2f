"""The maximum over directions, and the mosaics."""

import os

import numpy as np

from wmv import gen, pipeline, raster, simmpi, tiles

RULE = '''Random multiplier files on a grid of 1 to 9 tiles (some tiles left
out, so that the grid has holes) are converted on 1 to 4 ranks. Each cell of
M3_max is compared with the largest product of the 8 directions, each cell
of the two mosaics with the tile at its place. Non-trivial: several tiles
with missing cells.'''
MIN_COUNTS = {'cells': 3000, 'partly_missing': 500, 'all_missing': 50,
              'mosaic_cells': 50000, 'holes': 5}
MIN_NONTRIVIAL = 10
preload = pipeline.preload


def cases(rng, tier):
    n = 48 if tier == 'quick' else 1500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'size': [1, 2, 1, 4][i % 4]}


def run_case(spec, mon):
    import random
    from utilities import mpi_runner
    r = gen.nprng(spec['seed'])
    root = os.path.join(mon.tmp, 'out')
    n = int(r.integers(1, 10))
    shape = int(r.integers(2, 16)), int(r.integers(2, 16))
    ts = tiles.TileSet(r, root, n, shape, missing=float(r.choice([0, .1, .6])),
                       grid=True, ragged=True)
    u = r.random()
    for name in list(ts.vals):
        if len(ts.vals) > 1 and r.random() < .25:
            for k, d in list(ts.vals[name]):
                p = ts.path(name, k, d)
                if os.path.exists(p):
                    os.remove(p)
            del ts.vals[name]
            mon.count('holes')
        elif u < .6:
            # a lake: missing in all directions
            i, j = int(r.integers(0, shape[0])), int(r.integers(0, shape[1]))
            x, y, h, w = ts.where[name]
            for (k, d), v in ts.vals[name].items():
                if k == 'Mz':
                    v[i:i + 4, j:j + 4] = -9999
                    raster.write_nc(ts.path(name, k, d), k, v, x, y, ts.px,
                                    ts.py)
    world = simmpi.World(spec['size'], simmpi.Chooser((), random.Random(
        spec['seed'])), False, True)
    comm = simmpi.MPI(world).COMM_WORLD
    world.run(lambda k: mpi_runner.parallelise_convert_on_tiles(root, comm))
    for k, e in world.errors.items():
        mon.fail('rank %d raised %s: %s' % (k, type(e).__name__, e))
    want8, want1 = {}, {}
    for name in ts.vals:
        p = np.stack([ts.product(name, d) for d in tiles.BANDS])
        want8[name] = p
        want1[name] = p.max(axis=0)
        miss = (p == -9999).sum(axis=0)
        mon.count('partly_missing', ((miss > 0) & (miss < 8)).sum())
        mon.count('all_missing', (miss == 8).sum())
        d = raster.read(os.path.join(root, 'M3_max', name + '.tif'))
        x, y, h, w = ts.where[name]
        mon.check(d['n'] == 1 and d['size'] == (h, w) and
                  d['nodata'] == [-9999.],
                  'M3_max/%s.tif: %d bands of %s cells, missing value %s',
                  name, d['n'], d['size'], d['nodata'])
        mon.check(tiles.placed(d['gt'], x, y, ts.px, ts.py),
                  'M3_max/%s.tif is at %s', name, d['gt'])
        mon.check('4326' in d['proj'] or 'WGS' in d['proj'],
                  'M3_max/%s.tif: projection %s', name, d['proj'])
        bad = abs(d['a'] - want1[name]) > 1e-6 * abs(want1[name])
        mon.count('cells', bad.size)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('M3_max/%s.tif: cell (%d, %d) is %r, the directions '
                     'are %s' % (name, i, j, d['a'][i, j], p[:, i, j]))
    x0 = min(ts.where[k][0] for k in ts.vals)
    y0 = max(ts.where[k][1] for k in ts.vals)
    for folder, want in (('M3', want8), ('M3_max', want1)):
        v = raster.read(os.path.join(root, folder, 'wind-multipliers.vrt'))
        mon.check(tiles.placed(v['gt'], x0, y0, ts.px, ts.py),
                  '%s mosaic is at %s', folder, v['gt'])
        mon.check('4326' in v['proj'] or 'WGS' in v['proj'],
                  '%s mosaic: projection %s', folder, v['proj'])
        mon.check(v['n'] == (8 if folder == 'M3' else 1) and
                  set(v['nodata']) == {-9999.}, '%s mosaic: %d bands, '
                  'missing value %s', folder, v['n'], v['nodata'])
        full = np.full((v['n'],) + v['size'], -9999.)
        for name in ts.vals:
            x, y, h, w = ts.where[name]
            j, i = int(round((x - x0) / ts.px)), int(round((y0 - y) / ts.py))
            mon.check(i + h <= full.shape[1] and j + w <= full.shape[2],
                      '%s mosaic of %s cells does not hold tile %s', folder,
                      v['size'], name)
            full[:, i:i + h, j:j + w] = want[name]
        g = v['a'].reshape(full.shape)
        bad = abs(g - full) > 1e-6 * abs(full)
        mon.count('mosaic_cells', bad.size)
        if bad.any():
            b, i, j = np.argwhere(bad)[0]
            mon.fail('%s mosaic of %d tiles: cell (%d, %d) of band %d is %r, '
                     'expected %r (%d differ)' % (
                         folder, len(ts.vals), i, j, b + 1, g[b, i, j],
                         full[b, i, j], bad.sum()))
    mon.state(spec['size'], len(ts.vals), shape)
    mon.nontrivial = len(ts.vals) > 1
