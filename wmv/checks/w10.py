"""Slope and facing from ground distances."""

import numpy as np

from wmv import gen, raster, ref, tilecalc

RULE = '''Random DEMs (planes of every bearing and steepness, hills, cliffs,
noise, integer and float, latitudes 60S to 60N, oblong cells) through the
slope and aspect computation: slope of each cell against a reference with
geodetic cell sizes, and the compass sector it faces. Planes must have
their analytic slope and bearing. Non-trivial: at least one cell steeper
than 1 degree.'''
ASSUMPTIONS = ['aspect is compared for cells steeper than 0.001 degrees and '
               'more than 0.02 degrees from a sector border; on the border it may be '
               'of either sector']
MIN_COUNTS = {'missing': 100, 'big_tiles': 1, 'slopes': 20000, 'sectors': 10000, 'planes': 5, 'bearings': 3000}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload


def cases(rng, tier):
    n = 200 if tier == 'quick' else 5000
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'plane': i % 3 == 0,
               'big': i % 60 == 9}


def bearings(r, mon):
    """Bearings as numbers, those on the border of sectors included."""
    from shielding import shield_mult
    a = np.concatenate([np.arange(0, 360, 22.5), [360., 359.999999],
                        r.uniform(0, 360, 40)])
    r.shuffle(a)
    got = mon.code(shield_mult.reclassify_aspect, a.copy())
    mon.count('bearings', a.size)
    for x, g in zip(a, got):
        ok = {int((x + 22.5 + e) // 45) % 8 + 1 for e in (-1e-9, 1e-9)}
        mon.check(g in ok, 'bearing %r is of sector %s, expected %s', x, g,
                  ok)


def run_case(spec, mon):
    from shielding import shield_mult
    bearings(gen.nprng(spec['seed']), mon)
    r = gen.nprng(spec['seed'])
    rows, cols = int(r.integers(2, 50)), int(r.integers(2, 50))
    if spec['big']:
        rows, cols = gen.big(r)
        mon.count('big_tiles')
    px = float(r.choice([.0002, .00025, .0005, .001, .01]))
    py = px if r.random() < .5 else px * float(r.choice([.5, .8, 1.25, 2]))
    x0, y0 = gen.lonlat(r)
    if r.random() < .3:
        y0 = float(r.uniform(-60, 60))
    xs, ys = ref.pixel_sizes(rows, cols, y0, px, py)
    if spec['plane']:
        b = float(r.uniform(0, 360))
        s = float(r.choice([.5, 2, 5, 10, 30, 60]))
        # rises towards bearing b + 180, so it faces b
        e = -np.sin(np.radians(b)) * np.tan(np.radians(s))
        n = -np.cos(np.radians(b)) * np.tan(np.radians(s))
        i, j = np.indices((rows, cols))
        dem = 100 + e * j * xs.mean() - n * i * ys.mean()
    else:
        dem = gen.elevation(r, (rows, cols), xs.mean())
    typ = 'f4'
    if r.random() < .2 and not spec['plane']:
        typ = str(r.choice(['i2', 'i4']))
        dem = np.round(np.clip(dem, -30000, 30000))
    dem = dem.astype(typ)
    nd, filed = None, dem
    if typ == 'f4' and not spec['plane'] and r.random() < .15:
        nd = float(r.choice([-32768, -9999, 0]))
        dem[(r.random(dem.shape) < .1) | (dem == nd)] = np.nan
        filed = np.where(np.isnan(dem), nd, dem)
        mon.count('missing', np.isnan(dem).sum())
    fn = mon.tmp + '/d.tif'
    if r.random() < .25:            # one of the same shape just before,
        # sometimes in the file of the same name
        f2 = raster.write(str(r.choice([fn, mon.tmp + '/e.tif'])),
                          dem[::-1].copy(), x0,
                          -20. if y0 < -30 else -45., px, py, typ)
        mon.code(shield_mult.get_slope_aspect, f2)
        mon.count('same_shape')
    raster.write(fn, filed, x0, y0, px, py, typ, nodata=nd)
    got_s, got_a = mon.code(shield_mult.get_slope_aspect, fn)
    slope, aspect = ref.slope_aspect(dem, y0, px, py)
    mon.count('slopes', slope.size)
    # cell sizes are interpolated between the middle and the ends of the tile
    tol = 2e-3 + 1e-4 * slope + 6 * np.radians(rows * py) ** 2 / 4 / (
        np.cos(np.radians(abs(y0) + 1)) ** 2)
    none = np.isnan(slope)
    mon.check(np.array_equal(np.isnan(got_s), none), 'cells without or beside '
              'missing elevations: %d have no slope, expected %d',
              np.isnan(got_s).sum(), none.sum())
    bad = ~none & ~(abs(got_s - slope) < tol)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail('slope at (%d, %d) is %r, expected %r' % (
            i, j, got_s[i, j], slope[i, j]))
    mon.check((none | (got_s >= 0) & (got_s < 90)).all(), 'slope out of range')
    mon.check(np.isin(got_a[~none], range(1, 10)).all(), 'facing not in 1..9')
    steep = slope > .05
    off = abs((got_a - 1) * 45 - aspect + 180) % 360 - 180
    bad = steep & ((got_a == 9) | (abs(off) > 22.6))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail('cell (%d, %d) faces %.4f degrees, but its sector is %r'
                 % (i, j, aspect[i, j], got_a[i, j]))
    cl = slope > (1e-3 if typ != 'f4' else .05)
    for k, d in enumerate(raster.DIRS):
        f, margin = ref.facing(aspect, d)
        c = cl & (margin > .02)
        mon.count('sectors', (c & f).sum())
        bad = c & (f != (got_a == k + 1))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('cell (%d, %d) faces %.2f degrees, but its sector is %r'
                     % (i, j, aspect[i, j], got_a[i, j]))
    if spec['plane'] and rows > 4 and cols > 4 and rows * py < .05:
        mon.count('planes')
        q = got_s[1:-1, 1:-1]
        mon.check((abs(q - s) < .02 * s + .02).all(),
                  'plane of slope %r has slopes %r to %r', s, q.min(),
                  q.max())
        off = (b + 22.5) % 45
        if 1.5 < off < 43.5:
            k = int(((b + 22.5) % 360) // 45) + 1
            mon.check((got_a[1:-1, 1:-1] == k).all(),
                      'plane facing %r has sectors %s', b,
                      np.unique(got_a[1:-1, 1:-1]))
    mon.nontrivial = bool((slope > 1).any())
