"""Tiling of the DEM grid."""

import math
import re
from xml.sax.saxutils import escape

import numpy as np

from wmv import gen, raster, tilecalc

RULE = '''Random grids (2 to 200000 cells a side, oblong, arc-second and decimal
cells up to half a degree, any offset, sizes at and next to multiples of the
tile size, upwind lengths from 0 to several tiles) through the tiling; the
tiles are compared with the cells they must cover. Non-trivial: more than
one tile.'''
ASSUMPTIONS = ['where 1 / cell size, or upwind length / cell size, is within '
               '1e-6 of a whole number without being it in floating point, '
               'both roundings are accepted',
               'rasters of at least 2 cells a side']
MIN_COUNTS = {'grids': 300, 'tiles': 3000, 'clipped_tiles': 300,
              'interior_tiles': 20}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload
PX = [1 / 3600., 3 / 3600., 0.00025, 0.0005, 0.001, 0.0025, 0.0083333333,
      0.01, 0.02, 0.025, 1 / 40., 0.03, 0.05, 0.1, 0.2, 0.3, 0.5, 0.0123,
      0.07, 1 / 7.]


def cases(rng, tier):
    n = 48 if tier == 'quick' else 1600
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'n': 12}


def empty(path, cols, rows, x0, y0, px, py):
    from osgeo import gdal
    if max(cols, rows) > 30000:
        with open(path, 'w') as f:
            f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d"><SRS>%s'
                    '</SRS><GeoTransform>%r, %r, 0, %r, 0, %r</GeoTransform>'
                    '<VRTRasterBand dataType="Float32" band="1"/>'
                    '</VRTDataset>' % (cols, rows, escape(raster.WKT), x0,
                                       px, y0, -py))
        return
    ds = gdal.GetDriverByName('GTiff').Create(
        path, cols, rows, 1, gdal.GDT_Float32, ['SPARSE_OK=TRUE'])
    ds.SetProjection(raster.WKT)
    ds.SetGeoTransform((x0, px, 0, y0, 0, -py))
    ds = None


def whole(q, exact):
    """Acceptable values of q rounded down (exact=0) or up (exact=1)."""
    f = math.ceil if exact else math.floor
    out = {int(f(q))}
    if abs(q - round(q)) < 1e-6 and q != round(q):
        out |= {int(round(q)), int(round(q)) + (1 if exact else -1)}
    return {v for v in out if v >= 0}


def side(r, px):
    step = int(math.ceil(1 / px))
    u = r.random()
    if u < .35:
        n = step * int(r.integers(1, 6)) + int(r.integers(-3, 4))
    elif u < .6:
        n = int(r.integers(2, 60))
    else:
        n = int(np.exp(r.uniform(np.log(2), np.log(12 * step + 3))))
    return int(min(max(2, n), 30000))


def axis(mon, what, limits, blimits, n, step_ok, buf_ok):
    """limits: sorted distinct (start, end) of the tiles along an axis."""
    mon.check(limits[0][0] == 0, '%s: first tile starts at cell %d', what,
              limits[0][0])
    mon.check(limits[-1][1] == n, '%s: last tile ends at cell %d of %d', what,
              limits[-1][1], n)
    for a, b in zip(limits, limits[1:]):
        mon.check(a[1] == b[0], '%s: tile ending at cell %d is followed by '
                  'one starting at %d', what, a[1], b[0])
    sizes = [b - a for a, b in limits]
    if len(sizes) > 1:
        mon.check(set(sizes[:-1]) <= step_ok and len(set(sizes[:-1])) == 1,
                  '%s: tiles of %s cells, expected %s', what, sizes,
                  step_ok)
        s = sizes[0]
        mon.check(2 <= sizes[-1] <= s + 1 or s == 1,
                  '%s: last tile of %d cells in a grid of %d with tiles of '
                  '%d', what, sizes[-1], n, s)
    else:
        mon.check(n <= max(step_ok) + 1, '%s: %d cells in one tile', what, n)
    for (a, b), (c, d) in zip(limits, blimits):
        mon.check(any(c == max(0, a - k) and d == min(n, b + k)
                      for k in buf_ok),
                  '%s: tile of cells %d to %d of %d has buffered limits %d '
                  'to %d, with a buffer of %s cells', what, a, b, n, c, d,
                  sorted(buf_ok))
        mon.count('clipped_tiles' if c == 0 or d == n else 'interior_tiles')


def run_case(spec, mon):
    import all_multipliers as am
    r = gen.nprng(spec['seed'])
    for g in range(spec['n']):
        px = float(r.choice(PX))
        py = px if r.random() < .6 else float(r.choice(PX))
        cols, rows = side(r, px), side(r, py)
        if g == 0:
            # a country in cells of an arc-second
            px, py = 1 / 3600., float(r.choice([1 / 3600., 3 / 3600.]))
            cols, rows = int(r.integers(33000, 200000)), side(r, py)
            if r.random() < .5:
                px, py, cols, rows = py, px, rows, cols
        if cols * px > 60 or rows * py > 60:
            cols, rows = min(cols, int(60 / px)), min(rows, int(60 / py))
        x0, y0 = gen.lonlat(r)
        if r.random() < .15:
            x0, y0 = float(r.uniform(-170, 100)), float(r.uniform(-20, 60))
        up = float(r.choice([0, .0099, .01, .02, .05, .3, 1.2, 2.5])) \
            if r.random() < .8 else px * float(r.integers(0, 50))
        fn = '%s/g%d.tif' % (mon.tmp, g)
        empty(fn, cols, rows, x0, y0, px, py)
        tg = mon.code(am.TileGrid, up, fn)
        tiles = mon.code(am.get_tiles, tg)
        ident = 'grid of %d x %d cells of %r x %r degrees at (%r, %r), ' \
            'upwind %r' % (cols, rows, px, py, x0, y0, up)
        mon.count('grids')
        mon.count('tiles', len(tiles))
        names = [t[0] for t in tiles]
        mon.check(len(set(names)) == len(names), '%s: repeated names', ident)

        def cells(e):
            c = [(e[0] - x0) / px, (e[2] - x0) / px, (y0 - e[1]) / py,
                 (y0 - e[3]) / py]
            mon.check(all(abs(v - round(v)) < 1e-4 for v in c),
                      '%s: extent %s is not at cell borders: %s', ident, e, c)
            return [int(round(v)) for v in c]
        core = [cells(t[2]) for t in tiles]
        buf = [cells(t[1]) for t in tiles]
        for k, t in enumerate(tiles):
            mon.check(list(tg.get_gridlimit(k)) == core[k] and
                      list(tg.get_gridlimit_buffer(k)) == buf[k],
                      '%s: limits of tile %d %s %s are not those of its '
                      'extents %s %s', ident, k, tg.get_gridlimit(k),
                      tg.get_gridlimit_buffer(k), core[k], buf[k])
            m = re.match(r'^e(-?[0-9.]+)s(-?[0-9.]+)$', t[0])
            lon, lat = t[2][0], t[2][1]
            if abs(lon) > 1e-3 and abs(lat) > 1e-3:
                mon.check(m and abs(float(m.group(1)) - lon) < 1.1e-3 and
                          abs(float(m.group(2)) + lat) < 1.1e-3,
                          '%s: tile at (%r, %r) is named %s', ident, lon, lat,
                          t[0])
        xl = sorted({(c[0], c[1]) for c in core})
        yl = sorted({(c[2], c[3]) for c in core})
        mon.check(len(xl) * len(yl) == len(core) == tg.num_tiles and
                  len({tuple(c) for c in core}) == len(core),
                  '%s: %d tiles do not form a grid of %d x %d', ident,
                  len(core), len(xl), len(yl))
        bx = {(c[0], c[1]): (b[0], b[1]) for c, b in zip(core, buf)}
        by = {(c[2], c[3]): (b[2], b[3]) for c, b in zip(core, buf)}
        for c, b in zip(core, buf):
            mon.check(bx[c[0], c[1]] == (b[0], b[1]) and
                      by[c[2], c[3]] == (b[2], b[3]),
                      '%s: buffered limits differ within a row or column of '
                      'tiles', ident)
        axis(mon, ident + ', columns', xl, [bx[v] for v in xl], cols,
             whole(1 / px, 1), whole(up / px, 0))
        axis(mon, ident + ', rows', yl, [by[v] for v in yl], rows,
             whole(1 / py, 1), whole(up / py, 0))
        mon.state(px, py, len(xl), len(yl))
        if len(core) > 1:
            mon.nontrivial = True
