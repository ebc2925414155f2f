"""Cell sizes in metres, and the recursive bisection that spreads them."""

import math

import numpy as np

from wmv import gen, raster, ref, tilecalc
from wmv.geod import Geodesic

RULE = '''Three kinds of cases: the size grids of random rasters (both
hemispheres, oblong cells and shapes, one after the other of the same shape
elsewhere) against the ellipsoid; the size of
single pixels against geodesics; the recursive bisection of random shapes,
origins and depths with bilinear functions, which it must reproduce, and
others, which it must hit at the block corners. Non-trivial: the grid has
several rows and columns.'''
ASSUMPTIONS = ['rasters of at least 2 cells a side in geographic '
               'coordinates, cells of at most half a degree',
               'the bisection may be off by the square of a block height '
               'over 8 (of the cosine of latitude)']
MIN_COUNTS = {'same_shape': 8, 'size_cells': 20000, 'pixels': 500, 'blocks': 120,
              'calls_seen': 5000}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload
PX = [1 / 3600., .0005, .0025, .01, .02, .05, .1, .3]


def cases(rng, tier):
    n = 60 if tier == 'quick' else 2500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['grids', 'blrb', 'pixel'][i % 3]}


def rasterfile(r, mon, k, px, py, rows, cols, place=None):
    """At a random place, under one of a few names."""
    k = k % 2
    x0 = float(r.uniform(-179, 150))
    top = 89 if r.random() < .2 else 60
    y0 = float(r.uniform(-top + rows * py, top))
    x0, y0 = place or (x0, y0)
    fn = '%s/p%d.tif' % (mon.tmp, k)
    raster.write(fn, np.ones((rows, cols), 'u1'), x0, y0, px, py, 'u1')
    return fn, x0, y0


def grids(r, mon, k):
    from osgeo import gdal
    from utilities import get_pixel_size_grid as gp
    px = float(r.choice(PX))
    py = px if r.random() < .5 else float(r.choice(PX))
    rows, cols = int(r.integers(2, 60)), int(r.integers(2, 60))
    rows = max(2, min(rows, int(8 / py)))
    same = mon.__dict__.setdefault('last_grid', {})
    if same and r.random() < .5:    # as the one before, but elsewhere
        px, py, rows, cols = same['as']
        mon.count('same_shape')
    place = None
    if same and r.random() < .3:    # or at the same place
        px, py = same['as'][:2]
        place = same['at']
        rows = max(2, min(rows, int((80 + place[1]) / py)))
        mon.count('same_place')
    fn, x0, y0 = rasterfile(r, mon, k, px, py, rows, cols, place)
    same['as'] = px, py, rows, cols
    same['at'] = x0, y0
    ds = gdal.Open(fn)
    xs, ys = mon.code(gp.get_pixel_size_grids, ds)
    wx, wy = ref.pixel_sizes(rows, cols, y0, px, py)
    what = '%d x %d cells of %r x %r degrees at (%r, %r)' % (
        rows, cols, px, py, x0, y0)
    lat = np.radians(y0 - (np.arange(rows) + .5) * py)

    def chord(w):
        """Between the ends of half of the rows."""
        n = rows // 2 + 2
        return n * n / 8. * 1.05 * abs(np.diff(w, 2)).max() if rows > 2 else 0

    # chord of the bisection and of the parallel
    tolx = wx * 2e-6 + chord(wx) + \
        wx * (math.radians(px) * np.sin(lat)) ** 2 / 12
    toly = wy * 3e-6 + chord(wy)
    for name, g, w, tol in (('x', xs, wx, tolx), ('y', ys, wy, toly)):
        mon.check(g.shape == (rows, cols), '%s: %s sizes of shape %s', what,
                  name, g.shape)
        bad = ~(abs(g - w[:, None]) <= tol[:, None] + 5e-3 * min(
            1, px * 1e-2))
        mon.count('size_cells', g.size)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('%s: the %s size of cell (%d, %d) is %r m, expected %r '
                     '(%d cells differ)' % (what, name, i, j, float(g[i, j]),
                                            w[i], bad.sum()))
    mon.state(px, py, y0 > 0)
    mon.nontrivial = True


def pixel(r, mon, k):
    from osgeo import gdal
    from utilities import get_pixel_size_grid as gp
    geo = Geodesic(6378137.0, 1 / 298.257223563)
    px, py = float(r.choice(PX)), float(r.choice(PX))
    rows, cols = int(r.integers(2, 30)), int(r.integers(2, 30))
    fn, x0, y0 = rasterfile(r, mon, k, px, py, rows, cols)
    ds = gdal.Open(fn)
    for _ in range(10):
        i, j = int(r.integers(0, rows)), int(r.integers(0, cols))
        g = mon.code(gp.get_pixel_size, ds, (j, i))
        lat, lon = y0 - (i + .5) * py, x0 + (j + .5) * px
        w = (geo.inverse(lat, lon - px / 2, lat, lon + px / 2)[0],
             geo.inverse(lat + py / 2, lon, lat - py / 2, lon)[0])
        mon.count('pixels')
        mon.check(abs(g[0] - w[0]) < 5e-3 and abs(g[1] - w[1]) < 5e-3,
                  'pixel of %r x %r degrees at %r, %r is %s m, expected %s',
                  px, py, lat, lon, g, w)
    mon.nontrivial = True


def blrb(r, mon, k):
    from utilities import blrb as b
    shape = int(r.integers(1, 40)), int(r.integers(1, 40))
    if r.random() < .7:
        shape = max(2, shape[0]), max(2, shape[1])
    origin = (0, 0) if r.random() < .5 else (int(r.integers(0, 9)),
                                             int(r.integers(0, 9)))
    extra = r.integers(0, 4, 2)
    depth = int(r.choice([0, 1, 1, 1, 2, 2, 3]))
    full = origin[0] + shape[0] + extra[0], origin[1] + shape[1] + extra[1]
    c = r.uniform(-5, 5, 4)
    i, j = np.indices(full).astype(float)
    bil = r.random() < .7
    want = c[0] + c[1] * i + c[2] * j + c[3] * i * j
    if not bil:
        want = want + np.sin(i * c[1]) * 30 + j * j
    seen = set()

    def f(a, q):
        a, q = int(a), int(q)
        seen.add((a, q))
        mon.count('calls_seen')
        mon.check(origin[0] <= a < origin[0] + shape[0] and
                  origin[1] <= q < origin[1] + shape[1],
                  'block %s of shape %s, depth %d: asks for cell (%d, %d)',
                  origin, shape, depth, a, q)
        return want[a, q]
    grid = np.full(full, np.nan)
    mon.code(b.interpolate_grid, depth, origin, shape, f, grid)
    mon.count('blocks')
    inside = np.zeros(full, bool)
    inside[origin[0]:origin[0] + shape[0], origin[1]:origin[1] + shape[1]] = 1
    what = 'block %s of shape %s, depth %d: ' % (origin, shape, depth)
    mon.check(np.isnan(grid[~inside]).all(), what + 'cells outside are set')
    mon.check(not np.isnan(grid[inside]).any(), what + 'cells are not set')
    tol = 1e-9 * (1 + abs(want).max())
    if bil:
        mon.check((abs(grid - want)[inside] < tol).all(), what + 'does not '
                  'reproduce a bilinear function (off by %g)',
                  abs(grid - want)[inside].max())
    for a, q in seen:
        mon.check(abs(grid[a, q] - want[a, q]) < tol, what + 'evaluated at '
                  'cell (%d, %d) but sets it to %r, not %r', a, q, grid[a, q],
                  want[a, q])
    for a in (origin[0], origin[0] + shape[0] - 1):
        for q in (origin[1], origin[1] + shape[1] - 1):
            mon.check(abs(grid[a, q] - want[a, q]) < tol,
                      what + 'corner (%d, %d) is %r, expected %r', a, q,
                      grid[a, q], want[a, q])
    one = mon.code(b.interpolate_block, origin, shape, f)
    mon.check(one.shape == shape and abs(one[0, 0] - want[origin]) < tol and
              abs(one[-1, -1] - want[origin[0] + shape[0] - 1,
                                     origin[1] + shape[1] - 1]) < tol,
              what + 'the block without a grid differs at its corners')
    if bil:
        mon.check(np.allclose(one, want[inside].reshape(shape), 0, tol),
                  what + 'the block without a grid is not bilinear')
    mon.state(depth, shape[0] % 2, shape[1] % 2, min(shape) > 3)
    mon.nontrivial = min(shape) > 1


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    fn = {'grids': grids, 'pixel': pixel, 'blrb': blrb}[spec['kind']]
    for k in range({'grids': 4, 'pixel': 8, 'blrb': 12}[spec['kind']]):
        fn(r, mon, k)
