"""Extraction of the DEM and the land cover of a tile."""

import numpy as np

from wmv import gen, pipeline, raster, ref

RULE = '''Three kinds of cases: every buffered tile of random grids is cut
from DEMs of all data types, with and without missing values, and compared
cell by cell; land cover on other grids (finer, coarser, shifted, smaller
than the DEM, in projected coordinates) is matched to tiles and compared
with the class at each cell centre; whole runs with such land cover, on
cells so large that nothing is averaged, must give each cell the terrain
multiplier of its class. Non-trivial: the grid has several tiles or the land
cover is on another grid.'''
ASSUMPTIONS = ['cells whose centre lies within 1e-4 (projected: 1e-2) of a '
               'land cover cell border are not compared']
MIN_COUNTS = {'dem_cells': 6000, 'lc_cells': 8000, 'run_cells': 2000,
              'missing_cells': 100, 'beyond_cells': 200,
              'projected_cells': 500}
MIN_NONTRIVIAL = 20
preload = pipeline.preload


def cases(rng, tier):
    n = 120 if tier == 'quick' else 3000
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['dem', 'lc', 'dem', 'lc', 'run', 'proj'][i % 6]}


def wkt_of(epsg):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


def othergrid(r, case_grid, shape):
    """A land cover grid that overlaps a DEM grid."""
    x0, y0, px, py = case_grid
    rows, cols = shape
    f = float(r.choice([.31, .5, .73, 1, 1, 1.37, 2.1, 4.3]))
    lpx = px * f
    lpy = py * (f if r.random() < .6 else float(r.choice([.6, 1.4])))
    u = r.random()
    if u < .25:
        a, b, c, d = 0.013, 0.013, 1.02, 1.02
    elif u < .6:
        a, b = r.uniform(-.4, .0, 2) * (cols, rows)
        c, d = 1.5, 1.5
    else:
        a, b = r.uniform(-.3, .4, 2) * (cols, rows)
        c, d = r.uniform(.3, 1., 2)
    if r.random() < .3:
        a, b = np.floor(a) + .0, np.floor(b) + .0   # aligned with the DEM
    lc_cols = max(2, int(cols * c / (lpx / px)) + 1)
    lc_rows = max(2, int(rows * d / (lpy / py)) + 1)
    return (x0 + a * px, y0 - b * py, lpx, lpy), (lc_rows, lc_cols)


def dem_case(r, mon):
    import all_multipliers as am
    typ = str(r.choice(['f4', 'f4', 'i4', 'i2', 'f8', 'u2', 'u1']))
    px = float(r.choice([.05, .1, 1 / 30., 1 / 12., .0833, .07]))
    py = px if r.random() < .5 else px * float(r.choice([.5, .8, 1.3]))
    nx, ny = int(np.ceil(1 / px)), int(np.ceil(1 / py))
    rows = int(r.integers(2, ny * 3))
    cols = int(r.integers(2, nx * 3))
    x0, y0 = gen.lonlat(r)
    a = r.uniform(-50, 900, (rows, cols))
    if typ[0] != 'f':
        a = np.round(np.clip(a, 0 if typ[0] == 'u' else -50,
                             255 if typ == 'u1' else 900))
    if typ == 'i4' and r.random() < .5:
        a = a * 20000 + 1        # not representable in single precision
    nd = None
    miss = np.zeros(a.shape, bool)
    if r.random() < .5:
        nd = {'u1': 255, 'u2': 65535, 'i2': -32768}.get(typ, -9999)
        miss = r.random(a.shape) < .1
        a[a == nd] = 0
        a[miss] = nd
    a = a.astype(typ)
    fn = raster.write(mon.tmp + '/dem.tif', a, x0, y0, px, py, typ,
                      nodata=nd)
    up = px * float(r.choice([0, .5, 1.5, 4.5]))
    tg = mon.code(am.TileGrid, up, fn)
    m = am.Multipliers(fn, fn)
    mon.code(m.open_dem)
    tiles = am.get_tiles(tg)
    am.output_folder = mon.tmp
    for k in r.permutation(len(tiles))[:5]:
        k = int(k)
        got = raster.read(mon.code(m.cut_dem, tiles[k]))
        j0, j1, i0, i1 = tg.get_gridlimit_buffer(k)
        want = np.where(miss, 0, a).astype(
            'i4' if typ == 'i4' else 'f4')[i0:i1, j0:j1]
        mon.check(got['n'] == 1 and got['size'] == want.shape,
                  'DEM tile is %s with %d bands, expected %s', got['size'],
                  got['n'], want.shape)
        g = got['gt']
        mon.check(abs(g[0] - (x0 + j0 * px)) < 1e-7 and
                  abs(g[3] - (y0 - i0 * py)) < 1e-7 and
                  abs(g[1] - px) < 1e-12 and abs(g[5] + py) < 1e-12,
                  'DEM tile is at %s', g)
        bad = got['a'] != want
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('%s DEM (nodata %r), tile of rows %d to %d and columns '
                     '%d to %d: cell (%d, %d) is %r, expected %r (%d '
                     'differ)' % (typ, nd, i0, i1, j0, j1, i, j,
                                  got['a'][i, j], want[i, j], bad.sum()))
        mon.count('dem_cells', want.size)
        mon.count('missing_cells', miss[i0:i1, j0:j1].sum())
    mon.check((raster.read(fn)['a'] == a).all(), 'the DEM changed')
    mon.state('dem', typ, nd, len(tiles))
    mon.nontrivial = len(tiles) > 1


def lc_case(r, mon, projected):
    import all_multipliers as am
    from osgeo import gdal
    px = float(r.choice([.001, .01, .05, 1 / 30.]))
    py = px if r.random() < .6 else px * float(r.choice([.5, .8, 1.3]))
    shape = int(r.integers(2, 60)), int(r.integers(2, 60))
    x0, y0 = gen.lonlat(r)
    dem = raster.write(mon.tmp + '/t.img', r.random(shape).astype('f4'), x0,
                       y0, px, py, 'f4',
                       wkt=wkt_of(4283).ExportToWkt() if r.random() < .3
                       else None)
    told = None if projected or r.random() < .7 else 4326
    typ = str(r.choice(['i4', 'f4', 'u1', 'u2', 'i2']))
    top = {'u1': 200, 'i2': 30000, 'u2': 60000}.get(typ, 90000)
    if typ == 'i4' and r.random() < .5:
        top = 2 ** 31 - 1        # not representable in single precision
    if projected:
        s = wkt_of(int(r.choice([3577, 3857])))
        w = wkt_of(4326)
        from osgeo import osr
        tr = osr.CoordinateTransformation(w, s)
        x = x0 + (np.arange(shape[1]) + .5) * px
        y = y0 - (np.arange(shape[0]) + .5) * py
        xx, yy = np.meshgrid(x, y)
        q = np.array(tr.TransformPoints(list(zip(xx.ravel(), yy.ravel()))))
        xs, ys = q[:, 0].reshape(shape), q[:, 1].reshape(shape)
        res = px * 1e5 * float(r.choice([.4, 1, 2.3]))
        m = res * 3
        lg = (xs.min() - m + res * .1, ys.max() + m, res, res)
        if r.random() < .3:
            lg = (lg[0] + .3 * (xs.max() - xs.min()),) + lg[1:]
        lshape = (int((lg[1] - ys.min() + m) / res) + 1,
                  int((xs.max() - lg[0] + m) / res) + 1)
        wkt = s.ExportToWkt()
    else:
        lg, lshape = othergrid(r, (x0, y0, px, py), shape)
        xs, ys = np.meshgrid(x0 + (np.arange(shape[1]) + .5) * px,
                             y0 - (np.arange(shape[0]) + .5) * py)
        wkt = None
    lc = r.integers(1, top, lshape)
    none = None
    if r.random() < .4:
        # a value that stands for no class
        none = {'u1': 255, 'u2': 65535, 'i2': -32768}.get(typ, -9999)
        lc[r.random(lshape) < .1] = none
    fn = raster.write(mon.tmp + '/lc.tif', lc, *lg, typ=typ, wkt=wkt,
                      nodata=none)
    ds = gdal.Open(dem)
    out = mon.tmp + '/o.img'
    src = fn if r.random() < .7 else gdal.Open(fn)
    mon.code(am.reproject_dataset, src, ds if r.random() < .7 else dem, out,
             **({'match_projection': told} if told else {}))
    got = raster.read(out)
    if told:
        q = wkt_of(4326)
        q.ImportFromWkt(got['proj'])
        mon.check(q.IsSame(wkt_of(told)), 'asked for EPSG:%d, made %s', told,
                  got['proj'])
        mon.count('projection_told')
    mon.check(got['size'] == shape, 'land cover tile is %s, expected %s',
              got['size'], shape)
    mon.check(np.allclose(got['gt'], (x0, px, 0, y0, 0, -py), 0, 1e-9),
              'land cover tile is at %s', got['gt'])
    c, q = (xs - lg[0]) / lg[2], (lg[1] - ys) / lg[3]
    tol = 1e-2 if projected else 1e-4
    ok = (abs(c - np.round(c)) > tol) & (abs(q - np.round(q)) > tol)
    ci, qi = np.floor(c).astype(int), np.floor(q).astype(int)
    inside = (ci >= 0) & (ci < lshape[1]) & (qi >= 0) & (qi < lshape[0])
    want = np.where(inside, lc[np.clip(qi, 0, lshape[0] - 1),
                               np.clip(ci, 0, lshape[1] - 1)], 0)
    bad = ok & (got['a'] != want)
    if none is not None:
        # 0 would do as well: neither is a class
        bad &= (want != none) | (got['a'] != 0)
        mon.count('no_class', (want == none).sum())
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail('land cover of cell (%d, %d) is %r, but the class at its '
                 'centre is %r (%d of %d differ)' % (
                     i, j, got['a'][i, j], want[i, j], bad.sum(), ok.sum()))
    mon.count('projected_cells' if projected else 'lc_cells', ok.sum())
    mon.count('beyond_cells', (~inside).sum())
    mon.state('lc', typ, projected)
    mon.nontrivial = True


def run_kind(r, mon):
    px = float(r.choice([1 / 12., 1 / 15., .05]))
    rows = int(r.integers(4, 40))
    cols = int(r.integers(4, 40))
    x0, y0 = gen.lonlat(r)
    dem = r.uniform(1, 100, (rows, cols)).astype('f4')
    lg, lshape = othergrid(r, (x0, y0, px, px), (rows, cols))
    tab = gen.table(r)
    cats = [c for c, _, _ in tab]
    lc = gen.landcover(r, lshape, cats, 'noise', gaps=.3, gapval=9998)
    case = pipeline.Case(mon.tmp, dem, lc, tab, x0, y0, px,
                         up=px * float(r.choice([0, 2.5])), lcgrid=lg,
                         lctype=str(r.choice(['i4', 'f4', 'u2'])))
    pipeline.run(mon, case)
    sampled, amb = case.sample_lc()
    want = ref.terrain_initial(sampled, tab)
    got, _ = case.read(mon, 'terrain', 'mz')
    seen = set()
    for core, v in got.items():
        i0, i1, j0, j1 = core
        seen.add(core)
        for d, g in v.items():
            w = want[i0:i1, j0:j1]
            a = amb[i0:i1, j0:j1]
            # a class at the border of an unmapped one also differs there
            bad = ~a & ((np.isnan(g) != np.isnan(w)) | (abs(g - w) > 2e-5))
            mon.count('run_cells', (~a).sum())
            if bad.any():
                i, j = np.argwhere(bad)[0]
                mon.fail('Mz %s at row %d, column %d is %r; the land cover '
                         'there is %r with multiplier %r' % (
                             d, i0 + i, j0 + j, g[i, j],
                             sampled[i0 + i, j0 + j], w[i, j]))
    for core, buf in case.tiles():
        b0, b1, c0, c1 = buf
        if core not in seen:
            mon.check(np.isnan(want[b0:b1, c0:c1]).all() or amb.any(),
                      'no terrain files for the tile at %s', core)
    mon.nontrivial = True


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    if spec['kind'] == 'dem':
        dem_case(r, mon)
    elif spec['kind'] == 'run':
        run_kind(r, mon)
    else:
        lc_case(r, mon, spec['kind'] == 'proj')
