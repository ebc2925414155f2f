"""Rasterisation of categories."""

import os

import numpy as np

from wmv import gen, pipeline, raster
from wmv.checks.w19 import TYPES, USES, layer, preload, richer, shape_of  # noqa: F401
from wmv.common import REPO

RULE = '''Random layers of polygons with categories (0 to 65535, overlapping,
partly or wholly beyond the raster) are burnt onto random elevation rasters
by the function, by rasterize.py (with and without a crop mask) and, after
preprocessing, by pre_process.py with a configuration file; the class of
each cell is compared with the polygon at its centre. Non-trivial: several
polygons and empty cells.'''
ASSUMPTIONS = ['cells whose centre lies within 1e-6 cells of a polygon '
               'border are not compared',
               'where polygons overlap, the later one counts']
MIN_COUNTS = {'cells': 20000, 'burnt': 4000, 'clear': 4000, 'processes': 8,
              'reprojected': 5, 'attributes': 3}
MIN_NONTRIVIAL = 10


def cases(rng, tier):
    n = 60 if tier == 'quick' else 1500
    kinds = ['function', 'function', 'script', 'function', 'crop',
             'preprocess']
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'kind': kinds[i % 6]}


def burn(feats, x0, y0, px, py, rows, cols):
    """Expected classes, and the cells that are too close to tell."""
    import shapely
    xx, yy = np.meshgrid(x0 + (np.arange(cols) + .5) * px,
                         y0 - (np.arange(rows) + .5) * py)
    pts = shapely.points(xx.ravel(), yy.ravel())
    want = np.zeros(rows * cols, int)
    near = np.zeros(rows * cols, bool)
    for g, c in feats:
        shapely.prepare(g)
        want[shapely.contains(g, pts)] = c
        near |= shapely.distance(g.boundary, pts) < px * 1e-6
    return want.reshape(rows, cols), near.reshape(rows, cols)


def srs(code):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(code)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


def write_layer(path, feats, code=4326, names=('FID1', 'CAT')):
    from osgeo import ogr, osr
    s = srs(code)
    tr = osr.CoordinateTransformation(srs(4283), s) if code == 3577 else None
    ds = ogr.GetDriverByName('ESRI Shapefile').CreateDataSource(path)
    ly = ds.CreateLayer('x', s, ogr.wkbPolygon)
    for n in names:
        ly.CreateField(ogr.FieldDefn(n, ogr.OFTInteger))
    for k, (g, c) in enumerate(feats):
        f = ogr.Feature(ly.GetLayerDefn())
        f.SetField(names[1], int(c))
        f.SetField(names[0], k)
        g = ogr.CreateGeometryFromWkb(g.wkb)
        if tr is not None:
            g.Transform(tr)
        f.SetGeometry(g)
        ly.CreateFeature(f)
    ds = None


def compare(mon, path, want, near, gt, what, code=4326):
    d = raster.read(path)
    mon.check(d['n'] == 1 and d['size'] == want.shape,
              '%s: %s cells, expected %s', what, d['size'], want.shape)
    mon.check(np.allclose(d['gt'], gt, 0, 1e-9), '%s: at %s, expected %s',
              what, d['gt'], gt)
    s = srs(4326)
    s.ImportFromWkt(d['proj'])
    t = srs(code)
    mon.check(s.IsSame(t), '%s: projection %s, expected EPSG:%d', what,
              d['proj'], code)
    mon.check(d['types'] == ['UInt16'], '%s: type %s', what, d['types'])
    bad = ~near & (d['a'] != want)
    mon.count('cells', want.size)
    mon.count('burnt', (want > 0).sum())
    mon.count('clear', (want == 0).sum())
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail('%s: cell (%d, %d) is %d, the polygon there has %d (%d '
                 'cells differ)' % (what, i, j, d['a'][i, j], want[i, j],
                                    bad.sum()))


def run_case(spec, mon):
    import pre_process
    from shapely import affinity
    r = gen.nprng(spec['seed'])
    kind = spec['kind']
    x0, y0 = gen.lonlat(r)
    px = float(r.choice([.01, .025, .1, 1 / 30.]))
    rows, cols = int(r.integers(2, 50)), int(r.integers(2, 50))
    if r.random() < .12:
        rows, cols = int(r.integers(100, 400)), int(r.integers(100, 600))
        px /= 20
        mon.count('large')
    py = px if r.random() < .6 else px * float(r.choice([.7, 1.3]))
    # land use in another coordinate system than the elevation
    other = kind in ('function', 'script') and r.random() < .35
    names = ('FID1', 'CAT')
    if kind in ('script', 'crop') and r.random() < .5:
        names = [('CAT', 'CLASS'), ('FID1', 'code')][int(r.integers(0, 2))]
    topo = raster.write(mon.tmp + '/topo.tif', r.random((rows, cols)), x0, y0,
                        px, py, str(r.choice(['f4', 'i2'])),
                        wkt=srs(4283).ExportToWkt() if other else None)
    before = raster.tree(mon.tmp)
    gt = (x0, px, 0, y0, 0, -py)
    size = max(rows * py, cols * px)
    area = (x0 - size * .2, y0 - rows * py - size * .2, x0 + cols * px, y0)
    feats = []
    for _ in range(int(r.integers(1, 12))):
        feats.append((richer(r, shape_of(r, area, size * .5)),
                      int(r.choice([r.integers(0, 12), r.integers(0, 65536),
                                    r.integers(100, 600)]))))
    shp = mon.tmp + '/in.shp'
    write_layer(shp, feats, 3577 if other else 4326, names)
    mon.count('reprojected', other)
    want, near = burn(feats, x0, y0, px, py, rows, cols)
    if kind == 'function':
        out = mon.tmp + '/out.tif'
        mon.code(pre_process.rasterize, shp, out, topo, None)
        compare(mon, out, want, near, gt, 'rasterize' + (
            ' of land use in other coordinates' if other else ''),
            4283 if other else 4326)
    elif kind in ('script', 'crop'):
        work = mon.tmp + '/work'
        os.mkdir(work)
        argv = [os.path.join(REPO, 'rasterize.py'), '-i', shp, '-t', topo]
        if names[1] != 'CAT':
            argv += ['-a', names[1]]
            mon.count('attributes')
        if kind == 'crop':
            m = shape_of(r, (x0, y0 - rows * py * .7, x0 + cols * px * .5,
                             y0 - rows * py * .3), size * .8)
            # (GDAL crops to the cells wholly within the bounds)
            b = m.bounds
            m = affinity.scale(m, max(1, 2.5 * px / (b[2] - b[0])),
                               max(1, 2.5 * py / (b[3] - b[1])))
            layer(mon.tmp + '/mask.shp', 'NAME', [(m, 'x')], [])
            argv += ['-c', mon.tmp + '/mask.shp']
        rc, text = pipeline.command(mon, argv, work)
        if kind == 'script':
            mon.check(rc == 0, 'rasterize.py failed: %s', text[-1500:])
            compare(mon, work + '/test.tiff', want, near, gt, 'rasterize.py',
                    4283 if other else 4326)
        else:
            crop(mon, work, rc, text, m, feats, gt)
    else:
        preprocess(r, mon, feats, topo, gt, rows, cols, area, size)
    after = raster.tree(mon.tmp)
    mon.check(all(after.get(k) == v for k, v in before.items()),
              'the elevation raster changed')
    mon.state(kind, px, len(feats))
    mon.nontrivial = bool((want > 0).any() and (want == 0).any())


def crop(mon, work, rc, text, m, feats, gt):
    mon.check(rc == 0, 'rasterize.py -c failed: %s', text[-1500:])
    d = raster.read(work + '/test_crop.tiff')
    g = d['gt']
    mon.check(abs(g[1] - gt[1]) < 1e-9 and abs(g[5] - gt[5]) < 1e-9,
              'the cropped raster has cells of %s, expected %s', g, gt)
    b = m.bounds
    mon.check(g[0] < b[0] + gt[1] * 1.01 and g[3] > b[3] + gt[5] * 1.01,
              'the cropped raster starts at %s, the mask at %s', g, b)
    h, w = d['size']
    want, near = burn(feats, g[0], g[3], g[1], -g[5], h, w)
    inside, edge = burn([(m, 1)], g[0], g[3], g[1], -g[5], h, w)
    want[inside == 0] = 0
    mon.count('crop_cells', want.size)
    bad = ~near & ~edge & (d['a'] != want)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail('rasterize.py -c: cell (%d, %d) is %d, expected %d (%d of '
                 '%d differ)' % (i, j, d['a'][i, j], want[i, j], bad.sum(),
                                 bad.size))


def preprocess(r, mon, feats, topo, gt, rows, cols, area, size):
    """pre_process.py with a configuration file."""
    sett = [(shape_of(r, area, size), str(r.choice(list(TYPES))))]
    use = [(g, str(r.choice(list(USES)))) for g, _ in feats]
    layer(mon.tmp + '/sett.shp', 'SETTLEMENT', sett, [])
    layer(mon.tmp + '/use.shp', 'MB_CAT16', use, [])
    cfg = mon.tmp + '/pre.cfg'
    own = r.random() < .5
    with open(cfg, 'w') as f:
        f.write('[Preprocessing]\nsettlement_data = %s/sett.shp\n'
                'settlement_cat = SETTLEMENT\nland_use_data = %s/use.shp\n'
                'land_use_cat = MB_CAT16\ncrop_mask = None\n'
                'input_topo = %s\noutput_shapefile = %s/mesh.shp\n'
                'output_rasterized = %s/mesh.tif\n[inputValues]\n'
                'dem_data = %s\n' % (
                    mon.tmp, mon.tmp, topo if own else 'True', mon.tmp,
                    mon.tmp, '/nonexistent.tif' if own else topo))
    work = mon.tmp + '/work'
    os.mkdir(work)
    rc, text = pipeline.command(mon, [os.path.join(REPO, 'pre_process.py'),
                                      '-c', cfg], work)
    mon.check(rc == 0, 'pre_process.py failed: %s', text[-1500:])
    cats = []
    tied = []
    for g, u in use:
        over = sett[0][0].intersection(g).area / g.area
        s = TYPES[sett[0][1]] if over > 0 else 0
        cats.append((g, s * 100 + USES[u]))
        if 0 < over < 1e-9 or not over and sett[0][0].intersects(g) and \
                not sett[0][0].touches(g):
            tied.append((g, 1))     # a common side, by rounding
    want, near = burn(cats, gt[0], gt[3], gt[1], -gt[5], rows, cols)
    near |= burn(tied, gt[0], gt[3], gt[1], -gt[5], rows, cols)[0] > 0
    compare(mon, mon.tmp + '/mesh.tif', want, near, gt, 'pre_process.py')
    mon.count('preprocessed')
