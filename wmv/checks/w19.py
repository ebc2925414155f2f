"""Preprocessing of settlements and land use into terrain categories."""

import os

import numpy as np

from wmv import gen

RULE = '''Random settlement and land use layers, with land use that two
settlements share nearly equally (rectangles, L shapes,
overlapping and scattered settlements of all and of unknown types, features
without geometry, extra attributes), with and without a crop mask, through
pre_process; each output feature is compared with a brute-force join.
Non-trivial: some land use overlaps several settlements.'''
ASSUMPTIONS = ['features whose largest overlap is shared by two settlement '
               'types are compared except for their settlement',
               'valid polygons (a settlement may have a spike)']
MIN_COUNTS = {'features': 1000, 'several': 150, 'uncovered': 30,
              'cropped_away': 30, 'cut': 20, 'unknown': 30,
              'beside': 100, 'ragged': 5, 'spikes': 8,
              'accents': 200}
MIN_NONTRIVIAL = 10
TYPES = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
         'Small Town': 5}
OTHER = ['Village', 'Remote', 'urban', 'Town']
USES = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
        'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
        'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}
UNKNOWN = ['Shipping', 'residential', 'Nowhere']


def preload():
    import tempfile
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        try:
            import pre_process  # noqa: F401  (writes a log file here)
        finally:
            os.chdir(cwd)


def cases(rng, tier):
    n = 300 if tier == 'quick' else 3000
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'crop': i % 3 == 1,
               'snap': i % 4 > 1}


def shape_of(r, box, size, low=0.):
    from shapely.geometry import Polygon, box as rect
    x = float(r.uniform(box[0], box[2]))
    y = float(r.uniform(box[1], box[3]))
    w, h = (float(v) for v in r.uniform(size / 4., size, 2))
    u = r.uniform(low, 1)
    if u < .7:
        return rect(x, y, x + w, y + h)
    if u < .85:
        return Polygon([(x, y), (x + w, y), (x + w, y + h / 3),
                        (x + w / 3, y + h / 3), (x + w / 3, y + h),
                        (x, y + h)])
    return Polygon([(x, y), (x + w, y + h / 5), (x + w / 2, y + h)])


def richer(r, g):
    """The shape with a hole, or in two parts, or as it is."""
    from shapely import affinity
    u = r.random()
    if u < .12:
        return g.difference(affinity.scale(g, .4, .4, origin='centroid'))
    if u < .24:
        w = g.bounds[2] - g.bounds[0]
        return g.union(affinity.translate(g, 1.7 * w, .3 * w))
    return g


def snapped(g, x0, y0, unit):
    """The shape with its corners on a grid, None if it collapses."""
    from shapely.geometry import Polygon
    p = [(x0 + unit * round((x - x0) / unit), y0 + unit * round((y - y0) / unit))
         for x, y in g.exterior.coords]
    g = Polygon([q for k, q in enumerate(p) if k == 0 or q != p[k - 1]] if
                len(set(p)) > 2 else [])
    return g if g.area and g.is_valid else None


def spiked(g):
    """The shape with a spike: the same area, but not a valid polygon."""
    from shapely.geometry import Polygon
    p = list(g.exterior.coords)[:-1]
    x, y = p[1]
    return Polygon(p[:2] + [(x + (x - p[0][0]), y + (y - p[0][1]))] + p[1:])


MORE = ['NOTE', 'HEIGHT', 'BIG', 'DAY']
NOTES = {'ISO-8859-1': ['caf\u00e9', 'M\u00fcller St', 'z' * 80,
                        '\u00e9' * 80, 'plain', None],
         'UTF-8': ['K\u0101piti', 'O\u2019Connor', '\u6c34', '\u00e9',
                   'z' * 80, 'plain', None],
         'CP1252': ['O\u2019Connor', '\u2013', '\u00e9' * 80, 'plain', None]}


def notes(r, n, encoding):
    """Further attributes of n features."""
    def one(vals):
        return vals[int(r.integers(0, len(vals)))]
    return [{'NOTE': one(NOTES[encoding or 'ISO-8859-1']),
             'HEIGHT': one([None, 0.0, 1.23456789012345, -273.15, 1e6]),
             'BIG': one([None, 0, 2000000000, -5]),
             'DAY': one([None, '2020/02/03', '1999/12/31'])}
            for _ in range(n)]


def layer(path, field, feats, extra, encoding=None, more=None,
          blank=None):
    """feats: [(geometry or None, value)]"""
    from osgeo import ogr, osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    ds = ogr.GetDriverByName('ESRI Shapefile').CreateDataSource(path)
    ly = ds.CreateLayer('x', s, ogr.wkbPolygon,
                        ['ENCODING=' + encoding] if encoding else [])
    fd = ogr.FieldDefn(field, ogr.OFTString)
    fd.SetWidth(60)
    ly.CreateField(fd)
    for e in extra:
        ly.CreateField(ogr.FieldDefn(e, ogr.OFTInteger))
    for n, t in zip(MORE, (ogr.OFTString, ogr.OFTReal, ogr.OFTInteger64,
                           ogr.OFTDate)) if more else ():
        fd = ogr.FieldDefn(n, t)
        if t == ogr.OFTString:
            fd.SetWidth(80)
        if t == ogr.OFTReal:
            fd.SetWidth(24)
            fd.SetPrecision(15)
        ly.CreateField(fd)
    for k, (g, v) in enumerate(feats):
        f = ogr.Feature(ly.GetLayerDefn())
        if v is not None:
            f.SetField(field, v)
        for e in extra:
            if k != blank:
                f.SetField(e, k)
        for n in MORE if more else ():
            if more[k][n] is not None:
                f.SetField(n, more[k][n])
        if g is not None:
            f.SetGeometry(ogr.CreateGeometryFromWkb(g.wkb))
        ly.CreateFeature(f)
    ds = None


def polygons(g):
    from shapely.ops import unary_union
    if g.geom_type != 'GeometryCollection':
        return g
    return unary_union([p for p in g.geoms if p.area])


def result(path, fields):
    from osgeo import ogr
    from shapely import wkb
    ds = ogr.Open(path)
    ly = ds.GetLayer()
    names = [ly.GetLayerDefn().GetFieldDefn(i).GetName()
             for i in range(ly.GetLayerDefn().GetFieldCount())]
    out = []
    for f in ly:
        out.append((wkb.loads(bytes(f.GetGeometryRef().ExportToWkb())),
                    {n: f.GetField(n) for n in names}))
    ds = None
    return names, out


def run_case(spec, mon):
    import pre_process
    from shapely.geometry import Polygon, box as rect
    from shapely.ops import unary_union
    r = gen.nprng(spec['seed'])
    x0, y0 = gen.lonlat(r)
    size = float(r.choice([.1, 1., 3.]))
    area = (x0, y0, x0 + size, y0 + size)
    scat = str(r.choice(['SETTLEMENT', 'STYPE']))
    lcat = str(r.choice(['MB_CAT16', 'USE']))
    sett = []
    for _ in range(int(r.integers(1, 14))):
        t = str(r.choice(list(TYPES))) if r.random() < .8 else \
            str(r.choice(OTHER))
        sett.append((shape_of(r, area, size * .5), t))
    # shapes that share corners and edges
    if spec['snap']:
        unit = size / float(r.choice([8, 16]))

        def fix(g):
            return snapped(g, x0, y0, unit)
    else:
        def fix(g):
            return richer(r, g)
    sett = [(fix(g), t) for g, t in sett]
    near = []
    for _ in range(int(r.integers(0, 4)) * (not spec['snap'])):
        # land use that two settlements share nearly equally
        xm, ym = x0 + size * r.uniform(.3, .7), y0 + size * r.uniform(.2, .6)
        w, d = size * r.uniform(.05, .2), float(r.choice(
            [-1, 1])) * 10 ** r.uniform(-4.5, -2)
        a, b = r.choice(list(TYPES), 2, False)
        left = rect(xm - 2 * w, ym, xm, ym + w)
        if r.random() < .3:     # by a small bulge of the border
            e = w * 10 ** r.uniform(-2.5, -.7)
            left = left.union(Polygon([
                (xm, ym + .2 * w), (xm + e, ym + .4 * w), (xm, ym + .6 * w)]))
            d = .125 * e / w
        sett += [(left, str(a)),
                 (rect(xm, ym, xm + 2 * w, ym + w), str(b))]
        near.append((rect(xm - w, ym - w * .3, xm + w * (1 + d),
                          ym + w * .8), str(r.choice(list(USES)))))
        mon.count('near')
    spikes = set()
    if r.random() < .4:
        alone = [k for k, (g, t) in enumerate(sett) if t in TYPES and
                 g is not None and g.geom_type == 'Polygon' and
                 not g.interiors and sum(q == t for _, q in sett) == 1]
        spikes.update(alone[:2])
        mon.count('spikes', len(spikes))
    if r.random() < .3 and not spikes:
        sett.append((None, 'City'))
    if r.random() < .2:
        sett.append((shape_of(r, area, size * .5), None))
    use = []
    for _ in range(int(r.integers(3, 50))):
        t = str(r.choice(list(USES))) if r.random() < .85 else \
            str(r.choice(UNKNOWN))
        g = fix(shape_of(r, area, size * float(r.choice([.03, .1, .3, .5])),
                         .5 * spec['snap']))
        use.append((g if r.random() < .95 else None, t))
    use += near
    sf, lf = mon.tmp + '/sett.shp', mon.tmp + '/use.shp'
    layer(sf, scat, [(spiked(g) if k in spikes else g, t)
                    for k, (g, t) in enumerate(sett)], ['CODE'])
    encoding = [None, 'UTF-8', 'CP1252'][int(r.integers(0, 3))]
    more = notes(r, len(use), encoding)
    blank = None
    if r.random() < .3:     # drawn, but not filled in
        blank = int(r.integers(0, len(use)))
        use[blank] = (use[blank][0], None)
        more[blank] = dict.fromkeys(MORE)
        mon.count('blank')
    layer(lf, lcat, use, ['KEY'], encoding, more, blank)
    mask = 'None'
    clip = None
    if spec['crop']:
        m = shape_of(r, (x0 - size * .1, y0 - size * .1, x0 + size * .5,
                         y0 + size * .5), size)
        m = fix(m) or rect(x0, y0, x0 + size / 2, y0 + size / 2)
        ells = [g for g, _ in use if spec['snap'] and g is not None and
                len(g.exterior.coords) == 7]
        if ells and r.random() < .6:
            # along the inner edge of a shape
            q = ells[int(r.integers(0, len(ells)))]
            b = q.bounds
            m = rect(b[0] - size / 8, q.exterior.coords[2][1],
                     b[2] + size / 2, b[3] + size / 2)
        mask = mon.tmp + '/mask.shp'
        layer(mask, 'NAME', [(m, 'x')] + [(rect(0, 0, 1, 1), 'y')] *
              int(r.integers(0, 2)), [])
        clip = rect(*m.bounds)
    out = mon.tmp + '/out.shp'
    hold = {k: os.stat(k).st_mtime_ns for k in (sf, lf)}
    groups = {}
    for g, t in sett:
        if g is not None:
            groups.setdefault(t if t in TYPES else None, []).append(g)
    groups = {t: unary_union(g) for t, g in groups.items()}
    want = []
    for k, (g, t) in enumerate(use):
        if g is None:
            continue
        if clip is not None:
            c = g.intersection(clip)
            if not c.area:
                mon.count('cropped_away')
                continue
            mon.count('cut', c.area < g.area * .999)
            mon.count('ragged', c.geom_type == 'GeometryCollection')
            g = polygons(c)
        want.append((g, t, k))
    if not want:
        mon.count('nothing')
    if clip is not None:
        groups = {t: polygons(g.intersection(clip))
                  for t, g in groups.items()}
        groups = {t: g for t, g in groups.items() if g.area}
    mon.code(pre_process.pre_process, sf, scat, lf, lcat, mask, out)
    names, got = result(out, None)
    mon.check({scat, lcat, 'KEY', 'CAT'} <= set(names), 'the output has the '
              'fields %s', names)
    mon.check(len(got) == len(want), '%d land use features give %d',
              len(want), len(got))
    for _, a in got:
        if a['KEY'] is None:
            a['KEY'] = blank
    byk = {a['KEY']: (g, a) for g, a in got}
    mon.check([a['KEY'] for _, a in got] == [k for _, _, k in want],
              'features %s, expected %s', sorted(byk),
              [k for _, _, k in want])
    several = False
    for g, t, k in want:
        h, a = byk[k]
        mon.count('features')
        mon.check(abs(h.area - g.area) < 1e-9 * g.area + 1e-15 and
                  h.symmetric_difference(g).area < 1e-6 * g.area,
                  'feature %d: another geometry: %s, expected %s', k, h.wkt,
                  g.wkt)
        for n in MORE:
            mon.check(a[n] == more[k][n], 'feature %d: %s %r comes out as '
                      '%r', k, n, more[k][n], a[n])
            mon.count('accents', n == 'NOTE' and not (a[n] or '').isascii())
        mon.check(a[lcat] == t, 'feature %d: %s is %r, not %r', k, lcat,
                  a[lcat], t)
        ov = sorted(((groups[q].intersection(g).area, str(q))
                     for q in groups if groups[q].intersects(g)),
                    reverse=True)
        if any(0 < v < 1e-9 * g.area for v, _ in ov) or \
                any(not v and not groups[None if q == 'None' else q].touches(g)
                    for v, q in ov):
            mon.count('tied')       # by rounding
            continue
        beside = [v for v, _ in ov if not v]
        mon.count('beside', len(beside))
        ov = [v for v in ov if v[0]]
        mon.count('several', len(ov) > 1)
        several |= len(ov) > 1
        mon.count('uncovered', not ov)
        mon.count('unknown', t not in USES)
        if len(ov) > 1 and ov[0][0] - ov[1][0] < 1e-6 * g.area:
            mon.count('tied')
            mon.check(a['CAT'] % 100 == USES.get(t, 0), 'feature %d: CAT %s '
                      'for %s', k, a['CAT'], t)
            continue
        s = ov[0][1] if ov else 'None'
        s = None if s == 'None' else s
        cat = TYPES.get(s, 0) * 100 + USES.get(t, 0)
        mon.check(a[scat] == s and a['CAT'] == cat, 'feature %d (%s) '
                  'overlaps %s of its %g: settlement %r and CAT %s, expected '
                  '%r and %s', k, t, ov, g.area, a[scat], a['CAT'], s, cat)
    mon.check(hold == {k: os.stat(k).st_mtime_ns for k in (sf, lf)},
              'the inputs changed')
    mon.state(len(groups), spec['crop'])
    mon.nontrivial = several
