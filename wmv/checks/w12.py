"""Topographic multiplier of a tile."""

import numpy as np

from wmv import gen, raster, ref, tilecalc

RULE = '''Random DEM tiles (all terrain kinds, missing cells, integer and
float elevations, in and out of Tasmania, 2 to 45 cells a side, cells of 20
m to 2 km, random core window) through the tile-level topographic
computation; every cell of the 8 files is compared with a reference model,
is at least 1 and, outside Tasmania, at most 1.54. Non-trivial: some cell
above 1.05.'''
ASSUMPTIONS = ['cells near one whose slope is within 1e-9 of a threshold '
               'are not compared (counted as ambiguous)']
MIN_COUNTS = {'big_tiles': 1, 'cells': 50000, 'raised': 2000, 'tasmania_tiles': 5}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload
PX = [.0002, .00025, .0004, .001, .002, .004, .02]


def cases(rng, tier):
    n = 140 if tier == 'quick' else 3500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'px': PX[i % len(PX)],
               'tas': i % 5 == 0, 'big': i % 47 == 9}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    px = spec['px']
    rows = int(r.choice([2, 3, 8, 15, 25, 40, 45]))
    cols = int(r.choice([2, 4, 9, 16, 30, 45]))
    if spec['big']:
        rows, cols = gen.big(r)
        mon.count('big_tiles')
    x0, y0 = gen.lonlat(r)
    if spec['tas']:
        x0, y0 = float(r.uniform(143.2, 149)), float(r.uniform(-44, -40.2))
        if r.random() < .4:
            y0 = float(r.choice([-40.01, -40.1, -40.4]))
        elif r.random() < .4:
            x0 = float(r.choice([143.01, 143.1, 143.6]))
    elif r.random() < .3:
        # next to the borders of the Tasmania rule
        x0, y0 = [(142.9, -42.), (145., -39.9), (143.1, -39.), (150, -38.),
                  (143., -42.), (145., -40.)][int(r.integers(0, 6))]
    py = px if r.random() < .7 else px * float(r.choice([.8, 1.25]))
    gw = ref.gridwidth(rows, cols, y0, px, py)
    amp = gw * float(np.exp(r.uniform(np.log(.2), np.log(12))))
    dem = gen.elevation(r, (rows, cols), gw, amp=amp)
    if spec['tas']:
        dem = dem + float(r.choice([0, 450, 900]))
        u = r.random()
        if u < .4:              # about the height of the rule
            dem = dem + float(np.round(500.4 - np.median(dem), 2))
        elif u < .6:
            dem = np.where(dem > np.median(dem), 500 + r.random(dem.shape) *
                           .9, dem)
        mon.count('tasmania_tiles')
    typ, nd = 'f4', None
    dem = dem.astype('f4')
    u = r.random()
    if u < .15:
        typ = 'i4'
        dem = np.round(dem)
    elif u < .35:
        m = r.random(dem.shape) < .1
        if u < .25:
            m[:, :cols // 2] = True
        dem[m] = np.nan
        if u > .3:
            nd = -32768.0
    tile_dem = dem
    if nd is not None:
        tile_dem = np.where(np.isnan(dem), nd, dem)
    core = tilecalc.random_core(r, dem.shape)
    t = tilecalc.Tile(mon.tmp, None, tile_dem, None, x0, y0, px, py, core,
                      demtype=typ, demnodata=nd)
    got = t.topo(mon)
    at = raster.read(t.demfile)['gt']       # as stored, to the last digit
    tas = at[0] > 143.0 and at[3] < -40.0
    both = ref.topographic(dem.astype(float), gw, tas)
    want = {d: t.cut(v[0]) for d, v in both.items()}
    amb = {d: t.cut(v[1]) for d, v in both.items()}
    tilecalc.compare(mon, got, want, 3e-5, 'Mt (cell %.1f m)' % gw, amb)
    for d, v in got.items():
        w = v[~np.isnan(v)]
        if not w.size:
            continue
        mon.check(w.min() >= 1 - 1e-6, 'Mt below 1: %r', w.min())
        mon.check(tas or w.max() <= 1.5391, 'Mt above 1.539: %r', w.max())
        mon.count('raised', (w > 1.02).sum())
    mon.state(px, rows, cols, typ, tas)
    mon.nontrivial = mon.counts.get('raised', 0) > 0
