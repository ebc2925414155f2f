"""Shielding multiplier: upwind buildings, slope, conservatism."""

import numpy as np

from wmv import gen, ref, tilecalc

RULE = '''Random tiles (buildings with structure, all kinds of terrain
from flat to cliffs, cell sizes 18 m to 2 km so that the upwind fetch is 0
to 5 cells) through the tile-level shielding computation; every cell of the
8 files is compared with a reference model, and must be within (0, 1]. Also
unshielded land must be exactly 1. Non-trivial: some Ms below 0.95, and the
directions differ or the fetch is 0 cells.'''
ASSUMPTIONS = [
    'cells whose aspect is within 0.001 degrees of a sector border, on a '
    'slope above 3.27 degrees, are not compared (counted as ambiguous)',
    'cell sizes within 5e-5 of a divisor of 100 m are not generated']
MIN_COUNTS = {'edges': 5, 'tiles_with_missing': 3, 'big_tiles': 1, 'cells': 50000, 'sloping_facing_cells': 500}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload
PX = [0.00017, 0.00021, 0.00025, 0.0003, 0.0004, 0.0006, 0.00085, 0.001,
      0.002, 0.02]


def cases(rng, tier):
    n = 160 if tier == 'quick' else 4000
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'px': PX[i % len(PX)],
               'big': i % 80 == 9 or tier != 'quick' and i % 20 == 7}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    px = spec['px']
    edge = not spec['big'] and r.random() < .2
    while True:
        rows = int(r.choice([2, 3, 7, 12, 25, 40, 55]))
        cols = int(r.choice([2, 4, 9, 16, 30, 45]))
        if spec['big']:
            rows, cols = gen.big(r)
        x0, y0 = gen.lonlat(r)
        py = px if r.random() < .6 else px * float(r.choice([.8, 1.25]))
        gw = ref.gridwidth(rows, cols, y0, px, py)
        if edge:
            # just beside a cell size that divides 100 m
            g0 = 100. / int(r.integers(1, 7)) * \
                (1 + float(r.choice([-7e-5, 7e-5])))
            for _ in range(4):
                px, py = px * g0 / gw, py * g0 / gw
                gw = ref.gridwidth(rows, cols, y0, px, py)
            if rows * py < .5 and rows < 30:
                mon.count('edges')
                break
            continue
        k = 100. / gw
        if abs(k - round(k)) > 0.01 * k or k < .8:
            break
    mon.count('big_tiles', spec['big'])
    tab = gen.table(r, urban=.7, odd=True)
    cats = [c for c, _, _ in tab]
    lc = gen.landcover(r, (rows, cols), cats, gaps=.2, gapval=0)
    dem = gen.elevation(r, (rows, cols), gw)
    if r.random() < .5:
        # gentle terrain, so that slopes lie between the thresholds
        dem = dem / max(dem.std(), 1e-6) * gw * r.uniform(.05, .6)
    dem = dem.astype('f4')
    core = tilecalc.random_core(r, lc.shape)
    demtype = 'f4'
    if r.random() < .15:
        dem = np.round(dem)
        demtype = 'i4'
    nd, tile_dem = None, dem
    if demtype == 'f4' and r.random() < .15:
        nd = -32768.
        dem[r.random(dem.shape) < float(r.choice([.02, .1, .5]))] = np.nan
        tile_dem = np.where(np.isnan(dem), nd, dem)
        mon.count('tiles_with_missing')
    t = tilecalc.Tile(mon.tmp, lc, tile_dem, tab, x0, y0, px, py, core,
                      style=int(r.integers(0, 8)), demtype=demtype,
                      demnodata=nd,
                      lctype=str(r.choice(['f4', 'i4'])))
    got = t.shield(mon)
    both = ref.shielding(lc, dem, tab, gw, y0, px, py)
    want = {d: t.cut(v[0]) for d, v in both.items()}
    amb = {d: t.cut(v[1]) for d, v in both.items()}
    tol = 1e-3 if rows * py > .2 else 1e-4
    tilecalc.compare(mon, got, want, tol, 'Ms (cell %.1f m)' % gw, amb)
    slope, aspect = ref.slope_aspect(dem, y0, px, py)
    for d in got:
        v = got[d]
        mon.check((v > 0).all() and (v <= 1 + 1e-6).all(),
                  'Ms outside (0, 1]: %r to %r', v.min(), v.max())
        f = ref.facing(aspect, d)[0] & (slope > 3.27) & (slope < 12.3)
        mon.count('sloping_facing_cells', t.cut(f).sum())
    left = [p for p in __import__('os').listdir(t.out + '/shielding')
            if not p.endswith('.nc')]
    mon.check(not left, 'files left in the shielding folder: %s', left)
    mon.state(int(100. / gw), rows, cols)
    mon.nontrivial = bool(min(v.min() for v in got.values()) < .95)
