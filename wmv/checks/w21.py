"""Tiling independence: multipliers of a whole run against models evaluated
on the whole raster."""

import math

import numpy as np

from wmv import gen, pipeline, ref, tilecalc

RULE = '''Whole runs over rasters cut into 2 to 6 tiles, thin in one direction
so that cells can be small (100 m to 700 m) and upwind averages cross the
seams (square or oblong), with an upwind length at least that of the averages. Terrain and
shielding files are compared with reference models evaluated on the whole,
uncut raster; topographic files with the model on the buffered tile. Tiles
at the edge of the raster use only what is there. Non-trivial: averages of
at least one cell cross a seam.'''
ASSUMPTIONS = ['distances are rounded to cells with the mean cell size of '
               'the buffered tile, as documented',
               'tiles whose averaging or lag distance is within 0.02 cells '
               'of a rounding edge are not compared',
               'cells on an aspect sector border are not compared']
MIN_COUNTS = {'cells': 100000, 'seam_cells': 1000, 'tiles': 30}
MIN_NONTRIVIAL = 8
preload = pipeline.preload
# (cell, rows or columns across)
SHAPES = [(1 / 150., 9), (1 / 200., 8), (1 / 200., 5), (1 / 300., 7),
          (1 / 400., 6), (1 / 600., 4), (1 / 900., 3), (1 / 1100., 4)]


def cases(rng, tier):
    n = 32 if tier == 'quick' else 480
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'shape': i % len(SHAPES),
               'along': ['x', 'y'][(i // len(SHAPES)) % 2]}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    px, across = SHAPES[spec['shape']]
    step = int(round(1 / px))
    # cells may be higher or wider than the other way
    py = px * float(r.choice([1, 1, 1, 1, .5, .8, 1.25, 2]))
    if spec['along'] == 'y':
        step = int(math.ceil(round(1 / py, 6)))
    x0, y0 = gen.lonlat(r)
    n = step * int(r.integers(1, 3)) + int(r.integers(2, step // 2))
    if n * across > 6000:
        n = step + int(r.integers(2, step // 4))
    shape = (across, n) if spec['along'] == 'x' else (n, across)
    gw = ref.gridwidth(shape[0], shape[1], y0, px, py)
    need = 710. / gw + 1
    up = max(px, py) * (int(need) + .5 + float(r.choice([0, 0, 3])))
    amp = gw * float(np.exp(r.uniform(np.log(.3), np.log(4))))
    dem = (gen.elevation(r, shape, gw, amp=amp) + 1.5).astype('f4')
    dem[dem == 0] = 1
    tab = gen.table(r, urban=.8)
    cats = [c for c, _, _ in tab]
    kind = 'noise' if r.random() < .5 else None
    lc = gen.landcover(r, shape, cats, kind, gaps=.2)
    case = pipeline.Case(mon.tmp, dem, lc, tab, x0, y0, px, py, up=up)
    pipeline.run(mon, case)
    got = {f: case.read(mon, f, k)[0] for f, k in pipeline.KINDS.items()}
    tiles = case.tiles()
    mon.count('tiles', len(tiles))
    mon.check(len(tiles) > 1, 'one tile')
    crossing = False
    for core, buf in tiles:
        i0, i1, j0, j1 = core
        b0, b1, c0, c1 = buf
        what = 'tile of rows %d to %d, columns %d to %d (cell %r x %r)' % (
            i0, i1, j0, j1, px, py)
        tgw = ref.gridwidth(b1 - b0, c1 - c0, y0 - b0 * py, px, py)
        w = ref.terrain_widths(tgw)

        def cut(a):
            return a[i0:i1, j0:j1]
        seam = np.zeros(shape, bool)
        if len(tiles) > 1:
            if spec['along'] == 'x':
                seam[:, [j for j in (j0, j1 - 1) if 0 < j < n - 1]] = True
            else:
                seam[[i for i in (i0, i1 - 1) if 0 < i < n - 1]] = True
        mon.count('seam_cells', cut(seam).sum() * 8)
        if min(v[2] for v in w.values()) > .02:
            want = ref.terrain(lc, tab, tgw)
            bm = lc[b0:b1, c0:c1]
            if want is not None and np.isin(bm, cats).any():
                if core not in got['terrain']:
                    mon.fail('%s: no terrain files' % what)
                tilecalc.compare(mon, got['terrain'][core],
                                 {d: cut(v) for d, v in want.items()}, 2e-5,
                                 'Mz, ' + what)
                crossing |= w['n'][0] > 0
        k = 100. / tgw
        if abs(k - round(k)) > .01 or k < .9:
            both = ref.shielding(lc, dem, tab, tgw, y0, px, py)
            for f in ('shielding', 'topographic'):
                if core not in got[f]:
                    mon.fail('%s: no %s files' % (what, f))
            tilecalc.compare(mon, got['shielding'][core],
                             {d: cut(v[0]) for d, v in both.items()}, 1e-3,
                             'Ms, ' + what,
                             {d: cut(v[1]) for d, v in both.items()})
        x_left = x0 + c0 * px
        y_up = y0 - b0 * py
        both = ref.topographic(dem[b0:b1, c0:c1].astype(float), tgw,
                               x_left > 143.0 and y_up < -40.0)

        def cutb(a):
            return a[i0 - b0:i1 - b0, j0 - c0:j1 - c0]
        tilecalc.compare(mon, got['topographic'][core],
                         {d: cutb(v[0]) for d, v in both.items()}, 3e-5,
                         'Mt, ' + what,
                         {d: cutb(v[1]) for d, v in both.items()})
        mon.state(px, py, w['n'][:2], w['ne'][:2], spec['along'])
    mon.nontrivial = crossing
