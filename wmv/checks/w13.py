"""Symmetry: turning or mirroring the input turns or mirrors the output."""

import numpy as np

from wmv import gen, ref, tilecalc
from wmv.raster import DIRS, STEP

RULE = '''Random tiles are computed as they are and turned or mirrored (the 8
symmetries of a square), on the same ground so that cells keep their size:
the multiplier of each direction must be turned or mirrored likewise.
Shielding takes part with relief where the symmetry keeps ground distances
(mirrored east to west; mirrored north to south on the equator), otherwise
with flat ground. Non-trivial: the directions differ in at least two of the
three multipliers.'''
ASSUMPTIONS = ['cells on an aspect sector border, and cells decided by a '
               'slope on a threshold, are not compared']
MIN_COUNTS = {'cells': 30000, 'relief_cells': 4000}
MIN_NONTRIVIAL = 10
preload = tilecalc.preload
PX = [0.0002, 0.0003, 0.0005, 0.0007, 0.001, 0.0013, 0.002, 0.004]
SYM = [(k, f) for f in (0, 1) for k in range(4)]


def turn(a, k, f):
    return np.ascontiguousarray(np.rot90(a[:, ::-1] if f else a, k))


def turn_dir(d, k, f):
    di, dj = STEP[d]
    if f:
        dj = -dj
    for _ in range(k):
        di, dj = -dj, di
    return [e for e in DIRS if STEP[e] == (di, dj)][0]


def cases(rng, tier):
    n = 64 if tier == 'quick' else 1400
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'px': PX[i % len(PX)],
               'kind': ['square', 'mirror', 'square', 'equator'][
                   (i // len(PX)) % 4], 'sym': i % 7 + 1}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    kind = spec['kind']
    side = [6, 9, 15, 20, 27, 33]
    while True:
        px = float(np.round(spec['px'] * r.uniform(.9, 1.1), 6))
        rows, cols = int(r.choice(side)), int(r.choice(side))
        if kind == 'square':
            cols = rows
        x0, y0 = gen.lonlat(r)
        if kind == 'equator':
            y0 = rows * px / 2
        gw = ref.gridwidth(rows, cols, y0, px, px)
        if min(w[2] for w in ref.terrain_widths(gw).values()) > .02 and \
                abs(100 / gw - round(100 / gw)) > .01:
            break
    k, f = {'square': SYM[spec['sym']], 'mirror': (0, 1),
            'equator': (2, 1)}[kind]
    if kind == 'mirror' and r.random() < .2:
        x0, y0 = 146.2, -41.3           # Tasmania
    relief = kind != 'square'
    tab = gen.table(r, urban=.8)
    lc = gen.landcover(r, (rows, cols), [c for c, _, _ in tab], gaps=.2)
    amp = gw * float(np.exp(r.uniform(np.log(.2), np.log(4))))
    dem = gen.elevation(r, (rows, cols), gw, amp=amp).astype('f4')
    flat = np.full((rows, cols), 12., 'f4')
    out = []
    for n, (a, b) in enumerate(((0, 0), (k, f))):
        sub = 'out%d' % n
        t = tilecalc.Tile(mon.tmp, turn(lc, a, b), turn(dem, a, b), tab, x0,
                          y0, px, sub=sub)
        res = {'Mz': t.terrain(mon), 'Mt': t.topo(mon)}
        if not relief:
            t = tilecalc.Tile(mon.tmp, turn(lc, a, b), flat, tab, x0, y0, px,
                              sub=sub + 'f')
        res['Ms'] = t.shield(mon)
        out.append(res)
    amb = {d: np.zeros(lc.shape, bool) for d in DIRS}
    ambs = {d: np.zeros(lc.shape, bool) for d in DIRS}
    cell = ref.gridwidth(rows, cols, y0, px, px)
    for d in DIRS:
        raw = ref.topo_raw(dem.astype(float), d, cell)[1]
        amb[d] = ref.smooth(raw.astype(float)) > 0
        if relief:
            slope, aspect = ref.slope_aspect(dem, y0, px, px)
            ambs[d] = (ref.facing(aspect, d)[1] < 1e-2) & (slope > 3.2)
    differ = 0
    for m, tol in (('Mz', 1e-6), ('Ms', 1e-5), ('Mt', 1e-5)):
        if all(v is None for v in out[0][m].values()):
            mon.check(all(v is None for v in out[1][m].values()),
                      '%s: files for the turned tile only', m)
            continue
        want = {turn_dir(d, k, f): turn(out[0][m][d], k, f) for d in DIRS}
        a = {turn_dir(d, k, f): turn({'Mt': amb, 'Ms': ambs}.get(
            m, {}).get(d, np.zeros(lc.shape, bool)), k, f) for d in DIRS}
        tilecalc.compare(mon, out[1][m], want, tol, '%s of the tile turned '
                         'by %d quarters%s (cell %.1f m)' % (
                             m, k, ' and mirrored' if f else '', gw), a)
        if m == 'Ms' and relief:
            mon.count('relief_cells', lc.size * 8)
        o = out[0][m]
        differ += not np.array_equal(o['n'], o['s'], equal_nan=True)
        mon.state(m, k, f, ref.terrain_widths(gw)['n'][:2])
    mon.nontrivial = differ >= 2
