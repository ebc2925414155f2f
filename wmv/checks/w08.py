"""Directional upwind averaging of the terrain multiplier."""

from wmv import gen, ref, tilecalc

RULE = '''Random tiles (land cover with structure, unmapped cells, random
tables, cell sizes from 20 m to 2 km, all aspect ratios, random core window)
through the tile-level terrain computation; every cell of the 8 files is
compared with a reference model. Non-trivial: several categories, averaging
over at least one cell, and the directions differ.'''
ASSUMPTIONS = ['cell sizes whose averaging or lag distance is within 0.02 '
               'cells of a rounding edge are not generated, other than some '
               'that are 7e-5 of themselves beside one']
MIN_COUNTS = {'edges': 5, 'big_tiles': 1, 'fine_tiles': 1,
              'cells': 20000}
MIN_NONTRIVIAL = 10
preload = tilecalc.preload
PX = [0.0002, 0.00025, 0.0003, 0.0004, 0.0005, 0.0007, 0.001, 0.0013, 0.002,
      0.003, 0.004, 0.006, 0.01, 0.02]


def cases(rng, tier):
    n = 96 if tier == 'quick' else 1500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'px': PX[i % len(PX)],
               'big': i % 48 == 9 or tier != 'quick' and i % 10 == 7,
               'fine': i % 48 == 20}


def build(r, px, mon, maxcells=1700, big=False, fine=False):
    edge = r.random() < .25 and not fine
    if fine:
        # hundreds of cells within the averaging distance
        px = float(r.choice([.00005, .00004, .00003]))
    while True:
        rows = int(r.choice([3, 5, 8, 12, 20, 31, 33, 40, 60, 90]))
        cols = int(r.choice([3, 6, 9, 12, 20, 31, 37, 40, 60, 90]))
        if big:
            rows, cols = gen.big(r)
            px = max(px, float(r.choice([.004, .006, .01])))
        elif fine:
            rows, cols = [(80, 150), (140, 82), (105, 100)][
                int(r.integers(0, 3))]
        elif rows * cols > maxcells:
            continue
        x0, y0 = gen.lonlat(r)
        py = px if r.random() < .6 else px * float(r.choice([.8, 1.25, 1.5]))
        gw = ref.gridwidth(rows, cols, y0, px, py)
        if edge and not big:
            # just beside the cell size at which a distance has one cell more
            d = float(r.choice([500, 200]))
            k = int(r.integers(0, 4)) if d == 200 else int(r.integers(0, 7))
            g0 = d / (k + .5) if r.random() < .5 else d / 1.414 / (k + 1)
            g0 *= 1 + float(r.choice([-7e-5, 7e-5]))
            for _ in range(4):
                px, py = px * g0 / gw, py * g0 / gw
                gw = ref.gridwidth(rows, cols, y0, px, py)
            if rows * py < .5 and rows * cols < 500:
                mon.count('edges')
                break
            continue
        if min(w[2] for w in ref.terrain_widths(gw).values()) > 0.02:
            break
    tab = gen.table(r, odd=True)
    cats = [c for c, _, _ in tab]
    lc = gen.landcover(r, (rows, cols), cats,
                       gaps=float(r.choice([.05, .25, .25, .6, .95])),
                       gapval=int(r.choice([0, 77])))
    return rows, cols, x0, y0, px, py, gw, tab, lc


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    rows, cols, x0, y0, px, py, gw, tab, lc = build(r, spec['px'], mon,
                                                   big=spec['big'],
                                                   fine=spec['fine'])
    mon.count('big_tiles', spec['big'])
    mon.count('fine_tiles', spec['fine'])
    core = tilecalc.random_core(r, lc.shape)
    t = tilecalc.Tile(mon.tmp, lc, None, tab, x0, y0, px, py, core,
                      style=int(r.integers(0, 8)),
                      lctype=str(r.choice(['f4', 'i4'])))
    got = t.terrain(mon)
    want = ref.terrain(lc, tab, gw)
    if want is None:
        mon.count('unmapped_tiles')
        return
    tilecalc.compare(mon, got, {d: t.cut(w) for d, w in want.items()},
                     2e-5, 'Mz (cell %.1f m)' % gw)
    w = ref.terrain_widths(gw)
    mon.state(w['n'][:2], w['ne'][:2], rows > cols)
    mon.nontrivial = bool(
        w['n'][0] > 0 and len(set(lc.ravel())) > 1 and
        abs(got['n'] - got['s'])[~(got['n'] != got['n'])].max(initial=0) > 0)
