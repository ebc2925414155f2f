"""Initial terrain multiplier from the roughness table."""

import numpy as np

from wmv import gen, ref, tilecalc

RULE = '''Three kinds of cases: a tile of a single land cover class (any
category value and roughness, cells of 20 m to 2 km) must have the formula
value in every cell of all 8 directions; a random classified array must map
cell by cell, with unmapped cells missing; a tile with two tables that
differ only in row order, comments, unused classes and column order must
give the same files. Non-trivial: at least one mapped class whose multiplier
is not 1.'''
MIN_COUNTS = {'cells': 5000, 'formula_cells': 2000, 'table_pairs': 5}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload


def cases(rng, tier):
    n = 120 if tier == 'quick' else 2500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['uniform', 'array', 'tables'][i % 3]}


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    x0, y0 = gen.lonlat(r)
    if spec['kind'] == 'array':
        import pandas as pd
        from terrain import terrain_mult
        tab = gen.table(r, ncat=int(r.integers(1, 25)), odd=True)
        cats = [c for c, _, _ in tab] + [0, 255, 40000]
        a = r.choice(cats, (int(r.integers(1, 30)), int(r.integers(1, 30))))
        a = a.astype(str(r.choice(['f4', 'i4', 'f8'] + ['u2'] * (
            0 <= min(cats) and max(cats) < 65536))))
        df = pd.DataFrame({'CATEGORY': [t[0] for t in tab],
                           'DESCRIPTION': ['d'] * len(tab),
                           'ROUGHNESS_LENGTH_m': [t[1] for t in tab],
                           'SHIELDING': [t[2] for t in tab]})
        keep = a.copy()
        got = mon.code(terrain_mult.terrain_class2mz_orig, a, df)
        mon.check((keep == a).all(), 'the classified array was changed')
        want = np.nan_to_num(ref.terrain_initial(a, tab), nan=0.0)
        mon.count('formula_cells', a.size)
        bad = ~(abs(got - want) < 1e-5)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('class %r maps to %r, expected %r' % (
                a[i, j], got[i, j], want[i, j]))
        mon.nontrivial = bool((abs(want[want > 0] - 1) > 1e-3).any())
        return
    px = float(r.choice([0.0002, 0.00025, 0.0005, 0.001, 0.004, 0.02]))
    shape = (int(r.integers(2, 30)), int(r.integers(2, 30)))
    tab = gen.table(r, ncat=int(r.integers(80, 300)) if r.random() < .15
                    else None, odd=True)
    if spec['kind'] == 'uniform':
        c, z0, _ = tab[int(r.integers(0, len(tab)))]
        lc = np.full(shape, c)
        t = tilecalc.Tile(mon.tmp, lc, None, tab, x0, y0, px,
                          style=int(r.integers(0, 8)))
        got = t.terrain(mon)
        w = ref.mz_of_roughness(z0)
        tilecalc.compare(mon, got, {d: np.full(shape, w) for d in got}, 2e-5,
                         'Mz of uniform class with roughness %r' % z0)
        mon.nontrivial = abs(w - 1) > 1e-3
        return
    cats = [c for c, _, _ in tab]
    lc = gen.landcover(r, shape, cats, gaps=.3)
    if not np.isin(lc, cats).any():
        return
    one = tilecalc.Tile(mon.tmp, lc, None, tab, x0, y0, px, sub='a').terrain(
        mon)
    more = [tab[k] for k in r.permutation(len(tab))]
    more += [(9001, 0.3, 80.0), (9002, 0.001, 100.0)]
    t = tilecalc.Tile(mon.tmp, lc, None, tab, x0, y0, px, sub='b')
    with open(mon.tmp + '/b.csv', 'w') as f:
        f.write('# first comment\nROUGHNESS_LENGTH_m,SHIELDING,NOTE,CATEGORY,'
                'DESCRIPTION\n')
        for c, z, s in more:
            f.write('%r,%s,n,%d,"a, b"\n' % (z, s, c))
        f.write('# last, comment\n')
    two = t.terrain(mon)
    tilecalc.compare(mon, two, one, 1e-7, 'Mz with an equivalent table')
    mon.count('table_pairs')
    mon.nontrivial = True
