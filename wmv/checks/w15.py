"""The product M3 = Mz x Ms x Mt."""

import os

import numpy as np

from wmv import gen, pipeline, raster, tiles

RULE = '''Random multiplier files (some tiles with cells marked missing by -9999 or NaN,
whole directions missing, absent terrain or topographic files) are converted;
the 8 bands of each M3 file are compared with the product, and so are those
of whole runs with the multiplier files of the run. Non-trivial: the
tile has missing cells or absent files.'''
ASSUMPTIONS = ['the multiplier files are in the layout that save_multiplier '
               'writes; the shielding file of the north exists (the program '
               'takes the extent from it)']
MIN_COUNTS = {'cells': 30000, 'missing_cells': 2000, 'absent_files': 20,
              'tiles': 40, 'run_cells': 2000}
MIN_NONTRIVIAL = 10
preload = pipeline.preload


def cases(rng, tier):
    n = 48 if tier == 'quick' else 1500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['missing', 'plain', 'lost', 'nan', 'run', 'lost'][i % 6]}


def whole_run(r, mon):
    case = pipeline.small(r, mon.tmp)
    pipeline.run(mon, case)
    parts = {f: case.read(mon, f, k)[0] for f, k in pipeline.KINDS.items()}
    base = os.path.join(case.out, 'M3')
    for f in sorted(os.listdir(base)):
        if not f.endswith('.tif'):
            continue
        d = raster.read(os.path.join(base, f))
        g = d['gt']
        q = [(g[0] - case.x0) / case.px, (case.y0 - g[3]) / case.py]
        mon.check(max(abs(v - round(v)) for v in q) < 1e-3 and
                  abs(g[1] / case.px - 1) < 1e-6 and
                  abs(g[5] / case.py + 1) < 1e-6, 'M3/%s is at %s', f, g)
        j, i = [int(round(v)) for v in q]
        core = (i, i + d['size'][0], j, j + d['size'][1])
        mon.check(core in parts['shielding'], 'M3/%s is at cells %s', f, core)
        top = np.full(d['size'], -9999.)
        for b, dr in enumerate(tiles.BANDS):
            want = np.ones(d['size'])
            for k in parts:
                if core in parts[k]:
                    want = want * parts[k][core][dr]
            want[np.isnan(want)] = -9999
            top = np.maximum(top, want)
            bad = abs(d['a'][b] - want) > 1e-6 * abs(want)
            mon.count('run_cells', bad.size)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                mon.fail('M3/%s, %s: cell (%d, %d) is %r, the multiplier '
                         'files there give %r' % (f, dr, i, j,
                                                  d['a'][b][i, j],
                                                  want[i, j]))
        m = raster.read(os.path.join(case.out, 'M3_max', f))
        mon.check(np.allclose(m['a'], top, 1e-6, 0), 'M3_max/%s is not the '
                  'maximum of its directions', f)
    mon.nontrivial = True


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    kind = spec['kind']
    if kind == 'run':
        whole_run(r, mon)
        return
    root = os.path.join(mon.tmp, 'set_%d' % spec['seed'])
    ts = tiles.TileSet(r, root, int(r.integers(1, 5)),
                       missing={'plain': 0., 'nan': .05}.get(kind, .15),
                       nan=.1 if kind == 'nan' else 0.,
                       lost=.2 if kind == 'lost' else 0.)
    converted(ts, root, mon)
    if r.random() < .5:
        # the same tiles again, after some multipliers were computed anew
        for name in ts.vals:
            x, y, h, w = ts.where[name]
            keys = [k for k in ts.vals[name]
                    if (name,) + k not in ts.lostfiles]
            for c in r.permutation(len(keys))[:int(r.integers(0, 4))]:
                kind, d = keys[c]
                v = r.uniform(.5, 1.5, (h, w)).astype('f4')
                v[r.random((h, w)) < .1] = -9999
                raster.write_nc(ts.path(name, kind, d), kind, v, x, y, ts.px,
                                ts.py)
                ts.vals[name][kind, d] = v
                mon.count('anew')
        converted(ts, root, mon)
    mon.nontrivial = kind != 'plain'


def converted(ts, root, mon):
    """Converts all tiles and looks at the files."""
    from utilities import convert
    before = {k: v for k, v in raster.tree(root).items()
              if not k.startswith('M3')}
    names = list(ts.vals)
    conv = convert.Converter(names, root)
    got = mon.code(conv.run)
    mon.check(sorted(got[0]) == sorted(os.path.join(root, 'M3', n + '.tif')
                                       for n in names),
              'the converter reports the files %s', got[0])
    for n in names:
        d = raster.read(os.path.join(root, 'M3', n + '.tif'))
        x, y, h, w = ts.where[n]
        mon.check(d['n'] == 8 and d['size'] == (h, w) and
                  d['desc'] == tiles.BANDS and set(d['types']) == {'Float32'},
                  'M3/%s.tif: %d bands %s of %s cells', n, d['n'], d['desc'],
                  d['size'])
        mon.check(set(d['nodata']) == {-9999.}, 'M3/%s.tif: missing value '
                  '%s', n, d['nodata'])
        mon.check(tiles.placed(d['gt'], x, y, ts.px, ts.py),
                  'M3/%s.tif is at %s, expected %s', n, d['gt'],
                  (x, ts.px, 0, y, 0, -ts.py))
        mon.check('4326' in d['proj'] or 'WGS' in d['proj'],
                  'M3/%s.tif: projection %s', n, d['proj'])
        for b, dr in enumerate(tiles.BANDS):
            g = d['a'][b].astype(float)
            want = ts.product(n, dr)
            bad = ~(abs(g - want) <= 1e-6 * abs(want))
            mon.count('cells', g.size)
            mon.count('missing_cells', (want == -9999).sum())
            if bad.any():
                i, j = np.argwhere(bad)[0]
                mon.fail('M3/%s.tif, %s: cell (%d, %d) is %r, but Mz, Ms, '
                         'Mt are %s (%d cells differ)' % (
                             n, dr, i, j, g[i, j],
                             [float(ts.vals[n][m, dr][i, j]) for m in
                              ('Mz', 'Ms', 'Mt')], bad.sum()))
        mon.count('tiles')
        mon.state(h, w, ts.px, ts.py)
    mon.count('absent_files', len(ts.lostfiles))
    after = {k: v for k, v in raster.tree(root).items()
             if not k.startswith('M3')}
    mon.check(after == before, 'the conversion changed %s',
              sorted(set(after.items()) ^ set(before.items()))[:4])
