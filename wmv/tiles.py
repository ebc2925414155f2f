"""Sets of multiplier tiles, as input of the conversion."""

import os

import numpy as np

from wmv import raster
from wmv.raster import DIRS

BANDS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
FOLDER = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}


def placed(gt, x, y, px, py):
    """Whether a raster begins at x, y and has cells of px by py."""
    return abs(gt[0] - x) < 1e-3 * px and abs(gt[3] - y) < 1e-3 * py and \
        abs(gt[1] / px - 1) < 1e-6 and abs(gt[5] / py + 1) < 1e-6 and \
        gt[2] == gt[4] == 0


class TileSet(object):
    """Random multiplier files under root; vals[name][kind, dir]."""

    def __init__(self, r, root, n, shape=None, missing=.1, nan=.0,
                 lost=0., grid=False, ragged=False, gone=0.):
        self.root = root
        self.vals, self.where, self.lostfiles = {}, {}, set()
        for f in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
            os.makedirs(os.path.join(root, f), exist_ok=True)
        self.px = float(r.choice([.01, .025, .0025, 1 / 30., 1 / 3600.,
                                 1 / 10800.]))
        self.py = self.px if r.random() < .6 else self.px * .8
        digits = 3 if r.random() < .6 else 7
        lon, lat = r.uniform(112, 140), r.uniform(-40, -12)
        if r.random() < .2:         # elsewhere
            lon, lat = r.uniform(-170, 100), r.uniform(-40, 60)
        lon, lat = (float(np.round(v, digits)) for v in (lon, lat))
        rows, cols = shape or (int(r.integers(2, 20)), int(r.integers(2, 20)))
        for k in range(n):
            if grid:
                i, j = k % 3, k // 3
                x, y = lon + j * cols * self.px, lat - i * rows * self.py
                h, w = rows, cols
                if ragged and (i == 2 or k + 1 == n):
                    h = max(2, rows - 3)      # the last row of tiles
            else:
                x, y = lon + k * 1.0, lat
                h, w = (rows, cols) if shape else (int(r.integers(2, 20)),
                                                   int(r.integers(2, 20)))
            name = 'e%ss%s' % (str(x)[:8], str(-y)[:7])
            self.where[name] = (x, y, h, w)
            self.vals[name] = {}
            # a kind of which the tile has no file at all
            none = str(r.choice(['Mz', 'Mt'])) if gone and \
                r.random() < gone else None
            for kind, folder in FOLDER.items():
                hi = {'Mz': (.75, 1.13), 'Ms': (.3, 1.), 'Mt': (1., 1.7)}[kind]
                for d in DIRS:
                    v = r.uniform(hi[0], hi[1], (h, w)).astype('f4')
                    if r.random() < .1:         # far from the usual values
                        v = (v ** 2 * float(r.choice([.01, .1, 3]))).astype(
                            'f4')
                    m = r.random((h, w))
                    u = r.random()
                    if u < .8:
                        v[m < missing] = -9999
                        v[m > 1 - nan] = np.nan
                    if u < .05 and missing:
                        v[:] = -9999
                    p = self.path(name, kind, d)
                    if kind == none or r.random() < lost and not (
                            kind == 'Ms' and d == 'n'):
                        self.lostfiles.add((name, kind, d))
                        v = np.ones((h, w), 'f4')
                    else:
                        raster.write_nc(p, kind, v, x, y, self.px, self.py)
                    self.vals[name][kind, d] = v

    def path(self, name, kind, d):
        return os.path.join(self.root, FOLDER[kind],
                            '%s_%s_%s.nc' % (name, kind.lower(), d))

    def product(self, name, d):
        """Mz * Ms * Mt as float64; missing (-9999 or NaN) anywhere ->
        -9999."""
        v = self.vals[name]
        p = np.ones(v['Mz', d].shape)
        miss = np.zeros(p.shape, bool)
        for kind in FOLDER:
            a = v[kind, d].astype(float)
            miss |= (a == -9999) | np.isnan(a)
            p = p * a
        p[miss] = -9999
        return p
