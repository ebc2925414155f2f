"""Drive the tile functions of /repo on a tile laid out as all_multipliers
lays it out, and read the multiplier files back."""

import os

import numpy as np

from wmv import gen, raster


def preload():
    """Import the code under test once, before workers are forked."""
    import tempfile
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        try:
            import all_multipliers  # noqa: F401
            import utilities.mpi_runner  # noqa: F401
        finally:
            os.chdir(cwd)


CFG = '''[inputValues]
root = {root}
upwind_length = {up}
terrain_data = {lc}
terrain_table = {table}
dem_data = {dem}

[Output]
output_dir = {out}

[Logging]
LogFile = {log}
LogLevel = {level}
Verbose = False
'''


def write_cfg(path, **kw):
    d = dict(root='.', up=0.01, lc='lc.tif', table='table.csv',
             dem='dem.tif', out='out', log='log/m.log', level='INFO')
    d.update(kw)
    with open(path, 'w') as f:
        f.write(CFG.format(**d))
    return path


def use_config(path):
    from utilities.config import configparser as config
    config.set_config_file(path)


class Tile(object):
    """A tile of land cover and DEM in its own output folder."""

    def __init__(self, tmp, lc, dem, rows_table, x0, y0, px, py=None,
                 core=None, name='e145.0s20.0', style=0, demtype='f4',
                 lctype='f4', demnodata=None, sub='out', decoy=None):
        self.px, self.py = px, px if py is None else py
        self.x0, self.y0 = x0, y0
        self.out = os.path.join(tmp, sub)
        for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
            os.makedirs(os.path.join(self.out, s))
        self.name = name
        self.lc, self.dem, self.table = lc, dem, rows_table
        any_ = lc if lc is not None else dem
        self.shape = any_.shape
        if lc is not None:
            self.lcfile = raster.write(
                os.path.join(self.out, name + '.img'), lc, x0, y0,
                self.px, self.py, lctype)
        if dem is not None:
            self.demfile = raster.write(
                os.path.join(self.out, name + '_dem.img'), dem, x0, y0,
                self.px, self.py, demtype, nodata=demnodata)
        tab = os.path.join(tmp, sub + '.csv')
        gen.write_table(tab, rows_table or [], style)
        use_config(write_cfg(os.path.join(tmp, sub + '.cfg'), table=tab,
                             out=self.out))
        rows, cols = self.shape
        # core: rows i0..i1 and columns j0..j1 without buffer
        self.core = core or (0, rows, 0, cols)
        i0, i1, j0, j1 = self.core
        self.extent = (x0 + j0 * self.px, y0 - i0 * self.py,
                       x0 + j1 * self.px, y0 - i1 * self.py)
        # every few tiles: another tile of the same name, shape and cell size
        # is computed just before this one, in the same process
        if decoy is None:
            decoy = (rows * 31 + cols * 17 + int(abs(x0) * 1e4)) % 4 == 0
        self.other = None
        if decoy:
            here = os.path.join(tmp, sub + '.cfg')
            tab = [(c, z * .5 + .01, min(100, s + 7))
                   for c, z, s in rows_table or []]
            self.other = Tile(
                tmp, None if lc is None else lc[::-1].copy(),
                None if dem is None else np.roll(dem, 1, 1)[::-1].copy(),
                tab, x0, -20. if y0 < -30 else -45., px, py, core, name,
                style, demtype, lctype, demnodata, sub + '_other', False)
            use_config(here)
            self.othercfg = os.path.join(tmp, sub + '_other.cfg'), here

    def before(self, mon, fn, *files):
        if self.other:
            use_config(self.othercfg[0])
            mon.code(fn, *([getattr(self.other, f) for f in files] +
                           [self.other.extent]))
            use_config(self.othercfg[1])
            mon.count('tiles_before')

    def cut(self, a):
        i0, i1, j0, j1 = self.core
        return a[i0:i1, j0:j1]

    def terrain(self, mon):
        from terrain import terrain_mult
        self.before(mon, terrain_mult.terrain, 'lcfile')
        mon.code(terrain_mult.terrain, self.lcfile, self.extent)
        return self.collect(mon, 'terrain', 'mz')

    def shield(self, mon):
        from shielding import shield_mult
        self.before(mon, shield_mult.shield, 'lcfile', 'demfile')
        mon.code(shield_mult.shield, self.lcfile, self.demfile, self.extent)
        return self.collect(mon, 'shielding', 'ms')

    def topo(self, mon):
        from topographic import topo_mult
        self.before(mon, topo_mult.topomult, 'demfile')
        mon.code(topo_mult.topomult, self.demfile, self.extent)
        return self.collect(mon, 'topographic', 'mt')

    def path(self, folder, kind, d):
        return os.path.join(self.out, folder,
                            '%s_%s_%s.nc' % (self.name, kind, d))

    def collect(self, mon, folder, kind):
        out = {}
        for d in raster.DIRS:
            p = self.path(folder, kind, d)
            if not os.path.exists(p):
                out[d] = None
                continue
            v = raster.read_nc(p)['v'].astype(float)
            v[v == -9999] = np.nan
            i0, i1, j0, j1 = self.core
            mon.check(v.shape == (i1 - i0, j1 - j0),
                      '%s has shape %s, not %s', p, v.shape,
                      (i1 - i0, j1 - j0))
            mon.count('files')
            out[d] = v
        return out


def random_core(r, shape):
    rows, cols = shape
    i0, j0 = int(r.integers(0, rows // 3 + 1)), int(r.integers(0, cols // 3 + 1))
    i1 = int(r.integers(i0 + 2, rows + 1))
    j1 = int(r.integers(j0 + 2, cols + 1))
    if r.random() < 0.3:
        i0, j0, i1, j1 = 0, 0, rows, cols
    return (i0, i1, j0, j1)


def compare(mon, got, want, tol, what, amb=None, dirs=None):
    """Compare {dir: array}; NaN must match NaN."""
    for d in dirs or raster.DIRS:
        g, w = got[d], want[d]
        if g is None:
            mon.fail('%s: no file for direction %s' % (what, d))
        ok = np.ones(w.shape, bool) if amb is None else ~amb[d]
        mon.count('cells', ok.sum())
        mon.count('ambiguous', (~ok).sum())
        bad = ok & (np.isnan(g) != np.isnan(w))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('%s, direction %s: cell (%d, %d) is %r, expected %r '
                     '(missing or not; %d such cells)' % (
                         what, d, i, j, g[i, j], w[i, j], bad.sum()))
        with np.errstate(invalid='ignore'):
            bad = ok & (abs(g - w) > tol)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            mon.fail('%s, direction %s: cell (%d, %d) is %r, expected %r '
                     '(%d cells differ, most by %g)' % (
                         what, d, i, j, g[i, j], w[i, j], bad.sum(),
                         np.nanmax(np.where(bad, abs(g - w), 0))))
