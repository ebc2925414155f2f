"""Whole runs of all_multipliers on small inputs: build the inputs, run the
program (in a fork of this process that has it imported, or as a command),
and read everything it wrote."""

import math
import os
import shutil
import signal
import subprocess
import sys
import time

import numpy as np

from wmv import gen, raster, ref
from wmv.common import PY, REPO, Violation
from wmv.tilecalc import preload, write_cfg  # noqa: F401

KINDS = {'terrain': 'mz', 'shielding': 'ms', 'topographic': 'mt'}


class Case(object):
    """Inputs of a run. dem and lc are arrays on their own grids."""

    def __init__(self, tmp, dem, lc, tab, x0, y0, px, py=None, up=0.01,
                 lcgrid=None, demtype='f4', lctype='f4', demnodata=None,
                 style=0, relative=False, sub='case', lcnodata=None,
                 lcwkt=None, out=None):
        self.root = os.path.join(tmp, sub)
        os.makedirs(self.root)
        self.dem, self.lc, self.tab = dem, lc, tab
        self.x0, self.y0, self.px = x0, y0, px
        self.py = px if py is None else py
        self.up = up
        os.makedirs(self.root + '/in')
        self.demfile = raster.write(self.root + '/in/dem.tif', dem, x0, y0,
                                    self.px, self.py, demtype,
                                    nodata=demnodata)
        self.lcgrid = lcgrid or (x0, y0, self.px, self.py)
        self.lcfile = raster.write(self.root + '/in/lc.tif', lc,
                                   *self.lcgrid, typ=lctype, nodata=lcnodata,
                                   wkt=lcwkt)
        self.table = gen.write_table(self.root + '/in/table.csv', tab, style)
        self.out = out or os.path.join(self.root, 'out')
        pre = 'in' if relative else self.root + '/in'
        self.cfg = write_cfg(
            self.root + '/run.cfg', root=self.root, up=up,
            lc=pre + '/lc.tif', table=pre + '/table.csv',
            dem=pre + '/dem.tif',
            out='out' if relative else self.out,
            log='log/m.log' if relative else self.root + '/log/m.log')

    # ---- expected tiling, computed independently

    def tiles(self):
        """[(core, buffered)] as (i0, i1, j0, j1)."""
        rows, cols = self.dem.shape

        def axis(n, p):
            step = int(math.ceil(round(1 / p, 6)))
            buf = int(math.floor(round(self.up / p, 6)))
            cuts = list(range(0, n, step)) + [n]
            if len(cuts) > 2 and cuts[-1] - cuts[-2] == 1:
                del cuts[-2]
            return [((a, b), (max(0, a - buf), min(n, b + buf)))
                    for a, b in zip(cuts, cuts[1:])]
        return [(yc + xc, yb + xb) for xc, xb in axis(cols, self.px)
                for yc, yb in axis(rows, self.py)]

    def tiledem(self, buf):
        i0, i1, j0, j1 = buf
        return self.dem[i0:i1, j0:j1]

    def sample_lc(self, dtype=float):
        """Land cover of every DEM cell (0 beyond it), and the cells whose
        centre is on the border of two land cover cells."""
        lx, ly, lpx, lpy = self.lcgrid
        rows, cols = self.dem.shape
        x = self.x0 + (np.arange(cols) + .5) * self.px
        y = self.y0 - (np.arange(rows) + .5) * self.py
        c, r = (x - lx) / lpx, (ly - y) / lpy
        amb = np.zeros(self.dem.shape, bool)
        amb |= (abs(r - np.round(r)) < 1e-4)[:, None]
        amb |= (abs(c - np.round(c)) < 1e-4)[None, :]
        ci, ri = np.floor(c).astype(int), np.floor(r).astype(int)
        okc = (ci >= 0) & (ci < self.lc.shape[1])
        okr = (ri >= 0) & (ri < self.lc.shape[0])
        v = self.lc[np.clip(ri, 0, self.lc.shape[0] - 1)][
            :, np.clip(ci, 0, self.lc.shape[1] - 1)].astype(dtype)
        v[~okr, :] = 0
        v[:, ~okc] = 0
        return v, amb

    def read(self, mon, folder, kind):
        """{(i0, j0): {dir: array}}, {name: (i0, i1, j0, j1)} of the
        multiplier files, placed by their own coordinates."""
        out, where = {}, {}
        base = os.path.join(self.out, folder)
        for f in sorted(os.listdir(base)):
            if not f.endswith('.nc'):
                mon.fail('unexpected file %s/%s' % (folder, f))
            parts = f[:-3].split('_')
            mon.check(len(parts) == 3 and parts[1] == kind and
                      parts[2] in raster.DIRS, 'unexpected file %s/%s',
                      folder, f)
            d = raster.read_nc(os.path.join(base, f))
            i0, i1, j0, j1 = self.place(mon, d, f)
            v = d['v'].astype(float)
            v[v == -9999] = np.nan
            out.setdefault((i0, i1, j0, j1), {})[parts[2]] = v
            mon.check(where.setdefault(parts[0], (i0, i1, j0, j1)) ==
                      (i0, i1, j0, j1),
                      'files of tile %s lie at different places', parts[0])
            mon.count('files')
        return out, where

    def place(self, mon, d, what):
        j = (d['lon'] - self.x0) / self.px - .5
        i = (self.y0 - d['lat']) / self.py - .5
        mon.check(abs(i - np.round(i)).max() < 1e-3 and
                  abs(j - np.round(j)).max() < 1e-3,
                  '%s: coordinates are not those of DEM cells', what)
        i, j = np.round(i).astype(int), np.round(j).astype(int)
        mon.check((np.diff(i) == 1).all() and (np.diff(j) == 1).all(),
                  '%s: coordinates are not one DEM cell apart, north to '
                  'south and west to east', what)
        mon.check(d['v'].shape == (len(i), len(j)), '%s: %s values for %d '
                  'x %d coordinates', what, d['v'].shape, len(i), len(j))
        return int(i[0]), int(i[-1]) + 1, int(j[0]), int(j[-1]) + 1


def env(**kw):
    e = dict(os.environ)
    e['PYTHONPATH'] = REPO
    e.update(kw)
    return e


def command(mon, argv, cwd, timeout=110, start=None, prefix=(), **kw):
    """Run a program of /repo, which calls start first. Returns (exit status,
    output)."""
    mon.count('processes')
    p = subprocess.Popen(list(prefix) + [PY] + argv, cwd=cwd, env=env(**kw),
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True,
                         preexec_fn=start)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Violation('%s did not end in %d s' % (argv, timeout))
    return p.returncode, out.decode('utf-8', 'replace')


def cli(mon, case, extra=(), cwd=None, cfg=None, **kw):
    return command(mon, [os.path.join(REPO, 'all_multipliers.py'), '-c',
                         cfg or case.cfg] + list(extra),
                   cwd or case.root, **kw)


def forked(mon, fn, cwd, timeout=110, log=None):
    """Call fn in a child process. Returns its exit status: 0 if it returned,
    as Python would otherwise."""
    mon.count('forks')
    log = log or os.path.join(mon.tmp, 'fork.log')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w')
            sys.stderr = os.fdopen(2, 'w')
            import logging
            logging.disable(logging.NOTSET)
            for h in list(logging.getLogger().handlers):
                logging.getLogger().removeHandler(h)
            os.chdir(cwd)
            try:
                fn()
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (
                    0 if e.code is None else 1)
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc & 255)
    end = time.time() + timeout
    delay = 0.002
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Violation('the run did not end in %d s' % timeout)
        time.sleep(delay)
        delay = min(delay * 1.5, .05)


def tail(path, n=2000):
    try:
        with open(path) as f:
            return f.read()[-n:]
    except OSError:
        return ''


def run(mon, case, extra=(), cwd=None, cfg=None, must=True, hook=None):
    """all_multipliers -c CFG in a fork."""
    log = os.path.join(mon.tmp, 'run%d.log' % mon.counts.get('forks', 0))

    def child():
        import all_multipliers as am
        sys.argv = ['all_multipliers.py', '-c', cfg or case.cfg] + list(extra)
        if hook:
            hook()
        am.run()
    rc = forked(mon, child, cwd or case.root, log=log)
    if must and rc:
        mon.fail('the run ended with status %d:\n%s' % (rc, tail(log)))
    return rc, tail(log, 6000)


def small(r, tmp, px=None, maxtiles=6, up=None, kind=None, empty=None,
          **kw):
    """A random case of a few tiles with coarse cells."""
    px = px or float(r.choice([1 / 12., 1 / 15., .05, 1 / 24.]))
    py = px if r.random() < .6 else px * float(r.choice([.8, 1.25]))
    nx, ny = int(math.ceil(round(1 / px, 6))), int(math.ceil(
        round(1 / py, 6)))
    while True:
        tx, ty = int(r.integers(1, 4)), int(r.integers(1, 4))
        if tx * ty <= maxtiles:
            break
    cols = nx * (tx - 1) + int(r.integers(2, nx + 2))
    rows = ny * (ty - 1) + int(r.integers(2, ny + 2))
    x0, y0 = gen.lonlat(r)
    up = up if up is not None else px * float(r.choice([0, 1.3, 2.5, 4.2]))
    gw = ref.gridwidth(rows, cols, y0, px, py)
    amp = gw * float(np.exp(r.uniform(np.log(.3), np.log(5))))
    dem = gen.elevation(r, (rows, cols), gw, amp=amp).astype('f4')
    if empty or (empty is None and r.random() < .5):
        # sea: a block of zeros, sometimes covering whole tiles
        if r.random() < .6 and tx > 1:
            dem[:, :nx + int(up / px) + 1] = 0
        else:
            dem[:int(r.integers(1, rows)), :int(r.integers(1, cols))] = 0
    if empty is False and not dem.any():
        dem[:] = 25
    tab = gen.table(r, urban=.7)
    cats = [c for c, _, _ in tab]
    lc = gen.landcover(r, (rows, cols), cats, gaps=.2)
    return Case(tmp, dem, lc, tab, x0, y0, px, py, up=up, **kw)


def copy_program(dst, cfg):
    """The program elsewhere, with cfg as the configuration it comes with.
    Returns its main file."""
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(
        '.git', 'tests', 'docs', '__pycache__'))
    shutil.copyfile(cfg, os.path.join(dst, 'multiplier_conf.cfg'))
    return os.path.join(dst, 'all_multipliers.py')


def snapshot(root, skip=()):
    out = {}
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if os.path.join(base, d) not in skip]
        for f in files:
            p = os.path.join(base, f)
            st = os.stat(p)
            out[os.path.relpath(p, root)] = (st.st_size, st.st_mtime_ns)
    return out


def values(out):
    """{relative name: (array, geotransform)} of all rasters of a run."""
    got = {}
    for base, dirs, files in os.walk(out):
        for f in files:
            p = os.path.join(base, f)
            k = os.path.relpath(p, out)
            if f.endswith('.nc'):
                d = raster.read_nc(p)
                got[k] = (d['v'], tuple(d['lat']) + tuple(d['lon']))
            else:
                d = raster.read(p)
                got[k] = (d['a'], tuple(d['gt']))
    return got


def same(mon, a, b, what):
    mon.check(set(a) == set(b), '%s: files differ: %s', what,
              sorted(set(a) ^ set(b))[:8])
    for k in a:
        # the extent of a mosaic is an average over its tiles in the order
        # they finished: equal but for rounding
        mon.check(len(a[k][1]) == len(b[k][1]) and
                  np.allclose(a[k][1], b[k][1], rtol=0, atol=1e-9) and
                  a[k][0].shape == b[k][0].shape and
                  np.array_equal(a[k][0], b[k][0], equal_nan=True),
                  '%s: %s differs', what, k)
    mon.count('compared_files', len(a))


def complete(mon, case, lc=None):
    """The output folder holds exactly what the tiles call for."""
    lc = case.lc if lc is None else lc
    cats = [c for c, _, _ in case.tab]
    want = {}
    for core, buf in case.tiles():
        if np.any(case.tiledem(buf)):
            i0, i1, j0, j1 = buf
            mapped = bool(np.isin(lc[i0:i1, j0:j1], cats).any())
            want[core] = mapped
            mon.count('nonempty_tiles')
            if not mapped:
                mon.count('unmapped_tiles')
        else:
            mon.count('empty_tiles')
    names = {}
    for folder, kind in KINDS.items():
        got, where = case.read(mon, folder, kind)
        for n, c in where.items():
            mon.check(names.setdefault(n, c) == c, 'tile %s is at different '
                      'places in different folders', n)
        exp = {c for c in want if want[c] or folder != 'terrain'}
        mon.check(set(got) == exp, '%s: tiles at %s, expected %s', folder,
                  sorted(got), sorted(exp))
        for c, v in got.items():
            mon.check(len(v) == 8, '%s: tile %s has directions %s', folder,
                      c, sorted(v))
    mon.check(len(names) == len(want), '%d names for %d tiles', len(names),
              len(want))
    exp = {n + '.tif' for n in names}
    if names:
        exp.add('wind-multipliers.vrt')
    for folder, bands in (('M3', 8), ('M3_max', 1)):
        base = os.path.join(case.out, folder)
        mon.check(set(os.listdir(base)) == exp, '%s holds %s, expected %s',
                  folder, sorted(os.listdir(base)), sorted(exp))
        for n, c in names.items():
            d = raster.read(os.path.join(base, n + '.tif'))
            mon.check(d['size'] == (c[1] - c[0], c[3] - c[2]) and
                      d['n'] == bands,
                      '%s/%s.tif is %s with %d bands', folder, n, d['size'],
                      d['n'])
        if names:
            v = raster.read(os.path.join(base, 'wind-multipliers.vrt'))
            listed = {os.path.basename(f) for f in v['files']} - {
                'wind-multipliers.vrt'}
            mon.check(listed == exp - {'wind-multipliers.vrt'},
                      '%s mosaic lists %s', folder, sorted(listed))
            mon.count('vrt_tiles', len(listed))
    top = set(os.listdir(case.out))
    mon.check(top == {'terrain', 'shielding', 'topographic', 'M3', 'M3_max'},
              'output folder holds %s', sorted(top))
    mon.count('runs')
    return want
