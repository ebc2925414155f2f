"""Unusable inputs."""

import os
import shutil
import tempfile

import numpy as np

from wmv import gen, mpirun, pipeline, raster
from wmv.common import REPO

RULE = '''A working set of inputs is damaged in one way (a file that is
absent, empty, not a raster, truncated to a stub or a folder; a table
without a column or with text for numbers; a configuration that is absent
or lacks an option or a section; an output folder that cannot be made or
emptied) and
the program is run: it must end with a non-zero status, must not report
success, must leave the other inputs alone and no mosaic behind. The
undamaged set must run. The converter and the preprocessing programs
likewise, and runs of several processes of which only one meets the
damage. Non-trivial: every damaged run.'''
ASSUMPTIONS = ['the DEM of the working set has non-zero elevations, so that '
               'all inputs are needed']
MIN_COUNTS = {'damaged': 20, 'undamaged': 2, 'refused': 60,
              'parallel': 4}
MIN_NONTRIVIAL = 15
preload = pipeline.preload

FILES = ['dem', 'lc', 'table', 'cfg']
HOW = ['absent', 'empty', 'text', 'folder']
KINDS = [('file', f, h) for f in FILES for h in HOW] + [
    ('column', c, '') for c in ('CATEGORY', 'ROUGHNESS_LENGTH_m',
                                'SHIELDING')] + [
    ('number', c, '') for c in (1, 2)] + [
    ('option', s, o) for s, o in (
        ('inputValues', 'upwind_length'), ('inputValues', 'terrain_data'),
        ('inputValues', 'terrain_table'), ('inputValues', 'dem_data'),
        ('Output', 'output_dir'))] + [
    ('mistyped', '', ''), ('upwind', '', ''), ('output', '', ''),
    ('held', '', ''), ('held', '', ''), ('held', '', ''), ('level', '', ''),
    ('header', '', ''), ('none', '', ''),
    ('convert', 'absent', ''), ('convert', 'nc', 'text'),
    ('convert', 'nc', 'cut'), ('convert', 'nc', 'folder'),
    ('convert', 'nc', 'empty'), ('direct', '', ''), ('direct', '', ''),
    ('parallel', 'lc', 'text'),
    ('parallel', 'table', 'absent'), ('parallel', 'lc', 'absent'),
    ('parallel', 'dem', 'text'), ('parallel', 'convert', 'text'),
    ('pre', 'settlement_data', ''), ('pre', 'land_use_data', ''),
    ('pre', 'cfg', ''), ('raster', 'in', ''), ('raster', 'topo', '')]


def cases(rng, tier):
    n = len(KINDS) if tier == 'quick' else len(KINDS) * 12
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'k': i % len(KINDS)}


def spoil(path, how):
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.remove(path)
    if how == 'empty':
        open(path, 'w').close()
    elif how == 'text':
        with open(path, 'w') as f:
            f.write('this is not it\n' * 20)
    elif how == 'folder':
        os.mkdir(path)


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    kind, a, b = KINDS[spec['k']]
    what = ' '.join(str(v) for v in (kind, a, b)).strip()
    if kind in ('pre', 'raster'):
        other(r, mon, kind, a, what)
        return
    case = pipeline.small(r, mon.tmp, px=1 / 12., maxtiles=3, empty=False)
    case.dem = np.abs(case.dem) + 1
    raster.write(case.demfile, case.dem, case.x0, case.y0, case.px, case.py,
                 'f4')
    if kind == 'convert':
        pipeline.run(mon, case)
        if a == 'absent':
            shutil.rmtree(case.out + '/shielding')
        else:
            # any of the files that were written
            d = case.out + '/' + str(r.choice(['terrain', 'shielding',
                                               'topographic']))
            f = str(r.choice(sorted(os.listdir(d)) or ['']))
            if not f:
                d = case.out + '/shielding'
                f = sorted(os.listdir(d))[0]
            if b == 'cut':
                with open(os.path.join(d, f), 'r+b') as h:
                    h.truncate(int(r.integers(0, 3000)))
            else:
                spoil(os.path.join(d, f), b)
            what += ' ' + f
        for d in ('M3', 'M3_max'):
            shutil.rmtree(os.path.join(case.out, d))
        rc, text = pipeline.command(mon, ['-m', 'utilities.mpi_runner', '-p',
                                          case.out], case.root)
        mon.count('damaged')
        mon.check(rc != 0, 'conversion with unusable files (%s) ends with '
                  'status 0', what)
        mon.state(what.split('_')[0])
        mon.nontrivial = True
        return
    if kind == 'parallel':
        parallel(r, mon, case, spec['seed'], a, b, what)
        return
    if kind == 'direct':
        direct(r, mon, case)
        return
    if kind == 'mistyped':
        mistyped(mon, case, what)
        return
    with open(case.cfg) as f:
        cfg = f.read()
    extra = []
    path = {'dem': case.demfile, 'lc': case.lcfile, 'table': case.table,
            'cfg': case.cfg}
    touched = None
    if kind == 'file':
        spoil(path[a], b)
        touched = os.path.basename(path[a])
    elif kind in ('column', 'number', 'header'):
        touched = 'table.csv'
        rows = [['CATEGORY', 'DESCRIPTION', 'ROUGHNESS_LENGTH_m',
                 'SHIELDING']]
        rows += [[str(c), 'x', repr(z), str(s)] for c, z, s in case.tab]
        if kind == 'column':
            q = rows[0].index(a)
            rows = [v[:q] + v[q + 1:] for v in rows]
        elif kind == 'number':
            rows[1][a + 1] = 'tall'
        else:
            rows = rows[1:]
        with open(case.table, 'w') as f:
            f.write('\n'.join(','.join(v) for v in rows) + '\n')
    elif kind == 'option':
        keep = [v for v in cfg.split('\n') if not v.startswith(b + ' ')]
        # an option left out falls back on the configuration that comes with
        # the program, whose paths do not exist
        cfg = '\n'.join(keep)
        if b in ('upwind_length', 'output_dir'):
            cfg = '\n'.join(
                '%s =' % b if v.startswith(b + ' ') else v
                for v in open(case.cfg).read().split('\n'))
    elif kind == 'upwind':
        cfg = cfg.replace('upwind_length = ', 'upwind_length = wide ')
    elif kind == 'level':
        cfg = cfg.replace('LogLevel = INFO', 'LogLevel = CHATTY')
    elif kind == 'output':
        with open(case.root + '/file', 'w') as f:
            f.write('keep')
        cfg = cfg.replace('output_dir = ' + case.out,
                          'output_dir = %s/file/out' % case.root)
    hook = None
    if kind == 'held':
        hook = held(r, mon, case, spec)
    if kind not in ('file', 'column', 'number', 'header', 'none'):
        with open(case.cfg, 'w') as f:
            f.write(cfg)
    before = raster.tree(case.root + '/in')
    rc, text = pipeline.run(mon, case, must=False, extra=extra, hook=hook)
    if kind == 'none':
        mon.check(rc == 0, 'the undamaged run fails: %s', text)
        pipeline.complete(mon, case)
        mon.count('undamaged')
        return
    mon.count('damaged')
    log = pipeline.tail(case.root + '/log/m.log', 100000) + text
    mon.check(rc != 0, 'a run with unusable input (%s) ends with status 0:\n'
              '%s', what, log[-1500:])
    mon.check('Successfully converted' not in log, 'a run with unusable input '
              '(%s) reports success', what)
    vrt = [f for base in ('M3', 'M3_max') for f in
           (os.listdir(case.out + '/' + base) if os.path.isdir(
               case.out + '/' + base) else []) if f.endswith('.vrt')]
    mon.check(not vrt, 'a run with unusable input (%s) leaves a mosaic',
              what)
    mon.check(raster.tree(case.root + '/in') == before, 'a run with unusable '
              'input (%s) changed its inputs', what)
    if kind == 'output':
        with open(case.root + '/file') as f:
            mon.check(f.read() == 'keep', 'the file in place of the output '
                      'folder changed')
    mon.state(what)
    mon.nontrivial = True


def held(r, mon, case, spec):
    """Files of somebody else in the output folder, which the user of the
    program can not remove."""
    sub = str(r.choice(['M3', 'M3_max', 'terrain', 'shielding',
                        'topographic', 'M3/more']))
    if spec['seed'] & 1:
        sub = 'other'
    d = os.path.join(case.out, sub)
    os.makedirs(d)
    with open(d + '/held.tif', 'w') as f:
        f.write('keep')
    for base, _, names in os.walk(case.root):
        for p in [base] + [os.path.join(base, n) for n in names]:
            if not (p + '/').startswith(d + '/'):
                os.chown(p, 65534, 65534)
    os.chmod(d, 0o755)
    p = mon.tmp
    while p.startswith(tempfile.gettempdir() + '/'):
        os.chmod(p, os.stat(p).st_mode | 0o555)
        p = os.path.dirname(p)

    def hook():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    return hook


def direct(r, mon, case):
    """The functions that read the inputs, on inputs that are absent or no
    rasters, with and without exceptions of GDAL: each raises or exits as
    failed, and none goes on as if all was well."""
    from osgeo import gdal
    import all_multipliers as am
    from terrain import terrain_mult
    from shielding import shield_mult
    from topographic import topo_mult
    from utilities.config import configparser as config
    from utilities.convert import Converter
    pipeline.run(mon, case)
    ext = (case.x0, case.y0, case.x0 + case.px * 3, case.y0 - case.py * 3)
    name = sorted(os.listdir(case.out + '/shielding'))[0].split('_')[0]
    info = [name, ext, ext]
    good = case.demfile
    fine = gdal.GetUseExceptions()
    config.set_config_file(case.cfg)
    for n, how in enumerate(HOW):
        bad = '%s/bad%d' % (mon.tmp, n)
        spoil(bad, how)
        badcfg = '%s/bad%d.cfg' % (mon.tmp, n)
        with open(case.cfg) as f:
            text = f.read()
        with open(badcfg, 'w') as f:
            f.write(text.replace(case.table, bad))

        def table(fn, *args):
            config.set_config_file(badcfg)
            try:
                return fn(*args)
            finally:
                config.set_config_file(case.cfg)

        # a raster that is not there, or no longer, for each reader
        uses = {
            'TileGrid': lambda: am.TileGrid(.01, bad),
            'open_dem': lambda: am.Multipliers(case.lcfile, bad).open_dem(),
            'multipliers_calculate': lambda: am.Multipliers(
                case.lcfile, good).multipliers_calculate(bad, info),
            'reproject_dataset': lambda: am.reproject_dataset(
                bad, good, mon.tmp + '/o.img'),
            'reproject_dataset (match)': lambda: am.reproject_dataset(
                case.lcfile, bad, mon.tmp + '/o.img'),
            'terrain': lambda: terrain_mult.terrain(bad, ext),
            'shield': lambda: shield_mult.shield(bad, good, ext),
            'shield (DEM)': lambda: shield_mult.shield(case.lcfile, bad,
                                                       ext),
            'topomult': lambda: topo_mult.topomult(bad, ext),
            'terrain table': lambda: table(terrain_mult.terrain,
                                           case.lcfile, ext),
            'shielding table': lambda: table(shield_mult.shield,
                                             case.lcfile, good, ext),
        }
        if how == 'absent':
            uses['configuration'] = lambda: config.set_config_file(bad)
            uses['process_tile'] = lambda: Converter(
                [], case.out).process_tile('e1.0s2.0')
            uses['process_max_tile'] = lambda: Converter(
                [], case.out).process_max_tile('e1.0s2.0')
        for exceptions in (True, False):
            for use, fn in uses.items():
                (gdal.UseExceptions if exceptions else
                 gdal.DontUseExceptions)()
                try:
                    fn()
                except SystemExit as e:
                    mon.check(e.code not in (0, None), '%s of input that is '
                              '%s ends the program as successful', use, how)
                except Exception:
                    pass
                else:
                    mon.fail('%s accepts input that is %s (GDAL %s '
                             'exceptions)' % (use, how, 'with' if exceptions
                                              else 'without'))
                finally:
                    (gdal.UseExceptions if fine else
                     gdal.DontUseExceptions)()
                mon.count('refused')
                mon.state(use, how, exceptions)
    mon.nontrivial = True


def parallel(r, mon, case, seed, a, b, what):
    """Several processes: a failure of one of them is one of the job."""
    size = int(r.integers(2, 5))
    if a == 'convert':
        pipeline.run(mon, case)
        d = case.out + '/' + str(r.choice(['shielding', 'topographic']))
        spoil(os.path.join(d, str(r.choice(sorted(os.listdir(d))))), b)
        for d in ('M3', 'M3_max'):
            shutil.rmtree(os.path.join(case.out, d))
        argv = ['-m', 'utilities.mpi_runner', '-p', case.out]
    else:
        spoil({'dem': case.demfile, 'lc': case.lcfile,
               'table': case.table}[a], b)
        argv = [os.path.join(REPO, 'all_multipliers.py'), '-c', case.cfg]
    before = raster.tree(case.root + '/in')
    st, out, router = mpirun.mpirun(mon, size, argv, case.root, seed)
    mon.count('damaged')
    mon.count('parallel')
    log = pipeline.tail(case.root + '/log/m.log', 100000)
    mon.check(any(st), '%d processes with unusable input (%s) all end with '
              'status 0:\n%s', size, what, ''.join(out)[-1500:])
    mon.check(a == 'convert' or 'Successfully' not in log, '%d processes with '
              'unusable input (%s) report success', size, what)
    vrt = [f for base in ('M3', 'M3_max') for f in
           (os.listdir(case.out + '/' + base) if os.path.isdir(
               case.out + '/' + base) else []) if f.endswith('.vrt')]
    mon.check(not vrt, '%d processes with unusable input (%s) leave a mosaic',
              size, what)
    mon.check(raster.tree(case.root + '/in') == before, '%d processes with '
              'unusable input (%s) changed their inputs', size, what)
    mon.state(what, size)
    mon.nontrivial = True


def mistyped(mon, case, what):
    """The file named by -c is not there, but the program comes with a
    configuration that would work."""
    prog = pipeline.copy_program(mon.tmp + '/program', case.cfg)
    os.makedirs(case.out)
    with open(case.out + '/keep', 'w') as f:
        f.write('results')
    for n in range(2):
        argv = [prog] + ([] if n else ['-c', case.root + '/rum.cfg'])
        rc, text = pipeline.command(mon, argv, case.root)
        if n:
            mon.check(rc == 0, 'the run with its own configuration fails: %s',
                      text[-1500:])
            pipeline.complete(mon, case)
            mon.count('undamaged')
        else:
            mon.check(rc != 0, 'a configuration that is not there: status 0')
            mon.check(os.listdir(case.out) == ['keep'], 'a configuration that '
                      'is not there: the output of another was rewritten: %s',
                      sorted(os.listdir(case.out)))
            mon.count('damaged')
    mon.state(what)
    mon.nontrivial = True


def other(r, mon, kind, a, what):
    from wmv.checks.w19 import layer, shape_of
    area = (140, -20, 141, -19)
    layer(mon.tmp + '/sett.shp', 'SETTLEMENT', [
        (shape_of(r, area, 1.), 'City')], [])
    layer(mon.tmp + '/use.shp', 'MB_CAT16', [
        (shape_of(r, area, 1.), 'Water')], ['CAT'])
    raster.write(mon.tmp + '/topo.tif', np.ones((5, 5)), 140, -19, .2, .2,
                 'f4')
    work = mon.tmp + '/work'
    os.mkdir(work)
    cfg = mon.tmp + '/pre.cfg'
    names = {'settlement_data': mon.tmp + '/sett.shp',
             'land_use_data': mon.tmp + '/use.shp'}
    for n in range(2):              # undamaged, damaged
        if n:
            if a in names:
                names[a] = mon.tmp + '/absent.shp'
            if kind == 'raster':
                os.remove(mon.tmp + ('/use.shp' if a == 'in' else
                                     '/topo.tif'))
        with open(cfg, 'w') as f:
            f.write('[Preprocessing]\nsettlement_data = %s\nsettlement_cat = '
                    'SETTLEMENT\nland_use_data = %s\nland_use_cat = MB_CAT16'
                    '\ncrop_mask = None\ninput_topo = %s/topo.tif\n'
                    'output_shapefile = %s/mesh%d.shp\noutput_rasterized = '
                    '%s/mesh.tif\n' % (
                        names['settlement_data'], names['land_use_data'],
                        mon.tmp, mon.tmp, n, mon.tmp))
        if n and a == 'cfg':
            os.remove(cfg)
        if kind == 'pre':
            argv = [os.path.join(REPO, 'pre_process.py'), '-c', cfg]
        else:
            argv = [os.path.join(REPO, 'rasterize.py'), '-i', mon.tmp +
                    '/use.shp', '-t', mon.tmp + '/topo.tif']
        rc, text = pipeline.command(mon, argv, work)
        mon.check((rc != 0) == bool(n), '%s: %s %s ends with status %s:\n%s',
                  what, os.path.basename(argv[0]), 'with an absent file' if n
                  else 'with good input', rc, text[-1200:])
        mon.count('damaged' if n else 'undamaged')
    mon.nontrivial = True
