"""Writing fails: a full disk, a limit on the size of files."""

import logging
import os
import resource
import shutil

import numpy as np

from wmv import gen, mpirun, pipeline, raster, tiles
from wmv.common import REPO
from wmv.pipeline import complete, same, values

RULE = '''From a random moment of a run (an event of its log), for some events
or until its end, or from the start of a program (conversion, preprocessing, rasterising, also several
processes of which one is hit), no file can grow beyond a random size, often
just below that of one of the results, so that writes fail as on a full disk.
Where a file system can be mounted in a user namespace, the disk is really
full: programs also write to one with a random number of pages.
If the program ends with status 0 its results must be complete and have the
values of a run without the fault. Then the program runs again, with room, and
must give those. Functions that write a file are hit in the same way: they
raise, or the file is right. Non-trivial: a write failed.'''
ASSUMPTIONS = ['in most cases, and in all where nothing can be mounted, '
               'writes fail by the limit on file sizes (EFBIG) instead of '
               'ENOSPC: the code under test sees a failing write in both '
               'cases', 'a log that cannot be written is not a result']
MIN_COUNTS = {'faults': 60, 'refused': 25, 'survived': 1, 'again': 8,
              'functions': 40}
MIN_NONTRIVIAL = 15
preload = pipeline.preload

KINDS = ['run', 'disk', 'convert', 'pre', 'raster', 'functions', 'functions',
         'parallel']


def cases(rng, tier):
    n = 24 if tier == 'quick' else 900
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'kind': KINDS[i % len(KINDS)],
               'fine': tier != 'quick' and rng.random() < .3}


def limited(size):
    def fn():
        resource.setrlimit(resource.RLIMIT_FSIZE, (
            size, resource.RLIM_INFINITY))
    return fn


def sizes(folder):
    got = []
    for base, _, files in os.walk(folder):
        got += [os.path.getsize(os.path.join(base, f)) for f in files]
    return sorted(set(got))


def limit(r, known):
    """A limit near the size of one of the results, or any."""
    if r.random() < .6:
        s = int(r.choice(known))
        return max(0, s - int(r.choice([1, 2, 8, 30, 100, 300, s // 2,
                                        s - s // 8])))
    return int(r.integers(0, max(known) + 1))


def at_event(n, size, note, span):
    """From the n-th event of the log on, files cannot grow beyond size, for
    as many events as span."""
    state = {'n': 0}
    real = logging.Logger.handle

    def handle(self, record):
        state['n'] += 1
        if state['n'] == n:
            with open(note, 'w') as f:
                f.write(record.getMessage()[:300])
            # (what the run prints is in files here)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            limited(size)()
        elif state['n'] == n + span:
            limited(resource.RLIM_INFINITY)()
        return real(self, record)

    def install():
        logging.raiseExceptions = False
        logging.Logger.handle = handle
    return install


def spell(r):
    """For how many events of the log it is not possible to write."""
    return int(r.choice([1, 2, 5, 20, 10 ** 6]))


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    kind = spec['kind']
    if kind == 'functions':
        functions(r, mon)
    elif kind in ('pre', 'raster'):
        preprocessing(r, mon, kind)
    elif kind in ('convert', 'parallel'):
        convert(r, mon, kind == 'parallel', spec['seed'])
    else:
        case = pipeline.small(r, mon.tmp, px=.02 if spec['fine'] else float(
            r.choice([1 / 12., .05])), maxtiles=3, empty=False, **(
                {'out': mon.tmp + '/disk/out'} if kind == 'disk' else {}))
        case.dem = np.abs(case.dem) + 1
        raster.write(case.demfile, case.dem, case.x0, case.y0, case.px,
                     case.py, 'f4')
        (run if kind == 'run' else disk)(r, mon, case)


def verdict(mon, rc, what, fn):
    """fn raises a violation unless the results are right."""
    mon.count('faults')
    if rc:
        mon.count('refused')
        mon.nontrivial = True
        return
    mon.count('survived')
    try:
        fn()
    except Exception as e:
        mon.fail('%s: status 0, but %s' % (what, e))


def run(r, mon, case):
    events = mon.tmp + '/events'
    count = {'n': 0}
    real = logging.Logger.handle

    def counting(self, record):
        count['n'] += 1
        if count['n'] % 4 == 0:
            with open(events, 'w') as f:
                f.write(str(count['n']))
        if 'Saving data' in str(record.msg):
            with open(events + '.saving', 'a') as f:
                f.write('%d\n' % count['n'])
        return real(self, record)

    remove = os.remove

    def removing(path, *args, **kw):
        # sizes of temporary files
        if os.path.isfile(path):
            with open(events + '.temp', 'a') as f:
                f.write('%d\n' % os.path.getsize(path))
        return remove(path, *args, **kw)

    def hook():
        logging.Logger.handle = counting
        os.remove = removing
    pipeline.run(mon, case, hook=hook)
    clean = values(case.out)
    known = sizes(case.out)
    if os.path.exists(events + '.temp') and r.random() < .5:
        with open(events + '.temp') as f:
            known = sorted(set(known + [int(q) for q in f]))
    with open(events) as f:
        total = int(f.read())
    products = [sizes(case.out + '/' + d) for d in ('M3', 'M3_max')]
    saving = []
    if os.path.exists(events + '.saving'):
        with open(events + '.saving') as f:
            saving = [int(k) for k in f]
    for q in range(4):
        n = total - int(r.integers(0, 8)) if r.random() < .3 else \
            int(r.integers(1, total + 1))
        size = limit(r, known)
        if saving and r.random() < .4:
            # as a product of the conversion is written
            n = int(r.choice(saving))
            size = limit(r, products[int(r.random() < .6)])
        note = '%s/note%d' % (mon.tmp, q)
        rc, text = pipeline.run(mon, case, must=False,
                                hook=at_event(n, size, note, spell(r)))
        if not os.path.exists(note):
            continue
        with open(note) as f:
            what = 'a run whose files cannot grow beyond %d bytes from the ' \
                'event "%s" on' % (size, f.read())

        def right():
            complete(mon, case)
            same(mon, clean, values(case.out), 'the run')
        verdict(mon, rc, what, right)
        mon.state('run', n * 10 // total, size * 5 // max(known), bool(rc))
    pipeline.run(mon, case)
    complete(mon, case)
    same(mon, clean, values(case.out), 'a run after those that could not '
         'write')
    mon.count('again')


MOUNT = """mount -t tmpfs -o size=$1k none "$2" || exit 99
if [ -d "$3" ]; then cp -r "$3/." "$2" || exit 98; fi
copy=$4; at=$2; cd "$5" || exit 97; shift 5
"$@"; rc=$?
rm -rf "$copy"; cp -r "$at" "$copy"; exit $rc"""


def full(mon, argv, pages, at, source=None, cwd='/'):
    """Run a program that writes to the folder at: a disk of its own with few
    pages, which has the files of source. Those of the disk are copied to
    mon.tmp/copy. Returns None if that cannot be done here."""
    prefix = ['unshare', '-Urm', 'sh', '-c', MOUNT, 'sh', '%d' % (4 * pages),
              at, source or '-', mon.tmp + '/copy', cwd]
    try:
        rc, text = pipeline.command(mon, argv, '/', prefix=prefix)
    except FileNotFoundError:
        return None
    if rc in (97, 98, 99) or text.startswith('unshare:'):
        return None
    mon.count('full_disks')
    return rc


def pages_of(folder):
    """Pages that the files of a folder take."""
    n = 0
    for base, dirs, files in os.walk(folder):
        n += sum((os.path.getsize(os.path.join(base, f)) + 4095) // 4096
                 for f in files)
    return n


def disk(r, mon, case):
    """A run and a conversion on a full disk."""
    at = mon.tmp + '/disk'
    os.makedirs(at, exist_ok=True)
    pipeline.run(mon, case)
    clean = values(case.out)
    total = pages_of(case.out)
    keep = case.out

    def hit(argv, low, source, what, whole, few=False):
        pages = int(r.integers(low, low + 8 if few else total + 12))
        rc = full(mon, argv, pages, at, source, case.root)
        if rc is None:
            return

        def right():
            if whole:
                complete(mon, case)
            same(mon, clean, values(case.out), what)
        case.out = mon.tmp + '/copy/out'
        verdict(mon, rc, '%s on a disk of %d pages of which the results take '
                '%d' % (what, pages, total), right)
        case.out = keep
        mon.state(what, pages * 8 // total, bool(rc))
    for q in range(6):
        hit([os.path.join(REPO, 'all_multipliers.py'), '-c', case.cfg], 1,
            None, 'a run', True, q < 4)
    source = mon.tmp + '/source'
    shutil.copytree(at, source)
    for d in ('M3', 'M3_max'):
        shutil.rmtree(source + '/out/' + d)
    for q in range(3):
        hit(['-m', 'utilities.mpi_runner', '-p', case.out],
            pages_of(source), source, 'a conversion', False, q == 0)
    pipeline.run(mon, case)
    complete(mon, case)
    same(mon, clean, values(case.out), 'a run after those on a full disk')
    mon.count('again')


def convert(r, mon, parallel, seed):
    out = os.path.join(mon.tmp, 'tiles_%d' % seed)
    shape = [int(r.integers(4, 20 if r.random() < .2 else 110))
             for _ in range(2)]
    ts = tiles.TileSet(r, out, int(r.integers(1, 4)), shape=shape,
                       grid=True)
    done = [out + '/' + d for d in ('M3', 'M3_max')]
    argv = ['-m', 'utilities.mpi_runner', '-p', out]

    def clear():
        for d in done:
            shutil.rmtree(d, ignore_errors=True)
    clear()
    rc, text = pipeline.command(mon, argv, mon.tmp)
    mon.check(rc == 0, 'the conversion fails: %s', text)
    clean = values(out)
    mon.check(sum(k.startswith('M3/') for k in clean) == len(ts.vals) + 1,
              'products of the conversion: %s', sorted(clean))
    products = [sizes(d) for d in done]
    known = products[0] + products[1]
    for q in range(2):
        size = limit(r, known)
        clear()
        if parallel:
            n = int(r.integers(2, 4))
            hit = {int(r.integers(0, n)): limited(size)}
            st, _, _ = mpirun.mpirun(mon, n, argv, mon.tmp, seed + q,
                                     hooks=hit)
            rc = any(st)
            what = 'conversion by %d processes, of which rank %d' % (
                n, list(hit)[0])
        else:
            rc, _ = pipeline.command(mon, argv, mon.tmp, start=limited(size))
            what = 'conversion that'
        verdict(mon, rc, what + ' cannot write more than %d bytes to a file'
                % size, lambda: same(mon, clean, values(out),
                                     'the conversion'))
        mon.state('convert', parallel, size * 8 // max(known), bool(rc))
    if not parallel:
        at_events(r, mon, out, clean, done, products)
    clear()
    rc, text = pipeline.command(mon, argv, mon.tmp)
    mon.check(rc == 0, 'conversion after one that could not write: %s', text)
    same(mon, clean, values(out), 'conversion after one that could not '
         'write')
    mon.count('again')


def converting(folder, start):
    """Convert the tiles of a folder in this process."""
    from utilities import mpi_runner
    from utilities.convert import create_sub_dirs_for_convert
    from utilities.parallel import attempt_parallel
    create_sub_dirs_for_convert(folder)
    logging.getLogger().setLevel(logging.DEBUG)
    start()
    mpi_runner.parallelise_convert_on_tiles(folder,
                                            attempt_parallel().COMM_WORLD)


def at_events(r, mon, out, clean, done, products):
    """Conversions that cannot write from an event of their log on."""
    events = mon.tmp + '/conversion'
    real = logging.Logger.handle

    def listing(self, record):
        with open(events, 'a') as f:
            f.write(repr(record.getMessage()) + '\n')
        return real(self, record)

    def go(start):
        for d in done:
            shutil.rmtree(d, ignore_errors=True)
        return pipeline.forked(mon, lambda: converting(out, start),
                               mon.tmp)
    rc = go(lambda: setattr(logging.Logger, 'handle', listing))
    mon.check(rc == 0, 'the conversion fails: %s',
              pipeline.tail(mon.tmp + '/fork.log'))
    if not os.path.exists(events):
        return
    with open(events) as f:
        lines = f.read().splitlines()
    # those that tell that a product is written, and any
    often = [k for k, t in enumerate(lines) if '.tif' in t] or [0]
    for q in range(16):
        n = 1 + int(r.choice(often) if r.random() < .8 else
                    r.integers(0, len(lines)))
        size = limit(r, products[int(r.integers(0, len(products)))])
        note = '%s/note%d' % (mon.tmp, q)
        rc = go(at_event(n, size, note, spell(r)))
        if not os.path.exists(note):
            continue
        verdict(mon, rc, 'a conversion that cannot write more than %d bytes '
                'to a file from %s on' % (size, lines[n - 1]),
                lambda: same(mon, clean, values(out), 'the conversion'))
        mon.state('events', n * 10 // len(lines), bool(rc))


def layer_of(path):
    from osgeo import ogr
    ds = ogr.Open(path)
    ly = ds.GetLayer()
    return [(f.GetGeometryRef().ExportToWkb(), sorted(f.items().items()))
            for f in ly]


def preprocessing(r, mon, kind):
    from shapely.geometry import box
    from wmv.checks.w19 import layer, notes, shape_of
    from wmv.checks.w20 import write_layer
    area = (140, -20, 141, -19)
    n = int(r.integers(1, 25))
    c = int(r.choice([5, 30, 90]))
    raster.write(mon.tmp + '/topo.tif', np.ones((c, c)), 140, -19, 1. / c,
                 1. / c, str(r.choice(['u1', 'f4'])))
    out = mon.tmp + '/out'
    if kind == 'pre':
        layer(mon.tmp + '/sett.shp', 'SETTLEMENT', [
            (shape_of(r, area, 1.), 'City')], [])
        layer(mon.tmp + '/use.shp', 'MB_CAT16', [
            (shape_of(r, area, .3), 'Water') for _ in range(n)], [],
            more=notes(r, n, None) if r.random() < .6 else None)
        with open(mon.tmp + '/pre.cfg', 'w') as f:
            f.write('[Preprocessing]\nsettlement_data = %s/sett.shp\n'
                    'settlement_cat = SETTLEMENT\nland_use_data = %s/use.shp'
                    '\nland_use_cat = MB_CAT16\ncrop_mask = None\n'
                    'input_topo = %s/topo.tif\noutput_shapefile = '
                    '%s/mesh.shp\noutput_rasterized = %s/mesh.tif\n' % (
                        (mon.tmp,) * 3 + (out,) * 2))
        argv = [os.path.join(REPO, 'pre_process.py'), '-c',
                mon.tmp + '/pre.cfg']
    else:
        write_layer(mon.tmp + '/cat.shp', [
            (shape_of(r, area, .3), 100 + i) for i in range(n)])
        argv = [os.path.join(REPO, 'rasterize.py'), '-i', mon.tmp +
                '/cat.shp', '-t', mon.tmp + '/topo.tif']
        if r.random() < .4:
            layer(mon.tmp + '/mask.shp', 'NAME', [
                (box(140.2, -19.8, 140.8, -19.2), 'x')], [])
            argv += ['-c', mon.tmp + '/mask.shp']

    def go(start=None):
        shutil.rmtree(out, ignore_errors=True)
        os.mkdir(out)
        if os.path.exists(mon.tmp + '/topo_crop.tif'):
            os.remove(mon.tmp + '/topo_crop.tif')
        return pipeline.command(mon, argv, out, start=start)

    def result(folder=out):
        got = {}
        for f in sorted(os.listdir(folder)):
            p = os.path.join(folder, f)
            if f.endswith('.shp'):
                got[f] = layer_of(p)
            elif f.endswith(('.tif', '.tiff')):
                d = raster.read(p)
                got[f] = (d['a'].tobytes(), d['size'], tuple(d['gt']))
        return got
    rc, text = go()
    mon.check(rc == 0, 'the program fails: %s', text[-1500:])
    clean = result()
    known = sizes(out)
    big = [s for s in known if s > max(known) * .6]
    name = os.path.basename(argv[0])
    for q in range(4):
        if q == 3:
            # a disk that is full
            pages = int(r.integers(1, pages_of(out) + 8))
            rc = full(mon, argv, pages, out, None, out)
            if rc is None:
                continue

            def right():
                mon.check(result(mon.tmp + '/copy') == clean, 'the results '
                          'are not those of a run with room')
            verdict(mon, rc, '%s on a disk of %d pages of which the results '
                    'take %d' % (name, pages, pages_of(out)), right)
            continue
        size = limit(r, big if r.random() < .7 else known)
        rc, _ = go(limited(size))

        def right():
            mon.check(result() == clean, 'the results are not those of a run '
                      'with room')
        verdict(mon, rc, '%s that cannot write more than %d bytes to a file'
                % (name, size), right)
        mon.state(kind, size * 8 // max(known), bool(rc))
    rc, text = go()
    mon.check(rc == 0 and result() == clean, 'status %s of %s after it could '
              'not write: %s', rc, name, text[-1500:])
    mon.count('again')
    if '-c' in argv and kind == 'raster':
        # something else in the place of its last result
        os.remove(out + '/test_crop.tiff')
        os.mkdir(out + '/test_crop.tiff')
        rc, _ = pipeline.command(mon, argv, out)
        mon.check(rc != 0, 'rasterize.py ends with status 0 although a '
                  'folder is in the place of its result')
        mon.count('faults')
        mon.count('refused')


def functions(r, mon):
    """Functions that write a file, in a process of their own."""
    import pre_process  # noqa: F401
    from utilities import files, nctools
    from utilities.config import configparser as config
    from utilities.shapefiles import shp_file
    from wmv.checks.w19 import layer, notes, shape_of
    h, w = int(r.integers(2, 60)), int(r.integers(2, 60))
    lat = -20 - np.arange(h) * .01
    lon = 140 + np.arange(w) * .01
    a = np.float32(r.random((h, w)) + .5)
    cfg = pipeline.write_cfg(
        mon.tmp + '/run.cfg', root=mon.tmp, up=.01, lc='lc.tif',
        table='t.csv', dem='dem.tif', out=mon.tmp + '/o', log='m.log')
    config.set_config_file(cfg)
    area = (140, -20, 141, -19)
    k = int(r.integers(1, 15))
    layer(mon.tmp + '/in.shp', 'KIND', [
        (shape_of(r, area, .4), 'x' * int(r.integers(1, 60)))
        for _ in range(k)], [],
        more=notes(r, k, None) if r.random() < .6 else None)

    def shapes(p):
        s = shp_file()
        s.read(mon.tmp + '/in.shp')
        for n, q in enumerate(s.attribute):
            q.update({'CAT': n + 1})
        s.meta['schema']['properties'].update({'CAT': 'int'})
        s.save(p)

    def grid(p):
        nctools.nc_save_grid(p, {
            0: {'name': 'lat', 'values': lat, 'dtype': 'd', 'atts': {}},
            1: {'name': 'lon', 'values': lon, 'dtype': 'd', 'atts': {}}},
            {0: {'name': 'M', 'dims': ('lat', 'lon'), 'values': a,
                 'dtype': 'f', 'atts': {}}})
    uses = {
        'save_multiplier': ('m.nc', lambda p: nctools.save_multiplier(
            'Mz', a, lat, lon, p),
            lambda p: raster.read_nc(p)['v'].tobytes()),
        'nc_save_grid': ('g.nc', grid,
                         lambda p: raster.read_nc(p)['v'].tobytes()),
        'fl_save_file': ('t.csv', lambda p: files.fl_save_file(
            p, a, fmt='%.5f'), lambda p: open(p).read()),
        'shp_file.save': ('s.shp', shapes, layer_of),
    }
    for name, (f, fn, read) in uses.items():
        p = os.path.join(mon.tmp, 'good', f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        rc = pipeline.forked(mon, lambda: fn(p), mon.tmp)
        mon.check(rc == 0, '%s fails: %s', name,
                  pipeline.tail(mon.tmp + '/fork.log'))
        clean = read(p)
        known = [os.path.getsize(os.path.join(os.path.dirname(p), q))
                 for q in os.listdir(os.path.dirname(p))]
        for q in range(4):
            size = limit(r, [max(known)] if r.random() < .6 else known)
            d = '%s/bad%d' % (mon.tmp, q)
            os.mkdir(d)
            b = os.path.join(d, f)

            def hit():
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                limited(size)()
                fn(b)
            rc = pipeline.forked(mon, hit, mon.tmp)

            def right():
                mon.check(read(b) == clean, 'the file is not right')
            verdict(mon, rc, '%s that cannot write more than %d bytes' % (
                name, size), right)
            mon.count('functions')
            mon.state(name, size * 8 // max(known), bool(rc))
            shutil.rmtree(d)
        shutil.rmtree(os.path.dirname(p))
