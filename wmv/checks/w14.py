"""The netCDF files of the multipliers."""

import os
import time

import numpy as np

from wmv import clock, gen, raster, tilecalc
from wmv.common import REPO
from wmv.tilecalc import use_config, write_cfg

RULE = '''save_multiplier with random windows of random rasters (extents
clipped by clip_array and get_lat_lon, NaN cells, all kinds of names and
configurations, over old files, at
many moments of a shifted clock, with and without git, from any folder), and
nc_save_grid with random dimensions, variables, types and options, including
incomplete descriptions, and single dimensions and variables made in an open
file; the files are read back with netCDF4 and GDAL.
Non-trivial: the window is not the whole raster, or there are several
variables.'''
ASSUMPTIONS = ['at least two rows and columns, which tiles always have']
MIN_COUNTS = {'files': 150, 'values': 5000, 'refused': 20, 'options': 160,
              'created': 25, 'git_asked': 15}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload
WORD = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}


def cases(rng, tier):
    n = 60 if tier == 'quick' else 2500
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['multiplier', 'multiplier', 'grid', 'options'][i % 4]}


def multiplier(r, mon, k):
    from utilities import nctools
    px = float(r.choice([.0025, .01, .05, 1 / 30., 1 / 3600., .0833333]))
    py = px if r.random() < .6 else px * float(r.choice([.5, .8, 1.3]))
    x0, y0 = gen.lonlat(r)
    if r.random() < .3:             # anywhere else
        x0, y0 = float(r.uniform(-175, 90)), float(r.uniform(-40, 80))
    rows, cols = int(r.integers(2, 40)), int(r.integers(2, 40))
    i0, j0 = int(r.integers(0, rows - 1)), int(r.integers(0, cols - 1))
    i1, j1 = int(r.integers(i0 + 2, rows + 1)), int(r.integers(j0 + 2,
                                                               cols + 1))
    extent = (x0 + j0 * px, y0 - i0 * py, x0 + j1 * px, y0 - i1 * py)
    data = r.uniform(.3, 1.7, (rows, cols))
    if r.random() < .6:
        data[r.random(data.shape) < .2] = np.nan
    if r.random() < .5:
        data = data.astype('f4')
    keep = data.copy()
    cut = mon.code(nctools.clip_array, data, x0, -y0, px, py, extent)
    lon, lat = mon.code(nctools.get_lat_lon, extent, px, py)
    want = keep[i0:i1, j0:j1]
    mon.check(np.array_equal(cut, want, equal_nan=True),
              'rows %d to %d, columns %d to %d of a raster at (%r, %r) with '
              'cells %r x %r: clip_array gives another part', i0, i1, j0, j1,
              x0, y0, px, py)
    wlon = x0 + (np.arange(j0, j1) + .5) * px
    wlat = y0 - (np.arange(i0, i1) + .5) * py
    mon.check(len(lon) == len(wlon) and len(lat) == len(wlat) and
              np.allclose(lon, wlon, 0, 1e-9) and
              np.allclose(lat, wlat, 0, 1e-9),
              'get_lat_lon%s gives other coordinates than the cell centres',
              (extent, px, py))
    lon, lat = mon.code(nctools.get_lat_lon, extent, px, py / 2)
    half = y0 - (np.arange(2 * i0, 2 * i1) + .5) * py / 2
    mon.check(len(lon) == len(wlon) and len(lat) == len(half) and
              np.allclose(lat, half, 0, 1e-9),
              'get_lat_lon%s gives other coordinates than the cell centres',
              (extent, px, py / 2))
    lon, lat = mon.code(nctools.get_lat_lon, extent, px, py)
    mult = str(r.choice(['Mz', 'Ms', 'Mt']))
    d = str(r.choice(raster.DIRS))
    base = str(r.choice(['e140.0s20.0', 'e112.5-s9.2', 'tile.x', 'a_b']))
    path = os.path.join(mon.tmp, '%s_%s_%s.nc' % (base, mult.lower(), d))
    if r.random() < .4:
        with open(path, 'wb') as f:
            f.write(b'old' * 100)
    conf = {'lc': 'terrain %d.tif' % r.integers(1e6), 'up': r.random(),
            'dem': '/data/dem%d.img' % r.integers(1e6),
            'table': 't%d.csv' % r.integers(1e6)}
    use_config(write_cfg(mon.tmp + '/c.cfg', **conf))
    here = os.getcwd()
    path0 = os.environ.get('PATH')
    if r.random() < .4:
        os.environ['PATH'] = mon.tmp          # no git
        mon.count('without_git')
    fake = None
    if os.environ['PATH'] == path0 and r.random() < .4:
        # a git that tells which folder it was asked about
        fake = os.path.join(mon.tmp, 'bin')
        os.makedirs(fake, exist_ok=True)
        with open(fake + '/git', 'w') as f:
            f.write('#!/bin/sh\nwhile [ "$1" = -C ]; do cd "$2"; shift 2; '
                    'done\necho "v-$(pwd -P)"\n')
        os.chmod(fake + '/git', 0o755)
        os.environ['PATH'] = fake + os.pathsep + path0
    name = path if r.random() < .5 else os.path.relpath(path)
    tz = os.environ.get('TZ')
    os.environ['TZ'] = str(r.choice(['UTC', 'AEST-10', 'NST3:30']))
    time.tzset()
    ahead = clock.moment(r) if 'WMV_CLOCK' in os.environ else 0
    mon.count('clock_set', bool(ahead))
    try:
        with clock.shifted(ahead):
            mon.code(nctools.save_multiplier, mult, cut, lat, lon, name)
    finally:
        os.environ['PATH'] = path0
    mon.check(os.getcwd() == here, 'save_multiplier left the current folder')
    mon.check(np.array_equal(data, keep, equal_nan=True),
              'save_multiplier changed its data')
    g = raster.read_nc(path)
    mon.count('files')
    mon.count('values', g['v'].size)
    mon.check(g['names'] == [mult] and g['dims'] == ('lat', 'lon') and
              g['dtype'] == np.dtype('f4'),
              '%s: variables %s %s %s', path, g['names'], g['dims'],
              g['dtype'])
    v = g['v'].astype(float)
    v[v == -9999] = np.nan
    mon.check(np.array_equal(v, want.astype('f4').astype(float),
                             equal_nan=True), '%s: other values than saved',
              path)
    mon.check(np.allclose(g['lon'], wlon, 0, 1e-9) and
              np.allclose(g['lat'], wlat, 0, 1e-9),
              '%s: coordinates %s %s', path, g['lon'][:3], g['lat'][:3])
    mon.check(g['vatts'].get('_FillValue') == -9999, '%s: fill value %s',
              path, g['vatts'].get('_FillValue'))
    a = g['gatts']
    mon.check(WORD[mult] in a.get('Abstract', '') and
              ' %s direction' % d in a.get('Abstract', ''),
              '%s: described as %r', path, a.get('Abstract'))
    for sec, opt, val in (('inputValues', 'terrain_data', conf['lc']),
                          ('inputValues', 'dem_data', conf['dem']),
                          ('inputValues', 'terrain_table', conf['table']),
                          ('inputValues', 'upwind_length', str(conf['up'])),
                          ('Output', 'output_dir', 'out')):
        mon.check(a.get('%s_%s' % (sec, opt)) == val, '%s: attribute %s_%s is '
                  '%r, the configuration says %r', path, sec, opt,
                  a.get('%s_%s' % (sec, opt)), val)
    mon.check(conf['lc'] in a.get('Inputs', '') and
              conf['dem'] in a.get('Inputs', ''), '%s: inputs %r', path,
              a.get('Inputs'))
    mon.check(a.get('title', '').startswith(mult), '%s: title %r', path,
              a.get('title'))
    if fake:
        mon.check(str(a.get('Git_version')).startswith(
            'v-' + os.path.realpath(REPO)), '%s: says it was made by git '
            'version %r: not that of the program', path,
            a.get('Git_version'))
        mon.count('git_asked')
    try:
        about(mon, path, a, v, wlon, wlat, ahead)
    finally:
        os.environ.pop('TZ')
        if tz is not None:
            os.environ['TZ'] = tz
        time.tzset()
    t = raster.read(path)
    want_gt = (extent[0], px, 0, extent[1], 0, -py)
    mon.check(np.allclose(t['gt'], want_gt, 0, 1e-6 * px), '%s: read at '
              '%s, expected %s', path, t['gt'], want_gt)
    gg = t['a'].astype(float)
    gg[gg == -9999] = np.nan
    mon.check(np.array_equal(gg, v, equal_nan=True),
              '%s: GDAL reads other values', path)
    mon.state(mult, d, rows > i1, j0 > 0)
    if (i1 - i0, j1 - j0) != (rows, cols):
        mon.nontrivial = True


def about(mon, path, a, v, lon, lat, ahead):
    """What the file says of itself."""
    import datetime
    import getpass
    import netCDF4
    import sys
    from utilities.files import fl_program_version
    with netCDF4.Dataset(path) as d:
        at = {k: {q: w.getncattr(q) for q in w.ncattrs()}
              for k, w in d.variables.items()}
        name = [k for k in at if k not in ('lat', 'lon', 'crs')][0]
        mon.check(at.get('crs', {}).get('grid_mapping_name') ==
                  'latitude_longitude' and
                  abs(at['crs'].get('semi_major_axis', 0) - 6378137) < 1 and
                  abs(at['crs'].get('inverse_flattening', 0) - 298.25722) <
                  1e-4 and
                  at['crs'].get('longitude_of_prime_meridian') == 0,
                  '%s: coordinate system %s', path, at.get('crs'))
        for k, unit, std, val in (
                ('lat', 'degrees_north', 'latitude', lat),
                ('lon', 'degrees_east', 'longitude', lon), (name, None, None,
                                                            v)):
            if unit:
                mon.check(at[k].get('units') == unit and
                          at[k].get('standard_name') == std,
                          '%s: %s is in %s (%s)', path, k,
                          at[k].get('units'), at[k].get('standard_name'))
            if np.isnan(val).all():
                continue
            rng = np.array(at[k].get('actual_range'), float)
            mon.check(rng.shape == (2,) and
                      abs(rng - [np.nanmin(val), np.nanmax(val)]).max() <
                      1e-6, '%s: %s says it ranges over %s, but it ranges '
                      'over %s', path, k, rng, (np.nanmin(val),
                                                np.nanmax(val)))
    now = datetime.datetime.fromtimestamp(time.time() + ahead)
    then = datetime.datetime.strptime(a['Created_on'], '%Y-%m-%d %H:%M:%S')
    mon.check(0 <= (now - then).total_seconds() < 120, '%s was made on %s, '
              'it says %s', path, now, then)
    mon.check(a.get('Created_by') == getpass.getuser() and
              a.get('Python_version') == sys.version and
              a.get('Wind_multipler_code_version') == fl_program_version(),
              '%s: made by %s with %s, %s', path, a.get('Created_by'),
              a.get('Python_version'), a.get('Wind_multipler_code_version'))


TYPES = ['f', 'd', 'i', 'h', 'f']


def describe(r):
    names = ['lat', 'lon', 'time', 'level', 'x']
    nd = int(r.integers(1, 4))
    dims = {}
    for k in range(nd):
        n = int(r.integers(1, 7))
        dims[k] = {'name': names[k], 'dtype': 'd',
                   'values': np.sort(r.uniform(-90, 90, n)),
                   'atts': {'units': 'u%d' % k, 'long_name': 'n %d' % k}}
    vs = {}
    for k in range(int(r.integers(1, 5))):
        t = TYPES[int(r.integers(0, len(TYPES)))]
        sub = tuple(dims[q]['name'] for q in sorted(
            r.choice(nd, int(r.integers(1, nd + 1)), replace=False)))
        shape = [len(d['values']) for q in sub for d in dims.values()
                 if d['name'] == q]
        v = r.uniform(-99, 99, shape).astype(t)
        vs[k] = {'name': 'var%d' % k, 'dims': sub, 'values': v, 'dtype': t,
                 'atts': {'long_name': 'variable %d' % k, 'scale': 1.5}}
    return dims, vs


def grid(r, mon, k):
    from utilities import nctools
    dims, vs = describe(r)
    fn = os.path.join(mon.tmp, 'g%d.nc' % k)
    gatts = {'source': 'test %d' % k, 'n': 3}
    kw = {'gatts': gatts} if r.random() < .8 else {}
    title = 'a title' if r.random() < .5 else None
    nodata = -9999 if r.random() < .6 else -1
    keep = {q: v['values'].copy() for q, v in vs.items()}
    out = mon.code(nctools.nc_save_grid, fn, dims, vs, nodata=nodata,
                   datatitle=title, **kw)
    mon.check(out is None, 'nc_save_grid returned %s', out)
    readback(mon, fn, dims, keep, vs, nodata, title, kw.get('gatts', {}))
    mon.check(all(np.array_equal(v['values'], keep[q])
                  for q, v in vs.items()), 'nc_save_grid changed its data')
    mon.nontrivial |= len(vs) > 1


def readback(mon, fn, dims, keep, vs, nodata, title, gatts):
    import netCDF4
    mon.count('files')
    with netCDF4.Dataset(fn) as d:
        d.set_auto_mask(False)
        mon.check({k: len(v) for k, v in d.dimensions.items()} ==
                  {v['name']: len(v['values']) for v in dims.values()},
                  'dimensions %s', list(d.dimensions))
        for v in dims.values():
            mon.check(np.array_equal(d.variables[v['name']][:], v['values']),
                      'coordinates of %s differ', v['name'])
            for a, b in v['atts'].items():
                mon.check(d.variables[v['name']].getncattr(a) == b,
                          'attribute %s of %s differs', a, v['name'])
        for q, v in vs.items():
            mon.check(v['name'] in d.variables, 'no variable %s (of %d)',
                      v['name'], len(vs))
            w = d.variables[v['name']]
            mon.check(w.dimensions == v['dims'], '%s has dimensions %s',
                      v['name'], w.dimensions)
            if keep is not None:
                mon.check(np.array_equal(w[:], keep[q]), '%s has other '
                          'values than given', v['name'])
                mon.count('values', w[:].size)
            else:
                mon.check((w[:] == nodata).all(), '%s has values though '
                          'writedata is off', v['name'])
            mon.check(w.dtype == np.dtype(v['dtype']) and
                      w.getncattr('_FillValue') == nodata,
                      '%s is %s with fill value %s', v['name'], w.dtype,
                      w.getncattr('_FillValue'))
            for a, b in v['atts'].items():
                mon.check(w.getncattr(a) == b, 'attribute %s of %s differs',
                          a, v['name'])
        for a, b in gatts.items():
            mon.check(a in d.ncattrs() and d.getncattr(a) == b,
                      'global attribute %s differs', a)
        got = {a for a in d.ncattrs()}
        mon.check(got <= set(gatts) | {'title'}, 'global attributes %s were '
                  'not asked for', got - set(gatts))
        mon.check(('title' in got) == (title is not None) and
                  (title is None or d.title == title), 'title %s', got)


def options(r, mon, k):
    from utilities import nctools
    import netCDF4
    dims, vs = describe(r)
    fn = os.path.join(mon.tmp, 'o%d.nc' % k)
    u = k % 7
    mon.count('options')
    if u == 4:
        return create(r, mon, fn)
    if u == 5:
        return digits(r, mon, fn, dims, vs)
    if u == 6:
        mon.code(nctools.nc_save_grid, fn, dims, vs, gatts=None)
        readback(mon, fn, dims, {q: v['values'] for q, v in vs.items()}, vs,
                 -9999, None, {})
        return
    if u == 0:
        mon.code(nctools.nc_save_grid, fn, dims, vs, writedata=False)
        readback(mon, fn, dims, None, vs, -9999, None, {})
    elif u == 1:
        d = mon.code(nctools.nc_save_grid, fn, dims, vs, writedata=False,
                     keepfileopen=True)
        mon.check(isinstance(d, netCDF4.Dataset) and d.isopen(),
                  'keepfileopen gives %s', d)
        for v in vs.values():
            d.variables[v['name']][:] = v['values']
        d.close()
        readback(mon, fn, dims, {q: v['values'] for q, v in vs.items()}, vs,
                 -9999, None, {})
    else:
        part = (dims, vs)[int(r.integers(0, 2))]
        q = int(r.integers(0, len(part)))
        exp = KeyError
        if u == 2:
            del part[q][str(r.choice(sorted(part[q])))]
        else:
            q = int(r.integers(0, len(vs)))
            vs[q]['values'] = vs[q]['values'][None]
            exp = ValueError
        mon.count('calls')
        try:
            nctools.nc_save_grid(fn, dims, vs)
        except exp:
            mon.count('refused')
        except Exception as e:
            mon.fail('an incomplete description gives %s: %s, not %s' % (
                type(e).__name__, e, exp.__name__))
        else:
            mon.fail('an incomplete description is accepted (%s)' %
                     exp.__name__)


def digits(r, mon, fn, dims, vs):
    """Values rounded as asked for, and files that cannot be written."""
    from utilities import nctools
    import netCDF4
    lsd = [None, 1, 2, 3][int(r.integers(0, 4))]
    own = {}
    for q, v in vs.items():
        if r.random() < .5:
            own[q] = v['least_significant_digit'] = int(r.integers(0, 4))
    kw = {'zlib': bool(r.random() < .5), 'complevel': int(r.integers(1, 9))}
    mon.code(nctools.nc_save_grid, fn, dims, vs, lsd=lsd, **kw)
    with netCDF4.Dataset(fn) as d:
        d.set_auto_mask(False)
        for q, v in vs.items():
            n = own.get(q, lsd)
            tol = 0 if n is None or v['dtype'] in 'ih' else \
                .51 * 10. ** -n + 1e-5
            got = d[v['name']][:]
            mon.check((abs(got.astype(float) - v['values']) <= tol).all(),
                      '%s to %r digits: %s, given %s', v['name'], n,
                      got.tolist(), v['values'].tolist())
            if n == 0 and v['dtype'] not in 'ih':
                mon.check((got == np.round(got)).all(), '%s to no digits: %s',
                          v['name'], got.tolist())
            mon.count('values', got.size)
            mon.count('rounded', tol > 0)
    bad = os.path.join(mon.tmp, 'absent', 'x.nc')
    mon.count('calls')
    try:
        nctools.nc_save_grid(bad, dims, vs)
    except IOError:
        mon.count('refused')
    except Exception as e:
        mon.fail('a file that cannot be written gives %s: %s' % (
            type(e).__name__, e))
    else:
        mon.fail('a file that cannot be written is accepted')


def create(r, mon, fn):
    """nc_create_dim and nc_create_var, one by one, into an open file."""
    from utilities import nctools
    import netCDF4
    nx, ny = int(r.integers(1, 6)), int(r.integers(1, 6))
    xs, ys = np.sort(r.uniform(-9, 9, nx)), np.sort(r.uniform(-9, 9, ny))
    want = {}
    with netCDF4.Dataset(fn, 'w', format='NETCDF3_CLASSIC') as d:
        mon.code(nctools.nc_create_dim, d, 'x', xs, 'd', {'units': 'm'})
        mon.code(nctools.nc_create_dim, d, 'y', ys, 'd')
        for i in range(int(r.integers(1, 4))):
            t = TYPES[int(r.integers(0, len(TYPES)))]
            u = int(r.integers(0, 4))
            data = (None, 0, r.uniform(-9, 9, (ny, nx)).astype(t),
                    r.integers(-9, 9, (ny, nx)).tolist())[u]
            atts = {'units': 'm/s', 'n': i} if r.random() < .5 else None
            kw = {'fill_value': -5} if r.random() < .5 else {}
            v = mon.code(nctools.nc_create_var, d, 'v%d' % i, ('y', 'x'), t,
                         data, atts, **kw)
            mon.check(isinstance(v, netCDF4.Variable) and
                      v.name == 'v%d' % i, 'nc_create_var gives %s', v)
            want['v%d' % i] = (t, data, atts, kw)
    with netCDF4.Dataset(fn) as d:
        d.set_auto_mask(False)
        mon.check(np.array_equal(d['x'][:], xs) and
                  np.array_equal(d['y'][:], ys) and d['x'].units == 'm' and
                  d['y'].ncattrs() == [],
                  'nc_create_dim made other dimensions')
        mon.check(set(d.variables) == set(want) | {'x', 'y'},
                  'variables %s', set(d.variables))
        for n, (t, data, atts, kw) in want.items():
            w = d[n]
            fill = -5 if kw else netCDF4.default_fillvals[np.dtype(t).str[1:]]
            a = np.broadcast_to(fill if data is None else
                                np.array(data, t), (ny, nx)).astype(t)
            mon.check(w.dimensions == ('y', 'x') and
                      w.dtype == np.dtype(t) and np.array_equal(w[:], a),
                      'nc_create_var(%s, data=%r, %s): %s %s %s', t, data, kw,
                      w.dimensions, w.dtype, w[:].tolist())
            have = {k: w.getncattr(k) for k in w.ncattrs()
                    if k != '_FillValue'}
            mon.check(have == (atts or {}), 'attributes %s, asked for %s',
                      have, atts)
            mon.count('created')
            mon.count('values', a.size)


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    fn = {'multiplier': multiplier, 'grid': grid, 'options': options}[
        spec['kind']]
    for k in range(6 if spec['kind'] == 'multiplier' else 21):
        fn(r, mon, k)
