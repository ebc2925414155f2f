"""Geodesic distances, azimuths and points."""

import math

import numpy as np

from wmv import gen, tilecalc
from wmv.geod import Geodesic, turn

RULE = '''Random and special pairs of points (centimetres to 170 degrees
apart, along meridians, parallels, the equator, over the pole and the date
line) on six ellipsoids through the inverse, the direct and the great
circle computation, against GeographicLib. Non-trivial: the case contains
long and short lines.'''
ASSUMPTIONS = ['lines of at most 170 degrees (Vincenty does not converge '
               'towards antipodes)', 'tolerance of distances 5 mm and 4e-9 '
               'of the length (the code iterates to 1e-9), sideways and of '
               'end points 1 mm and 3e-10']
MIN_COUNTS = {'inverse': 5000, 'direct': 3000, 'paths': 100, 'same': 100,
              'equator': 100, 'special': 500, 'nowhere': 700, 'circled': 100,
              'standing': 30, 'antipodal': 30}
MIN_NONTRIVIAL = 4
preload = tilecalc.preload
ELL = [(6378137.0, 1 / 298.257223563), (6378137.0, 1 / 298.257222101),
       (6377397.155, 1 / 299.1528128), (6378137.0, None), (6371009.0, 0.),
       (6371000.0, 1 / 3000.)]


def cases(rng, tier):
    n = 16 if tier == 'quick' else 800
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'n': 700,
               'ell': i % len(ELL)}


def pair(r):
    u = r.random()
    lat1, lon1 = float(r.uniform(-89, 89)), float(r.uniform(-180, 180))
    if u < .1:
        lat1 = 0.
    if u < .04:
        return lat1, lon1, 0., lon1 + float(r.uniform(-170, 170)), 'equator'
    if u < .08:
        return lat1, lon1, float(r.uniform(-89, 89)), lon1, 'meridian'
    if u < .12:
        return lat1, lon1, lat1, lon1 + float(r.uniform(-90, 90)), 'parallel'
    if u < .15:
        lat1 = float(r.choice([-1, 1])) * float(r.uniform(60, 89))
        return lat1, lon1, math.copysign(float(r.uniform(60, 89)), lat1), \
            lon1 + 180., 'pole'
    if u < .5:
        s = float(np.exp(r.uniform(np.log(1e-6), np.log(2))))
        t = r.uniform(0, 2 * np.pi)
        return lat1, lon1, float(np.clip(lat1 + s * np.sin(t), -89.9, 89.9)),\
            lon1 + s * float(np.cos(t)), 'short'
    if u < .6:
        lon = [0., 90., 180., -180., 179.9, -179.9, 360., 135.5]
        lat = [-90., -45., 0., 30., 90., 89.9999]
        p = [float(r.choice(v)) for v in (lat, lon, lat, lon)]
        return tuple(p) + ('special',)
    if u < .63:
        return lat1, lon1, lat1 + float(r.uniform(-5e-7, 5e-7)), \
            lon1 + float(r.uniform(-5e-7, 5e-7)), 'same'
    return lat1, lon1, float(r.uniform(-89, 89)), \
        float(r.uniform(-180, 180)), 'any'


def close(lat1, lat2, lon1, lon2, a):
    """Distance on a sphere of two near points given in radians."""
    return a * math.hypot(lat1 - lat2, turn(lon1, lon2) * math.cos(lat1))


def run_case(spec, mon):
    from utilities import vincenty
    r = gen.nprng(spec['seed'])
    a, f = ELL[spec['ell']]
    if f is None:
        from utilities.get_pixel_size_grid import Earth
        a, f = Earth.A, Earth.F
        mon.check(abs(1 / f - 298.257223563) < 1e-6 and a == 6378137.,
                  'the earth has radius %r and flattening 1/%r', a, 1 / f)
    geo = Geodesic(a, f)
    rad, deg = math.radians, math.degrees
    for k in range(spec['n']):
        lat1, lon1, lat2, lon2, kind = pair(r)
        s, z1, z2 = geo.inverse(lat1, lon1, lat2, lon2)
        if s > a * rad(170):
            continue
        what = 'line from %r, %r to %r, %r (f = %r)' % (lat1, lon1, lat2,
                                                        lon2, f)
        # also with longitudes that differ the long way
        if abs(lon2 - lon1) > 180 and k % 3:
            lon2 += math.copysign(360, lon1 - lon2)
        if k % 10 == 0:
            lon2 += float(r.choice([-360, 360]))
            mon.count('circled')
        p = rad(lat1), rad(lon1), rad(lat2), rad(lon2)
        g = mon.code(vincenty.vinc_dist, f, a, *p)
        mon.count('inverse')
        if kind in ('equator', 'same', 'special'):
            mon.count(kind)
        if abs(p[2] - p[0]) < 1e-8 and turn(p[3], p[1]) < 1e-8:
            mon.check(abs(g[0]) < .1, what + ': distance %r', g[0])
            continue
        mon.check(abs(g[0] - s) < 5e-3 + 4e-9 * s, what + ': distance %r m, expected %r',
                  g[0], s)
        # an azimuth is as good as a millimetre at the other end
        tol = 2e-11 + (1e-3 + 3e-10 * s) / max(1e-9, a * math.sin(min(
            s / a, math.pi - s / a)))
        if tol < .1 and abs(lat1) < 90 and abs(lat2) < 90:
            mon.check(turn(g[1], rad(z1)) < tol, what + ': azimuth %r, '
                      'expected %r', deg(g[1]), z1 % 360)
            mon.check(turn(g[2], rad(z2 + 180)) < tol, what + ': reverse '
                      'azimuth %r, expected %r', deg(g[2]), (z2 + 180) % 360)
        mon.check(all(-1e-12 <= v <= 2 * math.pi + 1e-12 for v in g[1:]),
                  what + ': azimuths %s', g[1:])
        mon.state(kind, int(math.log10(max(s, .01))))
        if k % 2:
            azi = float(r.uniform(-360, 360) if r.random() < .3 else
                        r.uniform(0, 360))
            azi = float(r.choice([azi, azi, azi, 0., 90., 180., 270.]))
            dist = float(np.exp(r.uniform(np.log(.01), np.log(1.8e7))))
            if k % 7 == 0:
                dist = 0.
                mon.count('nowhere')
            w = geo.direct(lat1, lon1, azi, dist)
            h = mon.code(vincenty.vinc_pt, f, a, p[0], p[1], rad(azi), dist)
            mon.count('direct')
            what = '%r m from %r, %r towards %r (f = %r)' % (
                dist, lat1, lon1, azi, f)
            mon.check(close(rad(w[0]), h[0], rad(w[1]), h[1], a) <
                      1e-3 + 3e-10 * dist,
                      what + ': arrives at %r, %r, expected %r, %r',
                      deg(h[0]), deg(h[1]), w[0], w[1])
            tol = 2e-10 + 5e-3 / max(1e-3, a * math.cos(h[0]))
            mon.check(tol > .1 or turn(h[2], rad(w[2] + 180)) < tol, what + ': reverse '
                      'azimuth %r, expected %r', deg(h[2]),
                      (w[2] + 180) % 360)
        if k % 20 == 5:
            lon2 = lon1 + float(r.choice([0, 0, 360]))
            path(mon, vincenty, geo, a, f, lat1, lon1, lat1, lon2, 0.,
                 int(r.integers(2, 12)))
            mon.count('standing')
        if f == 0 and k % 20 == 3:
            antipodal(mon, vincenty, a, r)
        if k % 20 == 0 and 1e3 < s < a * rad(150):
            path(mon, vincenty, geo, a, f, lat1, lon1, lat2, lon2, s,
                 int(r.integers(2, 12)))
    mon.nontrivial = True


def antipodal(mon, vincenty, a, r):
    """Opposite points of a sphere: half way around, by no certain way."""
    lat, lon = float(r.choice([0, 30, 45, 90])), float(r.choice([0, 10, 90]))
    gc = mon.code(vincenty.GreatCircle, a, a, lon, lat, lon - 180., -lat)
    mon.check(abs(gc.distance - math.pi * a) < .1, 'antipodes %r, %r are %r '
              'apart', lat, lon, gc.distance)
    mon.check(mon.code(gc.points, 2) == ([lon, lon - 180.], [lat, -lat]) or
              lat != 0, 'end points of the line between antipodes')
    try:
        p = gc.points(int(r.integers(3, 9)))
    except ValueError:
        mon.count('antipodal')
    else:
        mon.fail('points between antipodes %r, %r: %s' % (lat, lon, p))


def path(mon, vincenty, geo, a, f, lat1, lon1, lat2, lon2, s, n):
    gc = mon.code(vincenty.GreatCircle, a, a * (1 - f), lon1, lat1, lon2,
                  lat2)
    what = 'great circle from %r, %r to %r, %r (f = %r)' % (
        lat1, lon1, lat2, lon2, f)
    mon.count('paths')
    mon.check(abs(gc.distance - s) < 5e-3 + 4e-9 * s, what + ': distance %r, expected '
              '%r', gc.distance, s)
    lons, lats = mon.code(gc.points, n)
    mon.check(len(lons) == n and len(lats) == n, what + ': %d points of %d',
              len(lons), n)
    prev = geo.inverse(lat1, lon1, lat2, lon2)
    for i in range(n):
        q = geo.direct(lat1, lon1, prev[1], s * i / (n - 1.))
        d = close(math.radians(q[0]), math.radians(lats[i]),
                  math.radians(q[1]), math.radians(lons[i]), a)
        mon.check(d < (.03 if f else 1e-3), what + ': point %d of %d is %r, %r, expected %r, '
                  '%r', i, n, lats[i], lons[i], q[0], q[1])
    try:
        gc.points(1)
    except ValueError:
        pass
    else:
        mon.fail(what + ': 1 point is accepted')
