"""Geodesics of GeographicLib (Karney) as built into PROJ: an oracle that
shares nothing with Vincenty's series."""

import ctypes
import math
import os

D = ctypes.c_double
P = ctypes.POINTER(D)
_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        from osgeo import osr    # noqa: F401  (loads libproj)
        names = ['libproj.so.25', 'libproj.so']
        with open('/proc/self/maps') as f:
            names = sorted({w for w in f.read().split()
                            if 'libproj' in os.path.basename(w)}) + names
        for n in names:
            try:
                _LIB = ctypes.CDLL(n)
                _LIB.geod_init.argtypes = [ctypes.c_void_p, D, D]
                break
            except (OSError, AttributeError):
                _LIB = None
        for f in ('geod_direct', 'geod_inverse'):
            getattr(_LIB, f).argtypes = [ctypes.c_void_p] + [D] * 4 + [P] * 3
            getattr(_LIB, f).restype = None
    return _LIB


class Geodesic(object):
    def __init__(self, a, f):
        self.g = ctypes.create_string_buffer(8192)
        lib().geod_init(self.g, a, f)

    def inverse(self, lat1, lon1, lat2, lon2):
        """Degrees -> distance, azimuth at 1, azimuth at 2 (degrees)."""
        r = [D() for _ in range(3)]
        lib().geod_inverse(self.g, lat1, lon1, lat2, lon2, *r)
        return tuple(v.value for v in r)

    def direct(self, lat1, lon1, azi, s):
        """-> lat2, lon2, azimuth at 2."""
        r = [D() for _ in range(3)]
        lib().geod_direct(self.g, lat1, lon1, azi, s, *r)
        return tuple(v.value for v in r)


def turn(a, b):
    """Smallest angle between two directions, radians."""
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)
