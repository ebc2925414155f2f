"""Reference models, written from the documentation and the GA record
methodology, not from the code: used as oracles."""

import math

import numpy as np

from wmv.raster import DIRS, STEP

A = 6378137.0
B = 6356752.3142
E2 = 1.0 - B * B / (A * A)


def pixel_sizes(rows, cols, y0, px, py):
    """Length in metres of a pixel along x and y for each row (1-d)."""
    lat = np.radians(y0 - (np.arange(rows) + 0.5) * py)
    s2 = np.sin(lat) ** 2
    n = A / np.sqrt(1 - E2 * s2)
    m = A * (1 - E2) / (1 - E2 * s2) ** 1.5
    return n * np.cos(lat) * math.radians(px), m * math.radians(py)


def gridwidth(rows, cols, y0, px, py):
    x, y = pixel_sizes(rows, cols, y0, px, py)
    return 0.5 * (x.mean() + y.mean())


def shift(a, di, dj, fill):
    """b[i, j] = a[i + di, j + dj], or fill outside."""
    rows, cols = a.shape
    b = np.full(a.shape, fill, float)
    i0, i1 = max(0, -di), min(rows, rows - di)
    j0, j1 = max(0, -dj), min(cols, cols - dj)
    if i0 < i1 and j0 < j1:
        b[i0:i1, j0:j1] = a[i0 + di:i1 + di, j0 + dj:j1 + dj]
    return b


# ---- terrain ------------------------------------------------------------

def mz_of_roughness(z0):
    return 1.0762 - 0.2827 * math.log(0.4554 * math.log(z0) + 3.734)


def terrain_widths(gw):
    """{direction: (average cells, lag cells, margin to a rounding edge)}"""
    out = {}
    for d in DIRS:
        if len(d) == 1:
            x, y = 500. / gw, 200. / gw
            m = min(abs(x % 1 - .5), abs(y % 1 - .5))
            out[d] = (int(round(x)), int(round(y)), m)
        else:
            x, y = 500. / (gw * 1.414), 200. / (gw * 1.414)
            m = min(abs(x - round(x)), abs(y - round(y)))
            out[d] = (int(x), int(y), m)
    return out


def terrain_initial(lc, rows_table):
    mz = np.full(lc.shape, np.nan)
    for c, z0, _ in rows_table:
        mz[lc == c] = mz_of_roughness(z0)
    return mz


def terrain(lc, rows_table, gw):
    """{direction: Mz} with NaN where the land cover is unmapped, or None if
    no cell is mapped."""
    mz = terrain_initial(lc, rows_table)
    miss = np.isnan(mz)
    if miss.all():
        return None
    mz = np.where(miss, 1.0, mz)
    out = {}
    for d, (avg, lag, _) in terrain_widths(gw).items():
        di, dj = STEP[d]
        tot = np.zeros(mz.shape)
        num = np.zeros(mz.shape)
        ones = np.ones(mz.shape)
        for k in range(lag + 1, lag + avg + 1):
            if k >= max(mz.shape):
                break
            tot += shift(mz, di * k, dj * k, 0.)
            num += shift(ones, di * k, dj * k, 0.)
        v = np.where(num > 0, tot / np.maximum(num, 1), mz)
        out[d] = np.where(miss, np.nan, v)
    return out


# ---- shielding ----------------------------------------------------------

def upwind_cells(d, k):
    """Offsets (row, col) of the cells the shielding of wind d averages."""
    cells = set()
    if len(d) == 1:
        # north: a line of k cells, three cells wide from the second on
        for a in range(1, k + 1):
            for b in ((-1, 0, 1) if a >= 2 else (0,)):
                cells.add((-a, b))
        turn = {'n': 0, 'w': 1, 's': 2, 'e': 3}[d]
    else:
        # north-west: the triangle of k cells beyond the row and column
        for a in range(1, k + 1):
            for b in range(1, k + 2 - a):
                cells.add((-a, -b))
        turn = {'nw': 0, 'sw': 1, 'se': 2, 'ne': 3}[d]
    for _ in range(turn):           # quarter turns anticlockwise
        cells = {(-b, a) for a, b in cells}
    return sorted(cells)


def shield_initial(lc, rows_table):
    ms = np.ones(lc.shape)
    for c, _, s in rows_table:
        ms[lc == c] = s / 100.
    return ms


def slope_aspect(dem, y0, px, py):
    """Slope in degrees, downslope compass direction in degrees."""
    rows, cols = dem.shape
    xs, ys = pixel_sizes(rows, cols, y0, px, py)
    z = np.pad(dem.astype(float), 1, mode='edge')

    def w(di, dj):
        return z[1 + di:1 + di + rows, 1 + dj:1 + dj + cols]
    ex = (w(-1, 1) + 2 * w(0, 1) + w(1, 1) -
          w(-1, -1) - 2 * w(0, -1) - w(1, -1)) / 8.
    so = (w(1, -1) + 2 * w(1, 0) + w(1, 1) -
          w(-1, -1) - 2 * w(-1, 0) - w(-1, 1)) / 8.
    de = ex / xs[:, None]           # rise towards the east
    ds = so / ys[:, None]           # rise towards the south
    slope = np.degrees(np.arctan(np.hypot(de, ds)))
    slope[np.isnan(dem)] = np.nan
    aspect = np.degrees(np.arctan2(-de, ds)) % 360.   # faces downslope
    return slope, aspect


def facing(aspect, d):
    """Cells whose slope faces wind d, and the margin to the sector edge."""
    c = DIRS.index(d) * 45.
    off = (aspect - c + 180.) % 360. - 180.
    return abs(off) < 22.5, abs(abs(off) - 22.5)


def shielding_combine(ms, slope, aspect, d):
    """Shielding with slope and conservatism, and cells that are ambiguous
    (on the border of an aspect sector)."""
    f, margin = facing(aspect, d)
    with np.errstate(invalid='ignore'):
        t = np.clip((slope - 3.27) / (12.30 - 3.27), 0, 1)
    t = np.where(np.isnan(t) | ~f, 0., t)
    v = ms + (1.0 - ms) * t
    v = np.where(v < 0.9, v * 0.9, v * v)
    with np.errstate(invalid='ignore'):
        amb = (margin < 1e-3) & (slope > 3.27 - 1e-6)
    return v, amb


def shielding(lc, dem, rows_table, gw, y0, px, py):
    """{direction: (Ms, ambiguous)}"""
    ms = shield_initial(lc, rows_table)
    slope, aspect = slope_aspect(dem, y0, px, py)
    k = int(100. / gw)
    out = {}
    for d in DIRS:
        if k > 0:
            cells = upwind_cells(d, k)
            acc = np.zeros(ms.shape)
            for di, dj in cells:
                acc += shift(ms, di, dj, 1.0)
            m = acc / len(cells)
        else:
            m = ms.copy()
        out[d] = shielding_combine(m, slope, aspect, d)
    return out


# ---- topographic --------------------------------------------------------

class Edge(Exception):
    """The line has a slope on a threshold of the method."""


def line_multiplier(z, ds):
    """Hill-shape multiplier along a line, from upwind to downwind, before
    conservatism, and the set of cells that are ambiguous because a slope
    is within rounding of a threshold."""
    z = np.floor(np.asarray(z, float))
    n = len(z)
    m = np.ones(n)
    amb = np.zeros(n, bool)
    i = 0
    while i < n - 1:
        if not z[i + 1] > z[i]:
            i += 1
            continue
        v = i
        while i < n - 1 and z[i + 1] > z[i]:
            i += 1
        r = i                       # strictly rising from v to r
        h = z[r] - z[v]
        lu = (r - v) * ds / 2.
        slope = h / (2 * lu)
        if h < 10 or lu < ds * (1 - 1e-12) or slope < 0.05 - 1e-9:
            continue
        l1 = max(0.36 * lu, 0.4 * h)
        l2 = 4 * l1
        b = min(n - 1, 2 * r - v)
        if b > r:
            s2 = (z[r] - z[b]) / ((b - r) * ds)
            f = min(3., max(.5, 2.5 - 1.5 * s2 / slope))
        else:
            f = 1.
        x = (np.arange(n) - r) * ds           # downwind positive
        peak = h / (3.5 * (10 + l1))
        mm = np.ones(n)
        up = (x <= 0) & (-x < l2)
        mm[up] = np.minimum(1.71, 1 + peak * (1 - abs(x[up]) / l2))
        dn = (x > 0) & (x < f * l2)
        mm[dn] = np.minimum(1.71, 1 + peak * (1 - x[dn] / (f * l2)))
        if slope > 0.45 and abs(f - 1) < 0.2:
            st = (x > 0) & (x < h / 4.)
            mm[st] = 1 + 0.71 * (1 - x[st] / (f * l2))
            amb |= (x > 0) & (abs(x - h / 4.) < 1e-6 * ds)
        # just on the threshold, however it is computed
        exact = 20 * h == (r - v) * ds and h / ((r - v) * ds) == 0.05 and \
            0.05 * ((r - v) * ds) == h
        near = abs(slope - 0.05) < 1e-9 and not exact or abs(slope - 0.45) < 1e-9 or \
            abs(abs(f - 1) - 0.2) < 1e-9
        if near:
            amb |= mm > 1
            amb |= dn
        m = np.maximum(m, mm)
    return m, amb


def lines(shape, d):
    """Lines of cells from upwind to downwind that cover the grid."""
    rows, cols = shape
    di, dj = STEP[d]
    out = []
    for i in range(rows):
        for j in range(cols):
            if 0 <= i + di < rows and 0 <= j + dj < cols:
                continue            # has an upwind neighbour
            line = []
            a, b = i, j
            while 0 <= a < rows and 0 <= b < cols:
                line.append((a, b))
                a -= di
                b -= dj
            out.append(line)
    return out


def topo_raw(dem, d, cell):
    m = np.ones(dem.shape)
    amb = np.zeros(dem.shape, bool)
    z = np.where(np.isnan(dem), 0., dem)
    ds = cell * (math.sqrt(2) if len(d) == 2 else 1.)
    for line in lines(dem.shape, d):
        ii = [p[0] for p in line]
        jj = [p[1] for p in line]
        m[ii, jj], amb[ii, jj] = line_multiplier(z[ii, jj], ds)
    return m, amb


def remove_conservatism(m):
    return np.where(m >= 1.4, m * 0.9,
                    np.where(m > 1, m * (1.25 - 0.25 * m), m))


def smooth(a):
    z = np.pad(a, 1, mode='edge')
    rows, cols = a.shape
    return sum(z[i:i + rows, j:j + cols]
               for i in range(3) for j in range(3)) / 9.


def topographic(dem, gw, tasmania):
    """{direction: (Mt, ambiguous)}"""
    out = {}
    for d in DIRS:
        m, amb = topo_raw(dem, d, gw)
        m = remove_conservatism(m)
        if tasmania:
            with np.errstate(invalid='ignore'):
                m = np.where(dem > 500., m * (1 + 0.00015 * dem), m)
        m = smooth(m)
        m[np.isnan(dem)] = np.nan
        out[d] = (m, smooth(amb.astype(float)) > 0)
    return out
