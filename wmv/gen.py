"""Generators of land cover, elevation and roughness tables."""

import numpy as np


def nprng(seed):
    return np.random.default_rng(seed)


def table(r, ncat=None, urban=0.4, start=1, odd=False):
    """Random terrain table: list of (category, roughness, shielding %).
    odd: sometimes with the categories 0 and -3, or with large ones."""
    n = ncat or int(r.integers(2, 14))
    cats = r.choice(np.arange(start, start + 3 * n), n, replace=False)
    if odd and r.random() < .25:
        cats[0] = 0
        if n > 2:
            cats[1] = -3
    elif odd and r.random() < .2:
        cats = cats * 7919
    fine = r.random() < .3
    rows = []
    for c in cats:
        z0 = float(np.round(np.exp(r.uniform(np.log(0.0006), np.log(3))), 6))
        s = float(r.integers(55, 100)) if r.random() < urban else 100.0
        if fine and s < 100:
            s = float(np.round(s + r.uniform(-1, 1), 2))
        if rows and r.random() < .15:       # classes that share values
            k = int(r.integers(0, len(rows)))
            z0 = rows[k][1]
            s = rows[k][2] if r.random() < .5 else s
        rows.append((int(c), z0, s))
    return rows


NAMES = ['"class %d, x"', '"class %d, x"', 'for\xeat n\xb0 %d', '"%d"',
         '"%.0d"', 'class %d']


def write_table(path, rows, style=0):
    head = ['CATEGORY', 'DESCRIPTION', 'ROUGHNESS_LENGTH_m', 'SHIELDING']
    order = list(range(4))
    if style & 4:                       # other columns in another order
        head += ['NOTE', 'CODE']
        order = [[4, 2, 1, 3, 0, 5], [3, 5, 0, 4, 2, 1],
                 [5, 1, 4, 3, 2, 0]][len(rows) % 3]
    with open(path, 'w', encoding='utf-8',
              newline='\r\n' if len(rows) % 5 == 2 else '\n') as f:
        if style % 2:
            f.write('# a comment line\n')
        f.write(','.join(head[k] for k in order) + '\n')
        for i, (c, z, s) in enumerate(rows):
            s = int(s) if float(s).is_integer() and style % 4 < 2 else s
            row = ['%d' % c, NAMES[(i + len(rows)) % len(NAMES)] % i,
                   repr(z), str(s),
                   '"a ""note"", %d"' % i if (i + len(rows)) % 4 else '',
                   '%d' % (i + 1)]
            f.write(','.join(row[k] for k in order) + '\n')
        if style % 2:
            f.write("# 'CATEGORY' trailing comment, with, commas\n")
    return path


def landcover(r, shape, cats, kind=None, gaps=0.0, gapval=0):
    """Random map of categories with structure at several scales."""
    kind = kind or r.choice(['noise', 'blocks', 'half', 'stripes', 'islands'])
    rows, cols = shape
    cats = np.asarray(cats)
    if kind == 'noise':
        a = r.choice(cats, shape)
    elif kind == 'blocks':
        b = int(r.integers(2, 9))
        small = r.choice(cats, (rows // b + 1, cols // b + 1))
        a = np.kron(small, np.ones((b, b), int))[:rows, :cols]
    elif kind == 'half':
        a = np.full(shape, r.choice(cats))
        if r.random() < 0.5:
            a[:, int(r.integers(0, cols)):] = r.choice(cats)
        else:
            a[int(r.integers(0, rows)):, :] = r.choice(cats)
    elif kind == 'stripes':
        p = int(r.integers(1, 7))
        i, j = np.indices(shape)
        q = r.integers(-2, 3, 2)
        a = cats[((q[0] * i + q[1] * j) // p) % len(cats)]
    else:
        a = np.full(shape, cats[0])
        for _ in range(int(r.integers(1, 12))):
            i, j = int(r.integers(0, rows)), int(r.integers(0, cols))
            h, w = r.integers(1, 8, 2)
            a[i:i + h, j:j + w] = r.choice(cats)
    a = a.copy()
    if gaps and r.random() < 0.7:
        m = r.random(shape) < gaps
        if r.random() < 0.5:
            m[:] = False
            i, j = int(r.integers(0, rows)), int(r.integers(0, cols))
            m[i:i + rows // 3, j:j + cols // 3] = True
        a[m] = gapval
    return a


def big(r):
    """Rows and columns of a tile that no small index type can count."""
    return [(300, 260), (190, 180), (20, 700), (700, 20)][
        int(r.integers(0, 4))]


def elevation(r, shape, cell, kind=None, amp=None):
    """Terrain with hills, ridges, cliffs, terraces, plains. cell in m."""
    kind = kind or r.choice(['hills', 'ridge', 'cliff', 'noise', 'flat',
                             'plane', 'terrace', 'mixed', 'sea', 'pits'])
    rows, cols = shape
    i, j = np.indices(shape).astype(float)
    amp = amp if amp is not None else float(np.exp(r.uniform(np.log(5),
                                                             np.log(600))))
    th = r.uniform(0, 2 * np.pi)
    u = (i - rows * r.random()) * np.cos(th) + \
        (j - cols * r.random()) * np.sin(th)

    def hills():
        z = np.zeros(shape)
        for _ in range(int(r.integers(1, 7))):
            a, b = r.uniform(1.5, max(2.0, max(rows, cols) / 3.), 2)
            ci, cj = r.uniform(-3, rows + 3), r.uniform(-3, cols + 3)
            z += r.uniform(-0.3, 1) * np.exp(
                -((i - ci) / a) ** 2 - ((j - cj) / b) ** 2)
        return z * amp
    if kind == 'hills':
        z = hills()
    elif kind == 'ridge':
        w = r.uniform(1, 12)
        z = amp * np.maximum(0, 1 - abs(u) / w)
    elif kind == 'cliff':
        w = r.uniform(0.5, 10)
        z = amp / (1 + np.exp(-np.clip(u / w, -50, 50)))
    elif kind == 'noise':
        z = r.random(shape) * amp
    elif kind == 'flat':
        z = np.full(shape, float(np.round(amp)))
    elif kind == 'plane':
        z = u * amp / 40. + 50
    elif kind == 'terrace':
        z = np.floor(u / r.uniform(2, 8)) * amp / 8.
    elif kind == 'sea':
        z = np.maximum(0, hills() - amp * 0.15)
    elif kind == 'pits':
        z = amp - abs(hills())
    else:
        z = hills() + r.random(shape) * amp * 0.05 + np.maximum(0, u)
    if r.random() < 0.25:
        z = np.round(z)
    if r.random() < 0.2:
        z = z + r.choice([-30., 480., 900.])
    return z


def lonlat(r):
    """Upper left corner of a grid somewhere over Australia."""
    n = 3 if r.random() < .6 else 7     # decimals
    return (float(np.round(r.uniform(112, 153), n)),
            float(np.round(r.uniform(-43, -10), n)))
