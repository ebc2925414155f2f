"""Hill-shape multiplier along a line of elevations."""

import numpy as np

from wmv import gen, ref, tilecalc

RULE = '''Random and enumerated elevation lines (hills, ridges at both ends,
escarpments, terraces, plateaus, multi-ridge, sub-metre steps, 1 to 400
points, spacing 5 m to 2 km): each value is compared with a reference
model; all are in [1, 1.71]; adding whole metres to the line or points
beyond the reach of every hill changes nothing; lines that do not rise by
10 m over at least two cells at a slope of 0.05 are 1 everywhere. All short
lines over a small alphabet are enumerated. Non-trivial: some value above
1.'''
ASSUMPTIONS = ['cells that depend on a slope within 1e-9 of a threshold are '
               'not compared (counted as ambiguous)']
MIN_COUNTS = {'lines': 3000, 'raised_cells': 20000, 'flat_lines': 100,
              'offset_pairs': 100}
MIN_NONTRIVIAL = 20
preload = tilecalc.preload


def cases(rng, tier):
    n = 60 if tier == 'quick' else 1200
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'kind': 'random', 'n': 60}
    width = 5 if tier == 'quick' else 6
    for sp in (25., 90., 250.):
        for first in range(5):
            yield {'kind': 'all', 'len': width, 'first': first, 'ds': sp,
                   'seed': 0}


def make(r):
    n = int(r.choice([1, 2, 3, 5, 10, 20, 40, 80, 150, 400]))
    ds = float(r.choice([5, 25, 30.3, 90, 250, 1000, 2000])) * \
        float(r.choice([1., 1., 2 ** .5]))
    x = np.arange(n) * 1.
    kind = str(r.choice(['ridge', 'hills', 'walk', 'esc', 'terr', 'noise',
                         'endpeak', 'mono', 'flat', 'sub', 'edge']))
    amp = float(np.exp(r.uniform(np.log(3), np.log(
        900 if r.random() < .9 else 9000))))
    if kind == 'ridge':
        c, w1, w2 = r.uniform(-2, n + 2), r.uniform(.5, 15), r.uniform(.5, 15)
        z = amp * np.maximum(0, 1 - np.where(x < c, (c - x) / w1,
                                             (x - c) / w2))
    elif kind == 'hills':
        z = sum(amp * r.uniform(.1, 1) * np.exp(-((x - r.uniform(0, n)) /
                                                  r.uniform(1, 15)) ** 2)
                for _ in range(int(r.integers(1, 6)))) + 0 * x
    elif kind == 'walk':
        z = np.cumsum(r.normal(0, amp / 20., n)) + 200
    elif kind == 'esc':
        z = amp / (1 + np.exp(-np.clip((x - r.uniform(0, n)) * r.choice(
            [-1, 1]) / r.uniform(.3, 8), -50, 50)))
    elif kind == 'terr':
        z = np.floor(x / r.integers(1, 7)) * r.uniform(1, 40) * \
            r.choice([-1, 1])
    elif kind == 'noise':
        z = r.random(n) * amp
    elif kind == 'endpeak':
        z = amp * (x / max(1, n - 1)) ** r.uniform(.5, 6)
        if r.random() < .5:
            z = z[::-1].copy()
    elif kind == 'mono':
        z = np.sort(r.random(n) * amp)[::int(r.choice([-1, 1]))].copy()
    elif kind == 'edge':        # a slope of just 0.05
        ds = float(r.choice([20, 40, 100, 200, 1000]))
        k = int(r.integers(2, 9))
        h = int(round(.05 * k * ds))
        up = np.append(0, np.sort(r.choice(np.arange(1, h), k - 1, False)))
        z = np.concatenate([up, np.full(int(r.integers(1, 4)), h),
                            up[::-1][int(r.integers(0, 2)):]]) * 1.
    elif kind == 'flat':
        z = np.full(n, amp)
    else:
        z = np.round(r.random(n) * 12, 1)
    return z + float(r.choice([0, 0, 0, 35, -20, 700])), ds


def check_line(mon, z, ds, what=''):
    from topographic import multiplier_calc
    keep = z.copy()
    got = np.asarray(mon.code(multiplier_calc.multiplier_calc, z, ds), float)
    mon.check((keep == z).all(), 'the line was changed')
    got = got.ravel()
    mon.count('lines')
    mon.check(got.shape == z.shape, 'line of %d has %d multipliers', z.size,
              got.size)
    want, amb = ref.line_multiplier(z, ds)
    mon.check(((got >= 1) & (got <= 1.71 + 1e-12)).all(),
              'outside [1, 1.71]: %r to %r for line %s spacing %r',
              got.min(), got.max(), z.tolist()[:60], ds)
    bad = ~amb & ~(abs(got - want) < 1e-9)
    mon.count('ambiguous', amb.sum())
    mon.count('raised_cells', (got > 1).sum())
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        mon.fail('%s point %d of line %s spacing %r is %r, expected %r' % (
            what, i, [round(float(v), 2) for v in z[:80]], ds, got[i],
            want[i]))
    return got


def run_case(spec, mon):
    if spec['kind'] == 'all':
        alpha = [0, 4, 12, 40, 41]
        k = spec['len']
        import itertools
        for rest in itertools.product(alpha, repeat=k - 1):
            z = np.array((alpha[spec['first']],) + rest, float)
            check_line(mon, z, spec['ds'], 'enumerated:')
        mon.count('enumerated', len(alpha) ** (k - 1))
        mon.nontrivial = mon.counts.get('raised_cells', 0) > 0
        return
    r = gen.nprng(spec['seed'])
    for _ in range(spec['n']):
        z, ds = make(r)
        got = check_line(mon, z, ds)
        up = np.floor(z)
        if up.size and up.max() - up.min() < 10:
            mon.count('flat_lines')
            mon.check((got == 1).all(), 'a line with less than 10 m relief '
                      'has a multiplier above 1')
        if r.random() < .2 and z.size:
            o = float(r.integers(-50, 500))
            zz = np.floor(z)
            a = check_line(mon, zz, ds)
            b = check_line(mon, zz + o, ds)
            mon.count('offset_pairs')
            mon.check((abs(a - b) < 1e-9).all(),
                      'raising the whole line by %r changes it', o)
    mon.nontrivial = mon.counts.get('raised_cells', 0) > 0
