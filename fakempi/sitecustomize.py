"""A slow file system, from the start of the program: processes that do the
same thing find each other there.  Each one waits a little for the others at
its n-th folder operation, then goes on after a random time."""

import os
import random
import shutil
import time


def _slow(name, fn, first, seconds, rng):
    calls = []
    box = os.environ['WMV_MPI_SOCK'] + '.sync'
    rank, size = (int(os.environ['WMV_MPI_' + x]) for x in ('RANK', 'SIZE'))

    def slow(*a, **k):
        n = len(calls)
        calls.append(n)
        try:
            open('%s/%s.%d.%d' % (box, name, n, rank), 'w').close()
            end = time.time() + (seconds if n else first)
            while time.time() < end and not all(
                    os.path.exists('%s/%s.%d.%d' % (box, name, n, r))
                    for r in range(size)):
                time.sleep(.005)
        except OSError:
            pass
        time.sleep(rng.random() * seconds / 2)
        return fn(*a, **k)
    return slow


if 'WMV_MPI_SOCK' in os.environ and float(os.environ.get('WMV_SLOW_FILES',
                                                         0)):
    for _o, _n, _f in ((shutil, 'rmtree', 1), (os, 'makedirs', 4)):
        setattr(_o, _n, _slow(_n, getattr(_o, _n), _f,
                              float(os.environ['WMV_SLOW_FILES']),
                              random.Random(os.environ['WMV_MPI_SEED'] +
                                            os.environ['WMV_MPI_RANK'])))
