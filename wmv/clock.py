"""A wall clock that a check can set, for itself and what it forks.

The library is built and preloaded when the check starts (see main.py); the
real clock of the machine is never touched. Without a compiler the checks run
at the present time only.
"""

import contextlib
import ctypes
import os
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def build(folder):
    """Path of the library, or None."""
    so = os.path.join(folder, 'clock.so')
    try:
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so,
                        os.path.join(HERE, 'clock.c'), '-ldl'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       timeout=60)
        subprocess.run(['/bin/true'], check=True, timeout=20,
                       env=dict(os.environ, LD_PRELOAD=so))
    except (OSError, subprocess.SubprocessError):
        return None
    return so


def shift(seconds):
    """Set the clock of this process that much ahead of the real one."""
    if 'WMV_CLOCK' not in os.environ:
        return False
    ctypes.CDLL(None).wmv_clock(ctypes.c_long(int(seconds)))
    return True


@contextlib.contextmanager
def shifted(seconds):
    try:
        yield shift(seconds)
    finally:
        shift(0)


def moment(r):
    """Seconds from now to a moment at which dates are easily got wrong."""
    now = time.time()
    u = r.random()
    if u < .25:
        return 0
    year = int(r.integers(2001, 2037))
    month, day = (int(r.integers(1, 13)), int(r.integers(1, 29))) \
        if u < .6 else [(12, 29), (12, 31), (1, 1), (1, 2), (1, 3), (2, 28)][
            int(r.integers(0, 6))]
    hour = int(r.choice([0, 3, 9, 11, 12, 13, 18, 23]))
    t = time.mktime((year, month, day, hour, int(r.integers(0, 60)),
                     int(r.integers(0, 60)), 0, 0, 0))
    return int(t - now)
