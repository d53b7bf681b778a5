"""Bring /repo's omgtools into this interpreter with every ambient source of
nondeterminism replaced by something the simulator owns.

* display / plotting      -> the Agg canvas, no interactive mode
* wall clock (time.time)  -> VirtualClock, which only moves when told to
* numpy.random            -> seeded per run
* byte code caches        -> a private prefix, so that the sources in /repo's
                             working tree are what runs, whatever lies in
                             __pycache__
"""
import os
import sys
import tempfile

REPO = os.environ.get('OMG_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'omgsim-no-pycache')
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import warnings
warnings.filterwarnings('ignore')
import matplotlib
matplotlib.use('Agg')
matplotlib.use = lambda *a, **k: None

import io
_o = sys.stdout
sys.stdout = io.StringIO()
try:
    import omgtools
    from omgtools import *          # noqa
finally:
    sys.stdout = _o
import matplotlib.pyplot as plt
plt.ioff()
import numpy as np
import time as _time

if not os.path.abspath(omgtools.__file__).startswith(os.path.abspath(REPO)):
    raise RuntimeError('omgtools imported from %s, not from %s' % (omgtools.__file__, REPO))


class VirtualClock:
    """stands in for the `time` module inside omgtools: time() returns the
    simulated instant, which advances only through advance()."""

    def __init__(self):
        self.now = 0.0

    def time(self):
        return self.now

    def advance(self, dt):
        self.now += dt

    def sleep(self, dt):
        self.now += dt

    # anything else a module may want from `time`
    def __getattr__(self, name):
        return getattr(_time, name)

    def perf_counter(self):
        return self.now

    monotonic = process_time = perf_counter


CLOCK = VirtualClock()


def install_clock():
    """Swap the time module for CLOCK in every omgtools module that imported it."""
    CLOCK.now = 0.0
    for name, mod in list(sys.modules.items()):
        if name.startswith('omgtools') and mod is not None:
            if getattr(mod, 'time', None) is _time:
                mod.time = CLOCK
    return CLOCK


def seed_numpy(n):
    np.random.seed(n % (2**32))


class quiet:
    """swallow what the library prints (it reports progress on stdout)"""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self.buf

    def __exit__(self, *a):
        sys.stdout = self.o
