"""The simulated world around the real brainstorm code.

* device seam: every operation of NumpyHandler goes through Device.call, which
  counts it, advances the simulated clock, may fail it, may hand control to
  another simulated thread or deliver a signal, and decides what freshly
  allocated memory contains
* clock seam: brainstorm.utils.datetime
* randomness: global_rnd, default_handler.rnd and numpy's global state are
  reset to fixed seeds before every run
"""
import datetime as _dt
import functools
import inspect
import signal

import numpy as np


class Budget(BaseException):
    """The run exceeded its bound on simulated steps (no progress)."""


class DeviceError(RuntimeError):
    """An injected failure of a device operation."""


class OutOfMemory(MemoryError):
    """An injected allocation failure."""


INJECTED = (DeviceError, OutOfMemory)
ALLOC = ('allocate', 'zeros', 'ones', 'create_from_numpy')
DEFAULT_BUDGET = 1500000


class Device(object):
    def __init__(self):
        self.total_ops = 0
        self.clear()

    def clear(self):
        self.n = 0
        self.budget = DEFAULT_BUDGET
        self.faults = {}          # op index -> True
        self.fail_from = None     # persistent failure [from, until)
        self.fail_until = None
        self.only = None          # restrict persistent faults to 'alloc'/'op'
        self.poison = None
        self.prng = None
        self.hook = None
        self.trace = None
        self.fired = []
        self.depth = 0

    def call(self, name, orig, handler, a, k):
        n = self.n
        self.n = n + 1
        self.total_ops += 1
        CLOCK.now += CLOCK.tick
        if n > self.budget:
            raise Budget(self.budget)
        if self.trace is not None:
            self.trace.append(name)
        if self.hook is not None:
            self.hook(n, name)
        if self.faults or self.fail_from is not None:
            hit = n in self.faults
            if self.fail_from is not None and \
                    self.fail_from <= n < self.fail_until:
                hit = True
            if hit and self.only:
                hit = (name in ALLOC) == (self.only == 'alloc')
            if hit:
                self.fired.append((n, name))
                if name in ALLOC:
                    raise OutOfMemory('injected: %s at op %d' % (name, n))
                raise DeviceError('injected: %s at op %d' % (name, n))
        r = orig(handler, *a, **k)
        if name == 'allocate' and self.poison is not None and \
                isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            if self.poison == 'nan':
                r.fill(np.nan)
            elif self.poison == 'inf':
                r.fill(np.inf)
            elif self.poison == 'garbage':
                r[...] = self.prng.standard_normal(r.shape) * 1e3
        return r


class Clock(object):
    def __init__(self):
        self.reset()
        self.total = 0.

    def reset(self):
        self.now = 1.0e9
        self.start = self.now
        self.tick = 1e-3
        self.jumps = None


class SimDatetime(_dt.datetime):
    @classmethod
    def utcnow(cls):
        if CLOCK.jumps is not None:
            CLOCK.now += CLOCK.jumps.choice([0, 0, 1e-6, 1., -5., 3600.,
                                             -86400., 3e8])
        return _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=CLOCK.now)

    @classmethod
    def now(cls, tz=None):
        return cls.utcnow()


CLOCK = Clock()
DEV = Device()
_last = {'simtime': 0., 'ops': 0}


def _wrap(name, orig):
    @functools.wraps(orig)
    def op(self, *a, **k):
        return DEV.call(name, orig, self, a, k)
    op.__sim__ = True
    return op


def install():
    import brainstorm
    import brainstorm.all  # noqa
    from brainstorm.handlers import NumpyHandler, default_handler
    from brainstorm.handlers.base_handler import Handler
    for name, f in list(vars(NumpyHandler).items()):
        if name.startswith('_') or not inspect.isfunction(f):
            continue
        setattr(NumpyHandler, name, _wrap(name, f))
    Handler.__init__(default_handler)
    import brainstorm.utils
    if hasattr(brainstorm.utils, 'datetime'):
        brainstorm.utils.datetime = SimDatetime
    reset()


def reset():
    _last['simtime'] = max(0., CLOCK.now - CLOCK.start) \
        if CLOCK.jumps is None else DEV.total_ops * 1e-3
    _last['ops'] = DEV.total_ops
    DEV.clear()
    DEV.total_ops = 0
    CLOCK.reset()
    from brainstorm.randomness import global_rnd
    from brainstorm.handlers import default_handler
    global_rnd.set_seed(4242)
    default_handler.rnd.set_seed(2424)
    np.random.seed(99)
    signal.signal(signal.SIGQUIT, signal.SIG_DFL)


def last_simtime():
    return _last['simtime']


def last_ops():
    return _last['ops']


def seed_all(seed):
    """Fix every source of randomness the way a user does."""
    from brainstorm.randomness import global_rnd
    from brainstorm.handlers import default_handler
    global_rnd.set_seed(seed)
    default_handler.rnd.set_seed(seed + 1)


class device(object):
    """Context manager: clean device state for one segment of a run."""

    def __init__(self, poison=None, pseed=0, hook=None, budget=None,
                 trace=False):
        self.cfg = poison, pseed, hook, budget, trace

    def __enter__(self):
        DEV.clear()
        poison, pseed, hook, budget, trace = self.cfg
        DEV.poison = poison
        DEV.prng = np.random.RandomState(pseed)
        DEV.hook = hook
        DEV.trace = [] if trace else None
        if budget:
            DEV.budget = budget
        return DEV

    def __exit__(self, *a):
        DEV.clear()
