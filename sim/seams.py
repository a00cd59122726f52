"""Seams other than processes: randomness, clock, optional extensions, allocation and file I/O."""
import contextlib
import ctypes
import sys
import time as _time

import numpy as np

EXT_NAMES = ('cprobability', 'cmoment_tensor_conversion', 'cmarkov_chain_monte_carlo', 'cscatangle')
_real = {}


class Clock(object):
    """Virtual time for runs without simulated processes."""

    def __init__(self):
        self.now = 1.6e9
        self.tick = 0.0

    def time(self):
        self.now += self.tick
        return self.now

    def sleep(self, secs):
        self.now += max(0.0, secs)


CLOCK = Clock()


def install_clock():
    _time.time = CLOCK.time
    _time.sleep = CLOCK.sleep


# ---------------------------------------------------------------- randomness

def install_rng():
    """np.random.seed() without an argument asks the operating system: make it a no-op instead."""
    if 'seed' in _real:
        return
    _real['seed'] = np.random.seed
    _real['rand'], _real['randn'] = np.random.rand, np.random.randn
    _real['default_rng'], _real['RandomState'] = np.random.default_rng, np.random.RandomState

    def seed(x=None):
        if x is None:
            SEEDS['asked'] += 1
            return
        _real['seed'](x)
    np.random.seed = seed

    def default_rng(x=None):
        if x is None:
            x = int(np.random.randint(0, 2 ** 31 - 1))
        return _real['default_rng'](x)
    np.random.default_rng = default_rng

    class RandomState(_real['RandomState']):
        def __init__(self, seed=None):
            if seed is None:
                seed = int(np.random.randint(0, 2 ** 31 - 1))
            super(RandomState, self).__init__(seed)
    np.random.RandomState = RandomState


SEEDS = {'asked': 0}
_libc = ctypes.CDLL(None)


def seed_all(seed):
    """Seed every generator the code under test can reach."""
    import random
    seed = int(seed) & 0xffffffff
    (_real.get('seed') or np.random.seed)(seed)
    random.seed(seed)
    _libc.srand(ctypes.c_uint(seed))


class Scripted(object):
    """Scripted np.random.rand/randn: a list of values first, then the seeded generator.

    Values pop in call order, one per number drawn (rand() and rand(n) share the script)."""

    def __init__(self, rand=None, randn=None):
        self.rand_script = list(rand or [])
        self.randn_script = list(randn or [])
        self.log = []

    def _draw(self, kind, script, shape):
        n = int(np.prod(shape)) if shape else 1
        real = _real['rand'] if kind == 'rand' else _real['randn']
        vals = np.array([script.pop(0) if script else float(real()) for _ in range(n)])
        self.log.append((kind, shape, vals.copy()))
        return float(vals[0]) if not shape else vals.reshape(shape)

    def rand(self, *shape):
        return self._draw('rand', self.rand_script, shape)

    def randn(self, *shape):
        return self._draw('randn', self.randn_script, shape)

    def __enter__(self):
        self.saved = (np.random.rand, np.random.randn, np.random.random, np.random.random_sample, np.random.uniform,
                      np.random.normal, np.random.standard_normal)
        np.random.rand, np.random.randn = self.rand, self.randn

        def shaped(f):
            def g(size=None):
                if size is None:
                    return f()
                return f(*((size,) if np.isscalar(size) else tuple(size)))
            return g
        np.random.random = np.random.random_sample = shaped(self.rand)
        np.random.standard_normal = shaped(self.randn)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * shaped(self.rand)(size)
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * shaped(self.randn)(size)
        return self

    def __exit__(self, *a):
        (np.random.rand, np.random.randn, np.random.random, np.random.random_sample, np.random.uniform,
         np.random.normal, np.random.standard_normal) = self.saved
        return False


# ---------------------------------------------------------------- compiled extensions

def mtfit_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == 'MTfit' or n.startswith('MTfit.')) and m is not None]


def ext_modules():
    out = {}
    for n, m in list(sys.modules.items()):
        base = n.split('.')[-1]
        if n.startswith('MTfit.') and base in EXT_NAMES and getattr(m, '__file__', '').endswith('.so'):
            out[base] = m
    return out


@contextlib.contextmanager
def extensions(which, wrap=None):
    """Make compiled extensions absent (`which` is a set of names to remove), or replace them by wrap(name, module)."""
    exts = ext_modules()
    ids = {id(m): n for n, m in exts.items()}
    saved = []
    try:
        for mod in mtfit_modules():
            for k, v in list(vars(mod).items()):
                n = ids.get(id(v))
                if n is None or id(mod) in ids:
                    continue
                if k != n:
                    continue
                if n in which:
                    saved.append((mod, k, v))
                    setattr(mod, k, wrap(n, v) if wrap else None)
        yield
    finally:
        for mod, k, v in saved:
            setattr(mod, k, v)


ALL_EXT = set(EXT_NAMES)


class Failing(object):
    """An extension module whose k-th call (counted over all its functions, or those in `only`) raises."""

    def __init__(self, name, mod, state):
        self.__dict__['_n'] = name
        self.__dict__['_m'] = mod
        self.__dict__['_s'] = state

    def __getattr__(self, key):
        v = getattr(self._m, key)
        if not callable(v) or key not in self._s.get('only', (key,)):
            return v
        s, n = self._s, self._n

        def call(*a, **k):
            s['calls'] += 1
            if s['calls'] in s['fail_at'] or s.get('always'):
                s['fired'] += 1
                raise s['exc']('injected failure in %s.%s' % (n, key))
            return v(*a, **k)
        return call


# ---------------------------------------------------------------- allocation

class AllocFault(object):
    """numpy as one module sees it, with array-creating calls that may raise MemoryError."""
    NAMES = ('append', 'zeros', 'empty', 'ones', 'concatenate', 'hstack', 'vstack', 'pad', 'resize', 'zeros_like', 'empty_like',
             'column_stack', 'r_', 'c_')

    def __init__(self, fail_at, ctx):
        self.calls = 0
        self.fail_at = set(fail_at)
        self.fired = 0
        self.ctx = ctx
        self.on = False

    def proxy(self):
        fault = self

        class NP(object):
            def __getattr__(self, key):
                v = getattr(np, key)
                if key not in fault.NAMES or not callable(v):
                    return v

                def f(*a, **k):
                    if fault.on:
                        fault.calls += 1
                        if fault.calls in fault.fail_at:
                            fault.fired += 1
                            fault.ctx.fault('allocation failure')
                            raise MemoryError('injected: np.' + key)
                    return v(*a, **k)
                return f
        return NP()


@contextlib.contextmanager
def alloc_faults(mods, fault):
    p = fault.proxy()
    saved = [(m, m.np) for m in mods if hasattr(m, 'np')]
    try:
        for m, _ in saved:
            m.np = p
        yield fault
    finally:
        for m, v in saved:
            m.np = v


# ---------------------------------------------------------------- crash points

class Crash(BaseException):
    """The simulated process is gone; only what was already on disk survives."""


@contextlib.contextmanager
def patched(obj, **attrs):
    saved = {k: getattr(obj, k) for k in attrs}
    try:
        for k, v in attrs.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in saved.items():
            setattr(obj, k, v)
