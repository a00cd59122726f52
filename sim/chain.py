"""Drives the real Markov-chain classes: decides every acceptance draw and log-likelihood, records every state."""
import contextlib
import copy
import math
import random

from sim import core, refchain as R, seams

NEG = -math.inf


def setup():
    seams.install_clock()
    seams.install_rng()
    global np, M, gc, LnPDF
    import gc
    import logging
    import numpy as np
    import MTfit  # noqa: F401
    logging.disable(logging.CRITICAL)
    from MTfit.algorithms import markov_chain_monte_carlo as M
    from MTfit.probability import LnPDF
    gc.collect = lambda *a: 0       # called on every iteration by the code under test; only costs time here


def val(v):
    return float(np.asarray(v, dtype=float).reshape(-1)[0])


def five(x):
    return {k: val(x[k]) for k in R.KEYS}


CLASSES = {'mh': 'IterativeMetropolisHastingsGaussianTape', 'transd': 'IterativeTransDMetropolisHastingsGaussianTape',
           'multi': 'IterativeMultipleTryMetropolisHastingsGaussianTape',
           'multitransd': 'IterativeMultipleTryTransDMetropolisHastingsGaussianTape'}


def gen_config(rng, events=(1, 1, 1, 2, 3)):
    cls = rng.choice(['mh', 'transd', 'multi', 'multitransd'])
    transd = cls in ('transd', 'multitransd')
    cfg = {'cls': cls, 'events': rng.choice(events), 'dc': 0 if transd else int(rng.random() < 0.35),
           'prior': rng.choice(['uniform_prior', 'uniform_prior', 'flat_prior']),
           'ext': rng.choice(['c', 'c', 'py']), 'creator': int(rng.random() < 0.3),
           'min_rate': rng.choice([0.05, 0.2, 0.3, 0.5]), 'window': rng.choice([3, 10, 100, 1000])}
    cfg['max_rate'] = min(0.9, cfg['min_rate'] + rng.choice([0.05, 0.2, 0.4]))
    if transd:
        cfg.update(jump=rng.choice([0.01, 0.2, 0.5, 0.9]), dc_prior=rng.choice([0.5, 0.5, 0.1, 0.001, 0.97]),
                   sg=rng.choice([0.02, 0.1, 0.2, 0.5]), sd=rng.choice([0.02, 0.1, 0.2, 0.8, 1.5]),
                   gauss=int(rng.random() < 0.85))
    if cls.startswith('multi'):
        cfg['tries'] = rng.choice([1, 2, 3, 10, 30])
    return cfg


def refcfg(cfg):
    """The parts of the configuration the reference needs, with defaults for values the minimiser zeroed."""
    return {'transd': cfg['cls'] in ('transd', 'multitransd'), 'dc': bool(cfg['dc']), 'prior': cfg['prior'],
            'dc_prior': cfg.get('dc_prior') or 0.5, 'sg': cfg.get('sg') or 0.2, 'sd': cfg.get('sd') or 0.2,
            'gauss': bool(cfg.get('gauss', 1)), 'events': min(3, max(1, int(cfg['events'])))}


def build(cfg, **extra):
    r = refcfg(cfg)
    kw = {'number_events': r['events'], 'dc': r['dc'], 'sampling_prior': cfg['prior'],
          'learning_length': 10 ** 9, 'chain_length': 10 ** 9,
          'acceptance_rate_window': max(1, int(cfg.get('window', 100))),
          'min_acceptance_rate': cfg.get('min_rate') or 0.3, 'max_acceptance_rate': cfg.get('max_rate') or 0.5}
    if r['transd']:
        kw.update(dimension_jump_prob=cfg.get('jump', 0.2), dc_prior=r['dc_prior'], dc_sigma_g=r['sg'], dc_sigma_d=r['sd'],
                  gaussian_jump_params=r['gauss'])
    kw.update(extra)
    multi = cfg['cls'].startswith('multi')
    if multi:
        kw['number_samples'] = max(1, int(cfg.get('tries', 10)))
    if cfg.get('creator'):
        kw.setdefault('initial_sample', 'random')
        if not multi:
            kw['number_samples'] = 0
        alg = M.McMCAlgorithmCreator(mode='metropolis_hastings', trans_dimensional=r['transd'], **kw)
    else:
        alg = getattr(M, CLASSES[cfg['cls']])(**kw)
    return alg


class AcceptSource(object):
    """np.random.rand during the acceptance phase of iterate(): a constant chosen by the scheduler."""

    def __init__(self):
        self.u = None
        self.accepting = False
        self.served = 0

    def rand(self, *shape):
        if not self.accepting:
            return seams._real['rand'](*shape)
        n = int(np.prod(shape)) if shape else 1
        self.served += n
        vals = np.array([self.u() if callable(self.u) else self.u for _ in range(n)], dtype=float)
        return float(vals[0]) if not shape else vals.reshape(shape)

    @contextlib.contextmanager
    def installed(self):
        names = ('rand', 'random', 'random_sample', 'uniform')
        saved = [getattr(np.random, n) for n in names]
        real_uniform = saved[3]

        def sample(size=None):
            if size is None:
                return self.rand()
            return self.rand(*((size,) if np.isscalar(size) else tuple(size)))
        np.random.rand = self.rand
        np.random.random = np.random.random_sample = sample

        def uniform(low=0.0, high=1.0, size=None):
            if not self.accepting:
                return real_uniform(low, high, size)
            return low + (high - low) * sample(size)
        np.random.uniform = uniform
        try:
            yield self
        finally:
            for n, f in zip(names, saved):
                setattr(np.random, n, f)


class Driver(object):
    def __init__(self, cfg, ctx, source, **extra):
        self.cfg, self.ctx, self.source = cfg, ctx, source
        self.ref = refcfg(cfg)
        self.E = self.ref['events']
        self.alg = build(cfg, **extra)
        real_new = self.alg.new_sample

        def new_sample(*a, **k):
            source.accepting = False
            return real_new(*a, **k)
        self.alg.new_sample = new_sample

    # ---- observation
    def state(self, xi=None):
        xi = self.alg.xi if xi is None else xi
        return [five(x) for x in xi] if self.E > 1 else [five(xi)]

    def tries(self):
        """Proposals of the current batch: a list (tries) of lists (events) of parameter dictionaries."""
        x = self.alg.xi_1
        if self.E == 1:
            return [[five(t)] for t in x] if isinstance(x, list) else [[five(x)]]
        if isinstance(x[0], list):
            n = len(x[0])
            return [[five(x[e][t]) for e in range(self.E)] for t in range(n)]
        return [[five(e) for e in x]]

    def alphas(self):
        a = self.alg.alpha
        return [{k: float(v) for k, v in d.items()} for d in (a if isinstance(a, list) else [a])]

    def how(self):
        """Which density a jump up is really drawn from."""
        if self.ref['gauss']:
            return 'gauss'
        return 'flat-c' if self.cfg['ext'] == 'c' and self.cfg['cls'].startswith('multi') else 'flat-py'

    # ---- control
    def set_widths(self, scales):
        """Widths in (0, max] for every event."""
        mx = self.alg.max_alpha
        out = []
        for a, s in zip(self.alg.alpha if self.E > 1 else [self.alg.alpha], scales):
            d = dict(a)
            for k in R.KEYS:
                d[k] = mx[k] * min(1.0, max(1e-4, s[k]))
            out.append(d)
        self.alg.alpha = out if self.E > 1 else out[0]

    def teleport(self, xs, lnl):
        self.alg.xi = [dict(x) for x in xs] if self.E > 1 else dict(xs[0])
        self.alg.ln_likelihood_xi = lnl
        if self.ref['transd']:
            dcs = [R.is_dc(x) for x in xs]
            self.alg.dc = dcs if self.E > 1 else dcs[0]

    def replace_try(self, t, e, new):
        """Overwrite the source parameters of one proposal in place (a shift the generator could have drawn)."""
        x = self.alg.xi_1
        if self.E == 1:
            x = x[t] if isinstance(x, list) else x
        else:
            x = x[e][t] if isinstance(x[0], list) else x[e]
        x.update(new)

    def expect(self, xis, alphas, tries, lnls, Li, u, how):
        """Index of the first accepted try (None: none), number of draws that had to be made, or ambiguous."""
        need = 0
        for t, xs in enumerate(tries):
            if lnls[t] == NEG:
                continue
            a = R.ln_accept(xs, xis, alphas, lnls[t], Li, self.ref, how)
            if a is None:
                return 'ambiguous', need
            lu = R.ln(u)
            tol = 3.0 if R.soft(xs, xis, self.ref) else 5e-7
            if a == NEG:
                need += u > 0       # zero acceptance: not even a draw of exactly 0 accepts it
                continue
            if (lu != NEG and abs(a - lu) < tol) or (lu == NEG and a < (-400 if tol < 1 else -60)):
                return 'ambiguous', need
            if a < 0:
                need += 1
            if lu < a:
                return t, need
        return None, need

    def step(self, lnls, u, accepting=True):
        """Feed one batch of log-likelihoods to the chain; returns (task, end)."""
        arr = np.array(lnls, dtype=float).reshape(1, len(lnls))
        self.source.u, self.source.accepting, self.source.served = u, accepting, 0
        try:
            out = self.alg.iterate({'ln_pdf': LnPDF(arr), 'moment_tensors': None, 'n': len(lnls)})
        finally:
            self.source.accepting = False
        self.ctx.steps += 1
        return out


def random_state(rng, kind, ref):
    """kind: 'mid', 'edge' (on or next to a bound) or 'dc'."""
    x = {'gamma': rng.uniform(-R.G, R.G), 'delta': math.asin(rng.uniform(-0.999, 0.999)), 'kappa': rng.uniform(0, 2 * R.PI),
         'h': rng.random(), 'sigma': rng.uniform(-R.S, R.S)}
    if kind == 'edge':
        for k, (lo, hi) in R.BOUNDS.items():
            c = rng.random()
            w = rng.choice([0.0, 1e-12, 1e-6, 1e-3, 1e-2])
            if c < 0.3:
                x[k] = lo + w * (hi - lo)
            elif c < 0.6:
                x[k] = hi - w * (hi - lo)
        if rng.random() < 0.4:
            x['kappa'] = rng.choice([0.0, 1e-300, 1e-15, math.nextafter(2 * R.PI, 0), 2 * R.PI - 1e-9])
        # no double-couple, although one of its two source-type parameters is that of one
        c = rng.random()
        if c < 0.15:
            x['gamma'] = 0.0
        elif c < 0.25:
            x['delta'] = 0.0
    if kind == 'dc' or ref['dc']:
        x['gamma'] = x['delta'] = 0.0
    return x


def nearby(rng, x, alpha, dc):
    """A state within 10 widths of x in every coordinate, often far out or on a bound."""
    y = dict(x)
    for k in (('h', 'sigma') if dc else ('gamma', 'delta', 'h', 'sigma')):
        lo, hi = R.BOUNDS[k]
        z = rng.choice([rng.gauss(0, 1), rng.uniform(-8, 8), rng.choice([-1, 1]) * rng.uniform(0, 1e-3)])
        v = x[k] + z * alpha[k]
        if rng.random() < 0.15:
            b = rng.choice([lo, hi])
            if abs(b - x[k]) < 10 * alpha[k]:
                v = b
        y[k] = min(hi, max(lo, v))
    y['kappa'] = R.wrap(x['kappa'] + rng.gauss(0, 1) * alpha['kappa'])
    return y


def rng_of(*parts):
    return random.Random(core.derive(*parts))


__all__ = ['Driver', 'AcceptSource', 'setup', 'build', 'gen_config', 'refcfg', 'random_state', 'nearby', 'rng_of', 'copy']
