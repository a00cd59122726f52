"""C20: an installation with the compiled extensions computes what an installation without them computes."""
import copy
import math
import os

from sim import core, events, model, mp, seams

LEVEL = 'exploration'
RUNS = {'quick': 24000, 'thorough': 240000}
CAP_S = {'quick': 130, 'thorough': 800}
RUN_WALL_S = 90
RULE = ('a case is one workload (a likelihood call, a forward or joint task, a sequence of log-domain reductions, parameter conversions, random '
        'generation, scatter binning, coefficient binning, a serial inversion or a sequence of Markov-chain acceptances) executed in two '
        'simulated installations in the same process: all extensions there, and one with extensions missing, broken at import, partly '
        'missing, or failing at chosen calls; non-trivial when at least one value was compared')
REAL = ['MTfit.probability', 'MTfit.convert', 'MTfit.inversion: ForwardTask, MultipleEventsForwardTask, Inversion (serial)',
        'MTfit.algorithms (Monte Carlo and Markov chains)', 'MTfit.extensions.scatangle', 'the four compiled extensions rebuilt from the tree']
STUB = ['availability of the extensions at import', 'compiled calls that raise', 'random seeds', 'clock', 'source samples of the inversions',
        'acceptance draws and log-likelihoods of the chains', 'result files']
STATE_MEASURE = 'hash of (workload, installation compared with, structural class of its inputs)'
ASSUMPTIONS = ['two values agree when they differ by no more than the width of the interval that rounding of the amplitudes gives',
               'where a conversion is discontinuous, the value of the other path at inputs moved by rounding is also right',
               'arrays are compared by value, not by type or by trailing dimensions', 'random generators: two-sample tests at 1e-9']
PROB = ('combined_ln_pdf', 'polarity_ln_pdf', 'polarity_probability_ln_pdf', 'amplitude_ratio_ln_pdf', 'relative_amplitude_ratio_ln_pdf', 'ln_prod',
        'ln_marginalise', 'ln_normalise', 'dkl', 'dkl_uniform', 'ln_exp')
CONV = ('MT6_TNPE', 'E_GD', 'TP_SDR', 'SDR_SDR', 'Tape_MT6', 'MT_output_convert', 'isotropic_c', 'MT6_biaxes', 'MT6c_D6', 'is_isotropic_c',
        'c21_cvoigt', 'c_norm')
HOLDERS = {'cprobability': ('MTfit.probability.probability', 'MTfit.inversion', 'MTfit.algorithms.base'),
           'cmoment_tensor_conversion': ('MTfit.convert.moment_tensor_conversion',)}
EXC = {'ValueError': ValueError, 'MemoryError': MemoryError, 'TypeError': TypeError}
RELIABLE = 1e-11


def setup(scratch):
    global np, c01, c15, c18, chain, R, SCRATCH, worlds, FULL
    from props import c01, c15, c18
    from sim import chain, worlds
    from sim import refchain as R
    c15.setup(scratch)
    import numpy
    c18.np = numpy
    chain.setup()
    import numpy as np
    import traceback
    traceback.print_exc = lambda *a, **k: None
    SCRATCH = scratch
    FULL = worlds.world()
    assert FULL.has == set(worlds.PATHS), FULL.has


# ---- plans

MODES = ['likelihood'] * 10 + ['task'] * 8 + ['joint'] * 4 + ['reduce'] * 6 + ['convert'] * 8 + ['stiffness'] * 2 + ['bin'] * 3 + ['coeff'] * 2 + \
    ['accept'] * 5 + ['inversion'] * 2 + ['random']


def gen(rng, tier, index):
    mode = rng.choice(MODES)
    alt = rng.choice(['none', 'none', 'none', 'broken', 'one', 'fail'])
    if mode in ('bin', 'coeff', 'accept', 'inversion', 'random') and alt == 'fail':
        alt = 'none'
    plan = {'mode': mode, 'alt': alt, 'missing': rng.choice(['cprobability', 'cmoment_tensor_conversion', 'cmarkov_chain_monte_carlo', 'cscatangle']),
            'seed': rng.getrandbits(32), 'exc': rng.choice(sorted(EXC)), 'always': rng.random() < 0.4,
            'fail_at': sorted(rng.sample(range(1, 9), rng.randint(1, 4)))}
    if mode in ('task', 'coeff', 'inversion'):
        plan['event'] = events.gen_event(rng, 'e0', locations=True if mode == 'coeff' else None)
    if mode == 'task':
        plan['batches'] = [{'n': rng.choice([1, 1, 2, 5, 6, 20]), 'kind': rng.choice(['random', 'near', 'near', 'dc', 'special']),
                            'dseed': rng.getrandbits(32), 'layout': rng.choice(['C', 'C', 'F', 'strided', 'matrix'])}
                           for _ in range(rng.choice([1, 1, 2, 3]))]
        plan.update(return_zero=rng.random() < 0.4, marginalise=rng.random() < 0.7, reuse=rng.random() < 0.5)
    elif mode == 'joint':
        p = c15.gen(rng, tier, 2)
        while p['mode'] != 'task':
            p = c15.gen(rng, tier, 2)
        plan['joint'] = p
    elif mode == 'inversion':
        plan.update(size=rng.choice([2, 7, 20, 60]), tasks=rng.choice([1, 2, 4]), dc=rng.random() < 0.3, normalise=rng.random() < 0.7,
                    discard=rng.choice([0, 0, 10, 10000]), convert=rng.random() < 0.8)
    elif mode == 'likelihood':
        plan.update(fn=rng.choice(['polarity', 'polarity', 'probability', 'ratio', 'ratio', 'relative']), stations=rng.choice([1, 1, 2, 3, 7]),
                    K=rng.choice([1, 1, 2, 5]), n=rng.choice([1, 1, 2, 5, 6, 20]), kind=rng.choice(['random', 'near', 'near', 'dc', 'special']),
                    layout=rng.choice(['C', 'C', 'F', 'strided', 'matrix', 'rows']), error=rng.choice(['zero', 'some', 'small', 'mid', 'mid', 'large']),
                    mispick=rng.choice(['default', 'scalar', 'one', 'each', 'each', 'edge', 'int']), again=rng.random() < 0.3,
                    angles=rng.choice(['any', 'any', 'grid']), negative=rng.random() < 0.2)
    elif mode == 'reduce':
        plan.update(K=rng.choice([1, 1, 2, 5]), n=rng.choice([1, 2, 3, 7, 50]), level=rng.choice([0, 0, -1000, 500, -1e5, 1e6]),
                    spread=rng.choice([0, 1, 1, 40, 1000, 1e5]), zero=rng.choice([0, 0, 0.3, 0.9, 1]), dV=rng.choice([1, 1, 0.5, 3.0, 1e-5, 20.0]),
                    ops=[rng.choice(['marginalise', 'normalise', 'ln_marginalise', 'ln_marginalise1', 'ln_normalise', 'dkl', 'dkl_estimate', 'exp',
                                     'nonzero', 'output']) for _ in range(rng.randint(1, 6))],
                    layout=rng.choice(['C', 'C', 'F', 'matrix', 'strided']), dtype=rng.choice(['float', 'float', 'float', 'int']))
    elif mode == 'convert':
        plan.update(fn=rng.choice(['MT6_TNPE', 'E_GD', 'TNP_SDR', 'SDR_SDR', 'Tape_MT6', 'output_convert', 'output_convert', 'MT6_Tape', 'convert_sample']),
                    n=rng.choice([1, 1, 2, 3, 5, 6, 20]), kind=rng.choice(['random', 'random', 'dc', 'special', 'degenerate', 'grid', 'isotropic']),
                    scale=rng.choice([0, 0, 0, 6, -6]), layout=rng.choice(['C', 'C', 'F', 'strided', 'matrix']))
    elif mode == 'stiffness':
        plan.update(iso=rng.choice(['iso', 'near', 'vti', 'any']), n=rng.choice([1, 1, 3]), kind=rng.choice(['random', 'random', 'dc', 'special']))
    elif mode == 'bin':
        p = c18.gen(rng, tier, index)
        f = p['files'][0]
        f['n'] = min(f['n'], 60)
        plan.update(file=f, bin=p['bin'] or 1.0, sub=p['sub'])
    elif mode == 'coeff':
        plan.update(epsilon=rng.choice([0, 1e-6, 0.01, 0.1, 0.5, 3]))
    elif mode == 'accept':
        cfg = chain.gen_config(rng)
        if rng.random() < 0.8:
            cfg['cls'] = rng.choice(['multi', 'multi', 'multitransd', 'multitransd'])
        full = chain.gen_config(rng)
        while full['cls'] not in ('multitransd',):
            full = chain.gen_config(rng)
        cfg = dict(full, **cfg)
        cfg.update(gauss=1, ext='c')
        if cfg['cls'] in ('transd', 'multitransd'):
            cfg['dc'] = 0
        plan.update(cfg=cfg, steps=[[rng.getrandbits(30), rng.choice(['mid', 'mid', 'edge', 'dc', 'go', 'go']),
                                     rng.choice(['any', 'any', 'low', 'one', 'zero'])] for _ in range(rng.choice([2, 5, 10]))])
    elif mode == 'random':
        cfg = chain.gen_config(rng, events=(1, 1, 2))
        cfg['cls'] = rng.choice(['multi', 'multitransd'])
        cfg.update(gauss=1, ext='c', jump=rng.choice([0.01, 0.2, 0.5, 0.9]), dc_prior=0.5, sg=rng.choice([0.1, 0.2, 0.5]), sd=rng.choice([0.1, 0.3, 0.8]),
                   tries=1000)
        if cfg['cls'] == 'multitransd':
            cfg['dc'] = 0
        plan.update(what=rng.choice(['mt', 'dc', 'proposal', 'proposal', 'proposal']), cfg=cfg, start=rng.choice(['mid', 'mid', 'edge', 'dc']),
                    n=2000 if tier == 'quick' else 6000)
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('values compared', 0) > 0


SHRINK_SKIP = ('dseed', 'seed', 'cfg')


# ---- two installations

class Failed(object):
    """Compiled calls of the complete installation that raise at chosen calls."""

    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.state = {'calls': 0, 'fail_at': set(plan['fail_at']), 'fired': 0, 'exc': EXC[plan['exc']], 'only': PROB + CONV, 'always': plan['always']}

    def __enter__(self):
        self.saved = []
        for ext, mods in HOLDERS.items():
            for m in mods:
                mod = FULL.modules[m]
                self.saved.append((mod, ext, getattr(mod, ext)))
                setattr(mod, ext, seams.Failing(ext, getattr(mod, ext), self.state))

    def __exit__(self, *a):
        for mod, ext, v in self.saved:
            setattr(mod, ext, v)
        if self.state['fired']:
            self.ctx.fault('compiled function raises', self.state['fired'])


def both(plan, ctx, f):
    """f(world) in the complete installation and in the other one."""
    with np.errstate(all='ignore'):
        with FULL.current():
            c = f(FULL)
        if plan['alt'] == 'fail':
            with Failed(plan, ctx), FULL.current():
                return c, f(FULL)
        w = other(plan, ctx)
        with w.current():
            return c, f(w)


def other(plan, ctx):
    if plan['alt'] == 'one':
        ctx.fault('extension %s missing' % plan['missing'])
        return worlds.world((plan['missing'],))
    if plan['alt'] == 'broken':
        ctx.fault('extensions broken at import')
        return worlds.world(worlds.PATHS, RuntimeError)
    ctx.fault('all extensions missing')
    return worlds.world(worlds.PATHS)


def flat(x):
    return np.asarray(getattr(x, '_ln_pdf', x), float).reshape(-1)


def same(ctx, what, c, p, tol=0., loose=None, rel=RELIABLE):
    """Values of the two installations, and the difference that rounding explains (loose: any difference does)."""
    c, p = flat(c), flat(p)
    ctx.check(c.shape == p.shape, 'shape', lambda: '%s: %d values with the extensions, %d without' % (what, c.size, p.size))
    with np.errstate(invalid='ignore'):
        d = np.abs(c - p)
        t = tol + rel * (1 + np.minimum(np.abs(c), np.abs(p)))
        ok = (c == p) | (np.isnan(c) & np.isnan(p)) | (d <= t)
    if loose is not None:
        ok |= loose
    ctx.evaluations += int(ok.size)
    ctx.probe('values compared', int(ok.size))
    if not ok.all():
        j = int(np.argmin(ok))
        ctx.fail('value', '%s: value %d is %r with the extensions and %r without' % (what, j, float(c[j]), float(p[j])))
    fin = np.isfinite(d) & ok
    if fin.any():
        ctx.maximum('largest difference', float(np.max(d[fin] / (1 + np.abs(c[fin])))))


def within(ctx, what, c, p, lo, hi):
    """Log-probabilities against the width of the interval of the model."""
    lo, hi = np.asarray(lo).reshape(-1), np.asarray(hi).reshape(-1)
    with np.errstate(invalid='ignore'):
        wide = (hi == np.inf) | ((lo == model.NEG) & (hi > model.NEG))
        tol = np.where(wide | (lo == hi), 0, hi - lo)
    same(ctx, what, c, p, tol, wide, 2e-11)


# ---- likelihoods

def observations(plan):
    """Inputs of one likelihood call: keyword values, coefficients and tensors."""
    r = events.pcg(plan['seed'])
    S, K, n = plan['stations'], plan['K'], plan['n']

    def coefficients(phase):
        if plan['angles'] == 'grid':
            az, toa = r.choice([0., 45., 90., 180., 270.], S * K), r.choice([0., 30., 45., 90., 180.], S * K)
        else:
            az, toa = r.uniform(0, 360, S * K), r.uniform(0, 180, S * K)
        return np.ascontiguousarray(model.coefficients(az, toa, phase).reshape(S, K, 6))
    a = coefficients('p')
    b = coefficients('sh')
    mt = events.candidates(plan['kind'], n, r, events.unit(r.standard_normal((6, 1))))
    mt2 = events.candidates(plan['kind'], n, r, mt[:, :1])
    lo, hi = {'zero': (0, 0), 'some': (0.02, 0.5), 'small': (1e-3, 0.05), 'mid': (0.05, 0.5), 'large': (0.5, 4)}[plan['error']]

    def err():
        e = r.uniform(lo, hi, S)
        if plan['error'] == 'some':
            e[r.random(S) < 0.5] = 0
        return e
    e1, e2 = err(), err()
    mis = {'default': None, 'scalar': float(r.random()), 'int': int(r.integers(0, 2)), 'one': np.array([float(r.random())] * S), 'each': r.random(S),
           'edge': r.choice([0., 0.5, 1.], S)}[plan['mispick']]
    return r, a, b, mt, mt2, e1, e2, mis


def run_likelihood(plan, ctx):
    r, a, b, mt, mt2, e1, e2, mis = observations(plan)
    S, K, n = plan['stations'], plan['K'], plan['n']
    fn = plan['fn']
    x = np.tensordot(a, mt, 1)
    rows = plan['layout'] == 'rows' and n != 6 and fn in ('polarity', 'probability')
    m = np.ascontiguousarray(mt.T) if rows else c01.layout(mt, 'C' if plan['layout'] == 'rows' or fn == 'relative' else plan['layout'])
    m2 = np.ascontiguousarray(mt2)
    if plan['layout'] == 'matrix' and fn in ('ratio', 'relative'):
        m = np.ascontiguousarray(mt)
    q = np.zeros(S) if mis is None else np.broadcast_to(np.asarray(mis, float), (S,))
    lo = hi = np.zeros((K, n))
    extra = []
    if fn == 'polarity':
        y = np.where(r.random(S) < 0.5, 1., -1.)
        args = [a * y[:, None, None], m, e1] + ([] if mis is None else [mis])
        for s in range(S):
            l, h = model.ln_polarity(x[s], y[s], e1[s], q[s])
            lo, hi = model.add(lo, l), model.add(hi, h)
        name = 'polarity_ln_pdf'
    elif fn == 'probability':
        up = r.uniform(0, 1, S)
        if plan['error'] == 'zero':
            up = np.round(up)
        args = [a, m, up, 1 - up] + ([] if mis is None else [mis])
        for s in range(S):
            l, h = model.ln_probability(x[s], up[s], 1 - up[s], q[s])
            lo, hi = model.add(lo, l), model.add(hi, h)
        name = 'polarity_probability_ln_pdf'
    else:
        small = 1e-24
        sx, sy = np.where(e1 == 0, small, e1), np.where(e2 == 0, small, e2)
        if plan['error'] == 'large':
            sx, sy = sx / 8, sy / 8
            e1, e2 = e1 / 8, e2 / 8
        if plan['negative']:
            e1 = -e1
        if fn == 'ratio':
            t = np.abs(np.tensordot(a, mt[:, :1], 1)[:, 0, 0] / np.tensordot(b, mt[:, :1], 1)[:, 0, 0])
            t = np.where(np.isfinite(t) & (t > 1e-6) & (t < 1e6), t, 1.) * (1 + r.normal(0, 0.3, S))
            t = np.abs(t) + 1e-6
            args = [t, m, a, b, e1, e2]
            xb = np.tensordot(b, mt, 1)
            for s in range(S):
                l, h = model.ln_ratio(x[s], xb[s], t[s], sx[s], sy[s])
                lo, hi = model.add(lo, np.where(np.isnan(l), model.NEG, l)), model.add(hi, np.where(np.isnan(h), np.inf, h))
            name = 'amplitude_ratio_ln_pdf'
        else:
            y1 = np.maximum(np.abs(np.tensordot(a, mt[:, :1], 1)[:, 0, 0]) * math.exp(r.normal()) * (1 + 0.3 * r.normal(0, 1, S)), 1e-4)
            y2 = np.maximum(np.abs(np.tensordot(a, mt2[:, :1], 1)[:, 0, 0]), 1e-4)
            args = [y1, y2, m, m2, a, a.copy(), e1, e2]
            ref = c15.Reference.__new__(c15.Reference)
            ref.amps = [{s: (y1[s], sx[s], a[s]) for s in range(S)}, {s: (y2[s], sy[s], a[s]) for s in range(S)}]
            ref.pairs = {(0, 1): list(range(S))}
            lo, hi, scale, tol, sure = ref.pair(0, 1, mt, mt2)
            extra = [scale, tol, sure]
            name = 'relative_amplitude_ratio_ln_pdf'
    ctx.state('likelihood', fn, plan['alt'], S, K, n, plan['layout'], plan['error'], plan['mispick'], plan['kind'])

    def call(w):
        mine = [copy.deepcopy(v) if not (plan['layout'] == 'strided' and v is m) else c01.layout(mt, 'strided') for v in args]
        if fn in ('ratio', 'relative'):
            out = [getattr(w.prob, name)(*mine)]
        else:
            out = [getattr(w.prob, name)(*mine)]
        if plan['again']:
            out.append(getattr(w.prob, name)(*mine))
        return out
    c, p = both(plan, ctx, call)
    for i, (u, v) in enumerate(zip(c, p)):
        what = '%s%s' % (name, ' again' if i else '')
        if fn != 'relative':
            within(ctx, what, u, v, lo, hi)
            continue
        scale, tol, sure = extra
        within(ctx, what, u[0], v[0], lo, hi)
        same(ctx, what + ' scale', u[1], v[1], 2 * tol.reshape(-1), ~sure.reshape(-1), 2e-11)
        # the standard deviation of the scale: relative to the scale it belongs to
        same(ctx, what + ' scale uncertainty', np.asarray(u[2]) ** 2, np.asarray(v[2]) ** 2, (1e-7 * (scale ** 2) + 4 * scale * tol).reshape(-1),
             ~sure.reshape(-1), 1e-7)


# ---- tasks

def kept(mts):
    """Occurrences of every tensor (columns) by their bytes."""
    out = {}
    for j in range(mts.shape[1]):
        out.setdefault(np.ascontiguousarray(mts[:, j] + 0.).tobytes(), []).append(j)
    return out


def collate(ctx, what, batch, mc, lc, mp_, lp, lo, hi, skip=False):
    """Results of the two installations for one batch: rows of values by tensor; lo, hi are (K, n) for the batch."""
    n = batch.shape[1]
    K = lo.shape[0]
    ic, ip = kept(mc), kept(mp_)
    lc, lp = flat(lc), flat(lp)
    vals = []
    for m, l in ((mc, lc), (mp_, lp)):
        k = m.shape[1]
        if k and l.size % k == 0 and l.size and np.all(l == model.NEG):
            l = np.full((K, k), model.NEG)
        ctx.check(l.size == K * k or (l.size == 0 and k == 0), 'shape', lambda: '%s: %d tensors have %d values' % (what, k, l.size))
        vals.append(l.reshape(K, k))
    seen = {}
    for j in range(n):
        seen.setdefault(np.ascontiguousarray(batch[:, j] + 0.).tobytes(), []).append(j)
    for key in set(ic) | set(ip):
        ctx.check(key in seen, 'tensors', '%s: a result tensor is not among the candidates' % what)
    for key, js in seen.items():
        a, b = ic.get(key, []), ip.get(key, [])
        j = js[0]
        unsure = np.any((lo[:, j] == model.NEG) & (hi[:, j] > model.NEG))
        if len(a) != len(b):
            if skip:
                return
            ctx.check(unsure, 'kept', lambda: '%s: candidate %d is %d times in the result with the extensions and %d times without' % (what, j, len(a), len(b)))
        for x, y in zip(a, b):
            within(ctx, '%s, candidate %d' % (what, j), vals[0][:, x], vals[1][:, y], lo[:, j], hi[:, j])


def columns(m, rows=6):
    m = np.asarray(m, float)
    return m.reshape(rows, -1) if m.size else np.zeros((rows, 0))


def run_task(plan, ctx):
    data, locs, weights, src = events.make_event(plan['event'])
    batches = [events.candidates(b['kind'], b['n'], events.pcg(b['dseed']), src) for b in plan['batches']]

    def call(w):
        args, ip = matrices(w, data, locs)
        out = []
        task = None
        for b, mts in zip(plan['batches'], batches):
            if task is None or not plan['reuse']:
                task = w.inversion.ForwardTask(c01.layout(mts.copy(), b['layout']), *copy.deepcopy(list(args)),
                                               location_sample_multipliers=list(weights) if weights else False,
                                               incorrect_polarity_prob=copy.deepcopy(ip), return_zero=plan['return_zero'], reuse=True,
                                               marginalise=plan['marginalise'])
            else:
                task.mt = c01.layout(mts.copy(), b['layout'])
            res = task()
            out.append((columns(res['moment_tensors']).copy(), flat(res['ln_pdf']).copy(), res['n']))
        return out
    c, p = both(plan, ctx, call)
    for i, mts in enumerate(batches):
        lo, hi, _ = model.ln_event(data, mts, locs, weights if locs else None)
        if locs and plan['marginalise']:
            lo, hi = model.marginal(lo, hi)
            lo, hi = lo[None], hi[None]
        what = 'forward task, batch %d' % i
        ctx.check(c[i][2] == p[i][2], 'count', lambda: '%s: %r samples with the extensions, %r without' % (what, c[i][2], p[i][2]))
        collate(ctx, what, mts, c[i][0], c[i][1], p[i][0], p[i][1], lo, hi)
        ctx.state('task', plan['alt'], tuple(sorted(t['key'] for t in plan['event']['types'])), bool(locs), plan['marginalise'], plan['return_zero'],
                  c[i][0].shape[1] == mts.shape[1], plan['batches'][i]['layout'])


def matrices(w, data, locs):
    with seams.patched(c01, inversion=w.inversion):
        return c01.matrices(data, locs)


def run_joint(plan, ctx):
    jp = plan['joint']
    made = c15.make(jp)
    ref = c15.Reference(jp, made, not jp['marg'])
    ne = len(made)
    batches = [np.array([c15.batch(b, e, k, made) for e, k in enumerate(b['kinds'])]) for b in jp['batches']]

    def call(w):
        out = []
        task = None
        with seams.patched(c01, inversion=w.inversion), seams.patched(c15, inversion=w.inversion):
            for mts in batches:
                if task is None or not jp['reuse']:
                    task = w.inversion.MultipleEventsForwardTask([m.copy() for m in mts], **c15.run_args(jp, copy.deepcopy(made)))
                else:
                    task.mts = [m.copy() for m in mts]
                res = task()
                m = res['moment_tensors']
                m = np.concatenate([columns(x) for x in m]) if isinstance(m, list) and len(m) else np.zeros((6 * ne, 0))
                s = res.get('scale_factor')
                s = None if s is None or isinstance(s, bool) or np.all(flat(res['ln_pdf']) == model.NEG) else [np.asarray(x['mu'], float).reshape(-1, ne, ne) for x in s]
                out.append((m, flat(res['ln_pdf']).copy(), res['n'], s))
        return out
    c, p = both(plan, ctx, call)
    for i, mts in enumerate(batches):
        what = 'joint task, batch %d' % i
        lo, hi, want = ref.joint(mts)
        stack = mts.reshape(6 * ne, -1)
        (mc, lc, nc, sc), (mp_, lp, np_, sp) = c[i], p[i]
        ctx.check(nc == np_, 'count', lambda: '%s: %r samples with the extensions, %r without' % (what, nc, np_))
        collate(ctx, what, stack, mc, lc, mp_, lp, lo, hi)
        ctx.state('joint', plan['alt'], ne, jp['relative'], jp['marg'], bool(made[0][1]), ref.shared())
        if sc is None or sp is None or mc.shape != mp_.shape or not np.array_equal(mc, mp_) or len(sc) != len(sp) or len(sc) != mc.shape[1]:
            continue
        ctx.probe('scale factors of joint tasks compared', len(sc))
        pos = kept(stack)
        for (a, b), (s, t, sure) in want.items():
            for k in range(mc.shape[1]):
                j = pos[np.ascontiguousarray(mc[:, k] + 0.).tobytes()][0]
                if flat(lc)[k] == model.NEG:
                    continue
                same(ctx, what + ' scale factor', sc[k][:, a, b], sp[k][:, a, b], 2 * t[:, j], ~sure[:, j], 2e-11)


# ---- reductions

def run_reduce(plan, ctx):
    r = events.pcg(plan['seed'])
    ln = plan['level'] + r.uniform(-1, 0, (plan['K'], plan['n'])) * plan['spread']
    ln2 = plan['level'] + r.uniform(-1, 0, (plan['K'], plan['n'])) * plan['spread']
    ln[r.random(ln.shape) < plan['zero']] = -np.inf
    if plan['zero'] == 0 and plan['dtype'] == 'int':
        ln = np.round(ln).astype(int)
    if plan['layout'] == 'F':
        ln = np.asfortranarray(ln)
    elif plan['layout'] == 'strided':
        big = np.zeros((plan['K'], 2 * plan['n']), ln.dtype)
        big[:, ::2] = ln
        ln = big[:, ::2]
    elif plan['layout'] == 'matrix':
        ln = np.matrix(ln)
    dV = plan['dV']
    N = max(1, plan['n']) * 3
    live = np.isfinite(np.asarray(ln, float))
    row = live.any(0)
    ctx.state('reduce', plan['alt'], plan['K'], plan['n'], plan['zero'], plan['spread'], tuple(sorted(set(plan['ops']))), plan['layout'], plan['dtype'])

    def call(w):
        out = []
        pdf = w.prob.LnPDF(copy.deepcopy(ln).astype(float), dV=dV)
        raw, raw2 = copy.deepcopy(ln), copy.deepcopy(ln2)
        for op in plan['ops']:
            if op == 'marginalise':
                v = pdf.marginalise(dV=dV)
            elif op == 'output':
                v = pdf.output(normalise=bool(row.any()))
            elif op == 'normalise':
                v = pdf.normalise() if row.any() else 0
            elif op == 'ln_marginalise':
                v = w.prob.ln_marginalise(raw, dV=dV)
            elif op == 'ln_marginalise1':
                v = w.prob.ln_marginalise(raw, axis=1, dV=dV)
            elif op == 'ln_normalise':
                v = w.prob.ln_normalise(raw, dV) if row.any() else 0
            elif op == 'dkl':
                v = w.prob.dkl(w.prob.LnPDF(np.asarray(raw, float)), w.prob.LnPDF(raw2), dV) if row.any() else 0
            elif op == 'dkl_estimate':
                v = w.prob.dkl_estimate(w.prob.LnPDF(np.asarray(raw, float)), N * dV, N) if row.any() else 0
            elif op == 'exp':
                v = pdf.exp()
            else:
                v = pdf.nonzero(10 ** 4, N)
            out.append(np.array(np.asarray(getattr(v, '_ln_pdf', v), float)))
        out.append(np.array(np.asarray(pdf._ln_pdf, float)))
        out.append(np.array(np.asarray(raw, float)))
        return out
    c, p = both(plan, ctx, call)
    top = np.max(np.abs(np.where(live, np.asarray(ln, float), 0)))
    for op, u, v in zip(plan['ops'] + ['the distribution afterwards', 'the array afterwards'], c, p):
        if op == 'nonzero':
            m = model.lse(np.asarray(ln, float))
            with np.errstate(invalid='ignore'):
                edge = np.abs(m - (m.max() - math.log(1e4 * N))) < 1e-9 * (1 + top)
            if edge.any():
                continue
        if op == 'exp':
            # relative to the value, and to its exponent
            same(ctx, op, u, v, 1e-12 * (1 + top) * np.minimum(flat(u), flat(v)), rel=0)
        elif op in ('dkl', 'dkl_estimate'):
            same(ctx, op, u, v, 1e-11 * (1 + top) * plan['n'])
        else:
            same(ctx, op, u, v, 1e-13 * (1 + top))


# ---- conversions

CONVERTED = ('g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2')


def apart(c, p, period):
    """Distance of two values of one parameter."""
    with np.errstate(invalid='ignore'):
        d = np.abs(np.asarray(c, float) - np.asarray(p, float))
        if period:
            d = np.mod(d, period)
            d = np.minimum(d, period - d)
    return d


def sources(plan, r):
    """Six-vectors (6, n)."""
    n, kind = plan['n'], plan['kind']
    if kind in ('random', 'dc', 'special'):
        m = events.candidates(kind, n, r, None)
    else:
        k, h, s = r.uniform(0, 2 * math.pi, n), r.uniform(0, 1, n), r.uniform(-math.pi / 2, math.pi / 2, n)
        g, d = r.uniform(-math.pi / 6, math.pi / 6, n), r.uniform(-math.pi / 2, math.pi / 2, n)
        if kind == 'degenerate':
            g = r.choice([-1, 1], n) * (math.pi / 6 - r.choice([0, 1e-12, 1e-9, 1e-6, 1e-3], n))
        elif kind == 'isotropic':
            d = r.choice([-1, 1], n) * (math.pi / 2 - r.choice([0, 1e-12, 1e-9, 1e-6, 1e-3], n))
        else:
            k, h, s = r.choice(np.arange(8) * math.pi / 4, n), r.choice([0., 0.5, math.sqrt(0.5), 1.], n), r.choice(np.arange(-2, 3) * math.pi / 4, n)
            g, d = r.choice([0., 0., math.pi / 6, -math.pi / 6], n), r.choice([0., 0., 0.3], n)
        m = tape(g, d, k, h, s)
    return m * 10. ** (r.uniform(min(0, plan['scale']), max(0, plan['scale'])) if plan['scale'] else 0)


def tape(g, d, k, h, s):
    """Six-vectors of the Tape parameters, independent of MTfit."""
    e = np.array([np.cos(d) * (math.sqrt(3) * np.cos(g) - np.sin(g)) / math.sqrt(6) + np.sin(d) / math.sqrt(3),
                  2 * np.cos(d) * np.sin(g) / math.sqrt(6) + np.sin(d) / math.sqrt(3),
                  np.cos(d) * (-math.sqrt(3) * np.cos(g) - np.sin(g)) / math.sqrt(6) + np.sin(d) / math.sqrt(3)])
    sd = np.sqrt(np.maximum(0, 1 - h * h))
    nrm = np.array([-sd * np.sin(k), sd * np.cos(k), -h])
    slip = np.array([np.cos(s) * np.cos(k) + np.sin(s) * h * np.sin(k), np.cos(s) * np.sin(k) - np.sin(s) * h * np.cos(k), -np.sin(s) * sd])
    T, P = (nrm + slip) / math.sqrt(2), (nrm - slip) / math.sqrt(2)
    N = np.cross(P.T, T.T).T
    out = []
    for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)):
        out.append((e[0] * T[i] * T[j] + e[1] * N[i] * N[j] + e[2] * P[i] * P[j]) * (1 if i == j else math.sqrt(2)))
    return np.array(out)


def full(v):
    s = math.sqrt(0.5)
    return np.array([[v[0], v[3] * s, v[4] * s], [v[3] * s, v[1], v[5] * s], [v[4] * s, v[5] * s, v[2]]])


def eig(m):
    return np.array([np.linalg.eigvalsh(full(v))[::-1] for v in np.asarray(m).T]).T


class Moved(object):
    """Values that rounding of the inputs explains."""

    def __init__(self, plan, ctx, call, tol):
        self.plan, self.ctx, self.call, self.tol = plan, ctx, call, tol
        self.r = events.pcg(plan['seed'] + 7)

    def explain(self, world, column, want, scale, clip):
        """Does moving the input by rounding give the wanted value (a tuple of (value, period))?"""
        with np.errstate(all='ignore'), world.current():
            for i in range(600):
                size = scale * 10 ** self.r.uniform(-16.5, -7.5)
                x = clip(column + size * self.r.choice([-1, 0, 1], len(column)) * self.r.uniform(0, 1, len(column)))
                got = self.call(world, x[:, None])
                if all(np.all(apart(v[0], t[0][..., :1] if np.ndim(t[0]) else t[0], t[1]) <= self.tol) for v, t in zip(got, want)):
                    return True
        return False


def compare(plan, ctx, what, call, x, tol, scale=1., clip=lambda v: v):
    """call(world, inputs (d, n)) -> list of (values with n last, period); values by column, moving the input where they differ."""
    def f(w):
        return call(w, np.array(x))
    c, p = both(plan, ctx, f)
    n = x.shape[1]
    w = FULL if plan['alt'] == 'fail' else other_quiet(plan)
    mover = Moved(plan, ctx, call, 20 * tol)
    ctx.evaluations += n
    ctx.probe('values compared', n * len(c))
    for j in range(n):
        bad = []
        for (u, per), (v, _) in zip(c, p):
            u, v = np.asarray(u, float), np.asarray(v, float)
            ctx.check(u.size == v.size and u.size % n == 0, 'shape', lambda: '%s: %s values with the extensions, %s without' % (what, u.shape, v.shape))
            u, v = u.reshape(-1, n)[:, j], v.reshape(-1, n)[:, j]
            d = apart(u, v, per)
            both_nan = np.isnan(u) & np.isnan(v)
            if not np.all((d <= tol) | both_nan):
                bad.append((u, v))
            elif d[~both_nan].size:
                ctx.maximum('largest difference of a conversion', float(np.max(d[~both_nan])))
        if not bad:
            continue
        uc = [(np.asarray(u, float).reshape(-1, n)[:, j:j + 1], per) for u, per in c]
        vp = [(np.asarray(v, float).reshape(-1, n)[:, j:j + 1], per) for v, per in p]
        ctx.probe('differences at a discontinuity')
        if not (mover.explain(w, x[:, j], uc, scale, clip) or mover.explain(FULL, x[:, j], vp, scale, clip)):
            ctx.fail('value', '%s of %s: %s with the extensions, %s without' % (what, [float('%.12g' % t) for t in x[:, j]], bad[0][0], bad[0][1]))


def other_quiet(plan):
    if plan['alt'] == 'one':
        return worlds.world((plan['missing'],))
    return worlds.world(worlds.PATHS, RuntimeError if plan['alt'] == 'broken' else ImportError)


def axes(v):
    """Axes (3, n) as their dyads, which do not know about signs."""
    v = np.asarray(v, float).reshape(3, -1)
    return np.array([v[i] * v[j] for i in range(3) for j in range(i, 3)])


def plane(strike, dip, rake):
    """A fault plane: its normal and slip, and the angles where they are defined (a horizontal plane has no strike)."""
    k, d, s = (np.asarray(v, float).reshape(-1) for v in (strike, dip, rake))
    v = np.array([-np.sin(d) * np.sin(k), np.sin(d) * np.cos(k), -np.cos(d), np.cos(s) * np.cos(k) + np.sin(s) * np.cos(d) * np.sin(k),
                  np.cos(s) * np.sin(k) - np.sin(s) * np.cos(d) * np.cos(k), -np.sin(s) * np.sin(d)])
    flat_ = np.sin(d) < 1e-3
    return [(v, 0), (np.where(flat_, 0, k), 0), (d, 0), (np.where(flat_, 0, s), 0)]


def horizontal(n, s):
    """Fault planes of which one is too near to horizontal for the strikes of the pair to be defined: normals and slips (3, n)."""
    return min(float(np.min(np.hypot(v[0], v[1]))) for v in (n, s)) < 1e-4


def dips(strike, dip, rake):
    return [(np.asarray(dip, float).reshape(-1), 0)]


def run_convert(plan, ctx):
    r = events.pcg(plan['seed'])
    fn, n = plan['fn'], plan['n']
    ctx.state('convert', fn, plan['alt'], plan['kind'], n, plan['layout'], plan['scale'])
    if fn in ('MT6_TNPE', 'output_convert', 'MT6_Tape', 'E_GD', 'TNP_SDR'):
        x = sources(plan, r)
        size = np.sqrt((x ** 2).sum(0))
        E = eig(x)
        gap = np.minimum(E[0] - E[1], E[1] - E[2]) / size
        dev = (E[0] - E[2]) / size
        # the axes of a degenerate tensor are any, and badly conditioned near it
        tol = 1e-6
        norm = float(size.max())

        if fn == 'E_GD':
            e = np.array([r.permutation(c) for c in E.T]).T if r.random() < 0.4 else E
            if r.random() < 0.2:
                e, dev = np.array(e), np.array(dev)
                j = int(r.integers(n))
                e[:, j], dev[j] = r.choice([-1, 1]) * norm * r.choice([1, 0.3]), 0
            defined = dev[dev >= 1e-9]
            part = min(1, 1e7 * defined.min()) if defined.size else 0

            def call(w, y):
                v = y[:, 0].copy() if y.shape[1] == 1 and plan['layout'] != 'C' else (y.T.copy() if plan['layout'] == 'F' and y.shape[1] != 3 else y)
                g, d = w.conv.E_GD(v)
                g, d = np.reshape(np.asarray(g, float), (-1,)), np.reshape(np.asarray(d, float), (-1,))
                if y.shape[1] == n:
                    g = np.where(dev < 1e-9, 0, g)
                return [(g * part, 0), (d, 0)]
            compare(plan, ctx, fn, call, e, tol, scale=norm)
            return
        live = np.nonzero(gap > 1e-4)[0]
        TP = [np.linalg.eigh(full(v))[1] for v in x.T] if fn in ('output_convert', 'MT6_Tape') else []
        T, P = (np.array([v[:, i] for v in TP]).T for i in (2, 0)) if TP else (0, 0)
        angles = dips if TP and horizontal((T + P) / math.sqrt(2), (T - P) / math.sqrt(2)) else plane
        if angles is dips:
            ctx.probe('horizontal planes')

        def lay(y):
            return c01.layout(np.array(y), plan['layout'])
        if fn == 'MT6_TNPE':
            def call(w, y):
                T, N, P, e = w.conv.MT6_TNPE(lay(y))
                k = y.shape[1]
                e = np.asarray(e, float).reshape(3, k)
                whole = sum(e[i] * axes(v) for i, v in enumerate((T, N, P)))
                out = [(e / norm, 0), (whole / norm, 0)] + [((np.asarray(v, float).reshape(3, k) ** 2).sum(0), 0) for v in (T, N, P)]
                if k == n and live.size == n:
                    out += [(axes(v), 0) for v in (T, N, P)]
                elif k == 1 and live.size == n:
                    out += [(axes(v), 0) for v in (T, N, P)]
                return out
            compare(plan, ctx, fn, call, x, tol / 10, scale=norm)
        elif fn == 'TNP_SDR':
            T, P = r.standard_normal((3, n)), r.standard_normal((3, n))
            if plan['kind'] in ('grid', 'special'):
                q = np.eye(3)
                T = np.array([q[:, int(r.integers(0, 3))] for _ in range(n)]).T * r.choice([-1, 1], n)
                P = np.array([q[:, (int(np.argmax(np.abs(t))) + 1) % 3] for t in T.T]).T * r.choice([-1, 1], n)
            T = events.unit(T)
            P = events.unit(P - T * (T * P).sum(0))

            angles = dips if horizontal(*((T + i * P) / math.sqrt(2) for i in (1, -1))) else plane

            def call(w, y):
                s, d, k = w.conv.TNP_SDR(np.matrix(y[:3].copy()), np.matrix(np.cross(y[:3].T, y[3:].T).T), np.matrix(y[3:].copy()))
                return angles(s, d, k)
            compare(plan, ctx, fn, call, np.concatenate([T, P]), tol)
        elif fn == 'output_convert':
            def call(w, y):
                o = {k: np.asarray(v, float).reshape(-1) for k, v in w.conv.output_convert(lay(y)).items()}
                out = [(o['g'] * (min(1, 1e7 * dev.min()) if dev.min() > 1e-9 else 0), 0), (o['d'], 0), (o['u'], 0), (o['v'], 0)]
                if live.size == n:
                    out += angles(o['k'], np.arccos(np.clip(o['h'], -1, 1)), o['s'])
                    for i in '12':
                        out += angles(*(o[k + i] * math.pi / 180 for k in 'SDR'))
                return out
            compare(plan, ctx, fn, call, x, tol, scale=norm)
        else:
            if live.size < n:
                return

            def call(w, y):
                o = [np.asarray(v, float).reshape(-1) for v in w.conv.MT6_Tape(lay(y))]
                return [(o[0], 0), (o[1], 0)] + angles(o[2], np.arccos(np.clip(o[3], -1, 1)), o[4])
            compare(plan, ctx, fn, call, x, tol, scale=norm)
        return
    g, d = r.uniform(-math.pi / 6, math.pi / 6, n), r.uniform(-math.pi / 2, math.pi / 2, n)
    k, h, s = r.uniform(0, 2 * math.pi, n), r.uniform(0, 1, n), r.uniform(-math.pi / 2, math.pi / 2, n)
    if plan['kind'] in ('dc',):
        g, d = g * 0, d * 0
    elif plan['kind'] in ('grid', 'special', 'degenerate'):
        k, h, s = r.choice(np.arange(8) * math.pi / 4, n), r.choice([0., 0.5, math.sqrt(0.5), 1., 1e-9, 1 - 1e-12], n), r.choice(np.arange(-2, 3) * math.pi / 4, n)
        g, d = r.choice([0., math.pi / 6, -math.pi / 6], n), r.choice([0., math.pi / 2, -math.pi / 2, 0.2], n)
    if fn == 'SDR_SDR':
        dip = np.arccos(h)
        rake = r.uniform(-math.pi, math.pi, n) if plan['kind'] not in ('grid', 'special') else s * 2

        # the horizontal parts of the normal and of the slip, which is the normal of the other plane
        flat_ = min(float(np.sin(dip).min()), float(np.hypot(np.cos(rake), np.sin(rake) * np.cos(dip)).min())) < 1e-4
        angles = dips if flat_ else plane

        def call(w, y):
            return angles(*w.conv.SDR_SDR(*(v.copy() for v in y)))

        def clip(v):
            return np.array([v[0], min(max(v[1], 0), math.pi / 2), v[2]])
        compare(plan, ctx, fn, call, np.array([k, dip, rake]), 1e-6, scale=2., clip=clip)
        return

    def clip(v):
        return np.array([v[0], v[1], v[2], min(max(v[3], 0), 1), v[4]])
    x = np.array([g, d, k, h, s])
    if fn == 'Tape_MT6':
        def call(w, y):
            return [(np.asarray(w.conv.Tape_MT6(*(v.copy() for v in y)), float).reshape(6, -1), 0)]
        compare(plan, ctx, fn, call, x, 1e-12, clip=clip)
    else:
        def call(w, y):
            alg = w.mcmc.IterativeMetropolisHastingsGaussianTape(number_events=1, dc=False)
            return [(np.array([np.asarray(alg.convert_sample(dict(zip(('gamma', 'delta', 'kappa', 'h', 'sigma'), (float(t) for t in v)))), float).reshape(6)
                               for v in y.T]).T, 0)]
        compare(plan, ctx, fn, call, x, 1e-12, clip=clip)


def stiffness(plan, r):
    lam, mu = r.uniform(0.5, 3), r.uniform(0.5, 3)
    c = np.zeros(21)
    c[[0, 6, 11]], c[[1, 2, 7]], c[[15, 18, 20]] = lam + 2 * mu, lam, mu
    if plan['iso'] == 'near':
        c *= 1 + r.normal(0, 1, 21) * 10 ** r.uniform(-12, -3)
    elif plan['iso'] == 'vti':
        c[[0, 6]] *= 1.15
        c[1] = c[0] - 2 * c[20] * 1.1
        c[20] *= 1.1
    elif plan['iso'] == 'any':
        c += r.normal(0, 0.03, 21) * mu
    return [float(v) for v in c], float(lam), float(mu)


def run_stiffness(plan, ctx):
    r = events.pcg(plan['seed'])
    c, lam, mu = stiffness(plan, r)
    mts = events.candidates(plan['kind'], plan['n'], r, None)
    ctx.state('stiffness', plan['alt'], plan['iso'], plan['n'], plan['kind'])

    def call(w):
        v = w.conv
        ph, ex, ad = v.MT6_biaxes(mts.copy(), list(c))
        ph0, ex0, ad0 = v.MT6_biaxes(mts[:, 0].copy())
        D = np.array([np.asarray(v.MT6c_D6(m.copy(), list(c)), float).reshape(6) for m in mts.T])
        return {'isotropic_c': v.isotropic_c(lam, mu), 'isotropic_c of a stiffness': v.isotropic_c(c=list(c)), 'c21_cvoigt': v.c21_cvoigt(list(c)),
                'c_norm': v.c_norm(list(c)), 'MT6c_D6': D, 'MT6c_D6 default': v.MT6c_D6(mts[:, 0].copy()),
                'is_isotropic_c': bool(v.is_isotropic_c(list(c))), 'biaxes': (np.asarray(ph, float).reshape(-1, 3, 2), flat(ex), flat(ad)),
                'biaxes default': (np.asarray(ph0, float).reshape(-1, 3, 2), flat(ex0), flat(ad0))}
    a, b = both(plan, ctx, call)
    for k in a:
        if k.startswith('biaxes'):
            continue
        if k == 'is_isotropic_c':
            d = c
            dist = [abs(d[i]) for i in (3, 4, 5, 8, 9, 10, 12, 13, 14, 16, 17, 19)] + [abs(d[i] - d[j]) for i, j in (
                (0, 6), (6, 11), (15, 18), (18, 20), (1, 2), (2, 7))] + [abs(d[0] - d[1] - 2 * d[15])]
            t = 1e-6 * float(flat(a['c_norm'])[0])
            if any(abs(v - t) < 1e-9 * t for v in dist):
                continue
            ctx.check(a[k] == b[k], 'value', lambda: 'is_isotropic_c of %s: %r with the extensions, %r without' % (c, a[k], b[k]))
            continue
        same(ctx, k, a[k], b[k], 1e-9 if 'D6' in k else 0)
    for k in ('biaxes', 'biaxes default'):
        (p1, e1, d1), (p2, e2, d2) = a[k], b[k]
        tol = 1e-5 if plan['iso'] != 'iso' and k == 'biaxes' else 1e-7
        same(ctx, k + ' explosion', e1, e2, tol)
        same(ctx, k + ' area displacement', d1, d2, tol)
        ctx.check(p1.shape == p2.shape, 'shape', lambda: '%s: %s and %s' % (k, p1.shape, p2.shape))
        for i in range(len(p1)):
            if abs(d1.reshape(-1)[i]) < 1e-3:
                continue
            u, v = p1[i], p2[i]
            # two axes, in any order and with any sign; near a repeated eigenvalue they are any
            x = np.array([axes(u[:, [m]])[:, 0] for m in (0, 1)])
            y = np.array([axes(v[:, [m]])[:, 0] for m in (0, 1)])
            d = min(np.abs(x - y).max(), np.abs(x - y[::-1]).max())
            E = eig(mts[:, [i]] if k == 'biaxes' else mts[:, :1])[:, 0]
            if min(E[0] - E[1], E[1] - E[2]) < 1e-3 or plan['iso'] in ('vti', 'any') and k == 'biaxes' and (d < 1e-2):
                continue
            ctx.check(d < 3e-3 or (np.isnan(u).any() and np.isnan(v).any()), 'value', lambda: '%s of %s: %s with the extensions, %s without' % (
                k, mts[:, i].tolist(), u.T.tolist(), v.T.tolist()))


# ---- binning

def run_bin(plan, ctx):
    f = plan['file']
    work = os.path.join(SCRATCH, 'c20-%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    fn = os.path.join(work, 'a.scatangle')
    recs = c18.records(f, plan['bin'])
    c18.write(fn, f, recs)
    ctx.state('bin', plan['alt'], f['order'], f['angles'], f['weights'], bool(plan['sub']), f['n'] > 1)

    def call(w):
        seams.seed_all(plan['seed'])
        return w.scat.parse_scatangle(fn, plan['sub'], plan['bin'])
    (rc, mc), (rp, mp_) = both(plan, ctx, call)
    same(ctx, 'number of binned records', [len(rc)], [len(rp)])
    for i, (u, v) in enumerate(zip(rc, rp)):
        ctx.check(list(u['Name']) == list(v['Name']), 'records', lambda: 'binned record %d: stations %s with the extensions, %s without' % (i, u['Name'], v['Name']))
        same(ctx, 'binned record %d' % i, np.concatenate([flat(u['Azimuth']), flat(u['TakeOffAngle'])]),
             np.concatenate([flat(v['Azimuth']), flat(v['TakeOffAngle'])]), rel=0)
    same(ctx, 'weights of the binned records', mc, mp_, 1e-12 * float(np.max(np.abs(mc))) if len(mc) else 0, rel=1e-12)


def run_coeff(plan, ctx):
    data, locs, weights, src = events.make_event(plan['event'])
    K = len(locs)
    w0 = list(weights) if weights else [1.] * K
    eps = plan['epsilon']
    r = events.pcg(plan['seed'])
    ctx.state('coeff', plan['alt'], tuple(sorted({model.kind(t['key']) for t in plan['event']['types']})), K, eps)
    ext = {'x': {'a_other': r.standard_normal((2, K, 6)), 'value': 3}} if r.random() < 0.4 else {}

    def call(w):
        import contextlib
        import io
        (a, _, a1, a2, _, _, _, ap, _), _ = matrices(w, data, locs)
        with contextlib.redirect_stdout(io.StringIO()):
            return w.inversion.bin_angle_coefficient_samples(*copy.deepcopy([a, a1, a2, ap, list(w0), ext]), epsilon=eps)
    c, p = both(plan, ctx, call)
    (a, _, a1, a2, _, _, _, ap, _), _ = matrices(FULL, data, locs)
    arrays = [v for v in (a, a1, a2, ap) if not isinstance(v, bool)]
    for i in range(K):
        for j in range(i):
            d = max(float(np.max(np.abs(v[:, i] - v[:, j]))) for v in arrays)
            if abs(d - eps) < 1e-12 and not d == eps == 0:
                return
    for i, name in enumerate(('polarity', 'ratio numerator', 'ratio denominator', 'polarity probability')):
        ctx.check(isinstance(c[i], bool) == isinstance(p[i], bool), 'shape', '%s coefficients are there in one installation only' % name)
        if not isinstance(c[i], bool):
            same(ctx, 'binned %s coefficients' % name, c[i], p[i], rel=0)
    ctx.check(sorted(c[4]) == sorted(p[4]), 'shape', 'extension data differ')
    for k in c[4]:
        same(ctx, 'binned extension coefficients', c[4][k]['a_other'], p[4][k]['a_other'], rel=0)
    same(ctx, 'weights of the binned coefficients', c[5], p[5], 1e-12 * max(w0), rel=1e-12)


# ---- random generators

def ks(ctx, what, x, y):
    """Two-sample test."""
    from scipy.stats import ks_2samp
    x, y = np.asarray(x, float).reshape(-1), np.asarray(y, float).reshape(-1)
    ctx.check(np.isfinite(x).all() and np.isfinite(y).all(), 'value', '%s is not a number' % what)
    if x.size < 5 or y.size < 5:
        return
    # ties (values on a bound) make the test conservative
    pv = ks_2samp(x, y, method='asymp').pvalue
    ctx.probe('values compared', x.size + y.size)
    ctx.evaluations += 1
    ctx.check(pv > 1e-9, 'distribution', lambda: '%s: %d draws with the extensions and %d without differ, p = %.3g (medians %.6g and %.6g)' % (
        what, x.size, y.size, pv, float(np.median(x)), float(np.median(y))))


def run_random(plan, ctx):
    n = plan['n']
    ctx.state('random', plan['what'], plan['alt'], plan['cfg']['cls'], plan['start'])
    if plan['what'] in ('mt', 'dc'):
        def call(w):
            seams.seed_all(plan['seed'] + (w is not FULL))
            if plan['what'] == 'mt':
                return columns(w.base._6sphere_random_mt(n))
            alg = w.base.BaseAlgorithm(number_samples=n, number_events=1)
            alg.number_samples = n
            return columns(alg.random_dc())
        c, p = both(plan, ctx, call)
        r = events.pcg(plan['seed'])
        for m in (c, p):
            ctx.check(m.shape == (6, n) and np.all(np.abs((m ** 2).sum(0) - 1) < 1e-9), 'value', 'random tensors are not %d unit tensors' % n)
        for i in range(6):
            ks(ctx, 'component %d of random %s tensors' % (i, plan['what']), c[i], p[i])
        for _ in range(4):
            q = events.unit(r.standard_normal(6))
            ks(ctx, 'a projection of random %s tensors' % plan['what'], q @ c, q @ p)
            i, j = (int(v) for v in r.permutation(6)[:2])
            ks(ctx, 'components %d and %d of random %s tensors' % (i, j, plan['what']), c[i] * c[j], p[i] * p[j])
        ks(ctx, 'trace of random %s tensors' % plan['what'], c[:3].sum(0) if plan['what'] == 'mt' else np.abs(c[:3]).max(0),
           p[:3].sum(0) if plan['what'] == 'mt' else np.abs(p[:3]).max(0))
        return
    cfg = plan['cfg']
    ref = chain.refcfg(cfg)
    r0 = chain.rng_of(plan['seed'], 'state')
    kind = 'mid' if plan['start'] == 'dc' and not ref['transd'] else plan['start']
    xs = [chain.random_state(r0, kind, ref) for _ in range(ref['events'])]
    scales = [{k: r0.choice([1.0, 0.3, 0.05]) for k in R.KEYS} for _ in xs]
    n = min(n, 1500)

    def call(w):
        seams.seed_all(plan['seed'] + (w is not FULL))
        src = chain.AcceptSource()
        with seams.patched(chain, M=w.mcmc, LnPDF=w.prob.LnPDF):
            d = chain.Driver(cfg, ctx, src)
            d.set_widths(scales)
            d.alg.initialise()
            d.teleport(xs, 0.0)
            d.alg._number_samples = 500
            got = []
            while len(got) < n:
                m = d.alg.new_sample()
                got.extend(d.tries())
                conv = (m, d.tries())
            return got[:n], conv
    (c, cc), (p, _) = both(plan, ctx, call)
    # the tensors that go with the proposals
    for e in range(ref['events']):
        m = cc[0][e] if ref['events'] > 1 else cc[0]
        m = columns(m)
        for t in range(0, min(m.shape[1], len(cc[1])), 37):
            x = cc[1][t][e]
            q = tape(*(np.array([x[k]]) for k in ('gamma', 'delta', 'kappa', 'h', 'sigma')))[:, 0]
            ctx.check(np.abs(q - m[:, t]).max() < 1e-6, 'value', lambda: 'proposal %s goes with the tensor %s' % (x, m[:, t]))
    for e in range(ref['events']):
        dc = [np.array([R.is_dc(t[e]) and not ref['dc'] for t in g]) for g in (c, p)]
        k1, k2 = int(dc[0].sum()), int(dc[1].sum())
        q = (k1 + k2) / (2. * n)
        if 0 < q < 1:
            z = abs(k1 - k2) / math.sqrt(2 * n * q * (1 - q))
            ctx.check(z < 6.5, 'distribution', lambda: '%d of %d proposals are double-couples with the extensions, %d without' % (k1, n, k2))
        for is_dc in (True, False):
            sel = [[t[e] for t, z in zip(g, zs) if bool(z) == is_dc] for g, zs in ((c, dc[0]), (p, dc[1]))]
            for k in R.KEYS:
                if k in ('gamma', 'delta') and (is_dc or ref['dc']):
                    continue
                v = [np.array([t[k] for t in g]) for g in sel]
                if k == 'kappa':
                    v = [np.mod(t - xs[e][k] + math.pi, 2 * math.pi) for t in v]
                ks(ctx, 'proposed %s (%s)' % (k, 'dc' if is_dc else 'mt'), *v)


# ---- acceptance

def run_accept(plan, ctx):
    cfg = plan['cfg']
    seams.seed_all(plan['seed'])
    w = other(plan, ctx)
    ws = (FULL, w)
    srcs = [chain.AcceptSource(), chain.AcceptSource()]
    ds = []
    mods = [{'M': v.mcmc, 'LnPDF': v.prob.LnPDF} for v in ws]
    with np.errstate(all='ignore'):
        scales = None
        for v, src, mod in zip(ws, srcs, mods):
            with v.current(), seams.patched(chain, **mod):
                seams.seed_all(plan['seed'])
                d = chain.Driver(cfg, ctx, src)
                rr = chain.rng_of(plan['seed'], 'w')
                scales = [{k: rr.choice([1.0, 0.3, 0.05]) * rr.choice([1.0, rr.uniform(0.2, 1)]) for k in R.KEYS} for _ in range(d.E)]
                d.set_widths(scales)
                d.alg.initialise()
                ds.append(d)
        a, b = ds
        for i, (seed, kind, target) in enumerate(plan['steps']):
            rng = chain.rng_of(plan['seed'], seed)
            L = rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-1e3, 1e3)])
            if kind == 'go' and i:
                xs, L = a.state(), float(a.alg.ln_likelihood_xi)
                if L == R.NEG:
                    L = 0.
            else:
                xs = [chain.random_state(rng, kind if kind in ('mid', 'edge') else 'dc' if a.ref['transd'] and kind == 'dc' else 'mid', a.ref) for _ in range(a.E)]
            for d, v, mod in zip(ds, ws, mods):
                with v.current(), seams.patched(chain, **mod):
                    d.teleport(xs, L)
                    d.set_widths(scales)
                    d.alg.new_sample()
            b.alg.xi_1 = copy.deepcopy(a.alg.xi_1)
            b.alg._number_samples = getattr(a.alg, '_number_samples', 1)
            tries = a.tries()
            lnls = []
            for t in tries:
                x = rng.random()
                lnls.append(L + rng.choice([rng.uniform(-3, 3), rng.uniform(-30, 5), rng.uniform(-1, 0.1)]) if x < 0.8 else R.NEG)
            u = {'any': rng.random(), 'low': 10 ** rng.uniform(-12, -1), 'one': 1 - 2. ** -53, 'zero': 0.0}[target]
            want, _ = a.expect(xs, a.alphas(), tries, lnls, L, u, a.how())
            res = []
            for d, src, v, mod in zip(ds, srcs, ws, mods):
                with v.current(), seams.patched(chain, **mod), src.installed():
                    d.step(list(lnls), u)
                res.append((d.state(), float(d.alg.ln_likelihood_xi)))
            if want == 'ambiguous':
                ctx.probe('ambiguous acceptances')
                continue
            ctx.state('accept', cfg['cls'], a.E, a.ref['prior'], a.ref['dc'], kind, target, want is None, len(tries) > 1, plan['alt'])
            what = 'step %d of a %s chain (%d events, %s)' % (i, cfg['cls'], a.E, cfg['prior'])
            same(ctx, what + ': log-likelihood of the state', [res[0][1]], [res[1][1]], rel=1e-13)
            same(ctx, what + ': state', [x[k] for x in res[0][0] for k in R.KEYS], [x[k] for x in res[1][0] for k in R.KEYS], rel=1e-13)


# ---- inversions

def run_inversion(plan, ctx):
    data, locs, weights, src = events.make_event(plan['event'])
    work = os.path.join(SCRATCH, 'c20-%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    fn = False
    if locs:
        fn = [os.path.join(work, 'loc.scatangle')]
        c01.write_scatter(fn[0], locs, weights)

    def call(w):
        seams.seed_all(plan['seed'])
        drawn = []
        r = events.pcg(plan['seed'] + 3)
        mts = []

        def draw(self, *a):
            k = self.number_samples
            near = events.unit(src + r.normal(0, 1, (6, k)) * 10 ** r.uniform(-4, 0, k))
            m = events.random_dc(r, k) if plan['dc'] else near
            mts.append(m.copy())
            return np.matrix(m)
        out = {}

        def record(self, event, fid, *a, **k):
            o = self.algorithm.output(normalise=plan['normalise'], convert=plan['convert'], discard=plan['discard'])[0]
            raw = self.algorithm.output(normalise=False, convert=False, discard=0)[0]
            out.update(o=o, raw=raw)
            drawn.append(1)
        real = w.inversion.Inversion._update_samples

        def update(self, *a, **k):
            real(self, *a, **k)
            self.number_samples = plan['size']
            if hasattr(self, 'kwargs'):
                self.kwargs['number_samples'] = plan['size']
        with seams.patched(w.inversion.Inversion, output=record, _update_samples=update), seams.patched(w.base, _6sphere_random_mt=draw), \
                seams.patched(w.base.BaseAlgorithm, random_dc=draw):
            inv = w.inversion.Inversion(parallel=False, data=copy.deepcopy([data]), location_pdf_file_path=copy.copy(fn), algorithm='iterate',
                                        max_samples=plan['size'] * plan['tasks'], dc=plan['dc'], path=work)
            inv.forward()
        return out, np.concatenate(mts, 1)
    (c, mc), (p, mp_) = both(plan, ctx, call)
    ctx.check(mc.shape == mp_.shape, 'count', lambda: '%d samples drawn with the extensions, %d without' % (mc.shape[1], mp_.shape[1]))
    same(ctx, 'scripted samples', mc, mp_, rel=0)
    lo, hi, _ = model.ln_event(data, mc, locs, weights if locs else None)
    if locs:
        lo, hi = model.marginal(lo, hi)
        lo, hi = lo[None], hi[None]
    rc, rp = c['raw'], p['raw']
    mine = [columns(q.get('moment_tensor_space', [])) for q in (rc, rp)]
    ctx.state('inversion', plan['alt'], plan['dc'], bool(locs), mine[0].shape[1] == mc.shape[1], mine[0].shape[1] == 0, plan['normalise'], plan['discard'])
    collate(ctx, 'inversion', mc, mine[0], rc.get('ln_pdf', []), mine[1], rp.get('ln_pdf', []), lo, hi)
    if mine[0].shape != mine[1].shape or not mine[0].size:
        return
    same(ctx, 'number of samples', rc['total_number_samples'], rp['total_number_samples'], rel=0)
    ln = flat(rc['ln_pdf'])
    top = float(np.max(np.abs(ln)))
    with np.errstate(invalid='ignore'):
        width = np.where((hi > lo) & np.isfinite(hi - lo), hi - lo, 0).max()
    if np.any((lo == model.NEG) & (hi > model.NEG)) or np.any(hi == np.inf) or width > 1e-6:
        return
    ctx.probe('whole results compared')
    co, po = c['o'], p['o']
    if plan['discard']:
        m = flat(rp['ln_pdf'])
        if np.any(np.abs(m - (m.max() - math.log(plan['discard'] * mc.shape[1]))) < 1e-6):
            return
    for k in sorted(set(co) | set(po)):
        ctx.check(k in co and k in po, 'keys', 'result field %s is there in one installation only' % k)
        u, v = co[k], po[k]
        if k in CONVERTED:
            continue
        try:
            u, v = flat(u), flat(v)
        except (TypeError, ValueError):
            ctx.check(u == v, 'value', lambda: 'result field %s: %r with the extensions, %r without' % (k, u, v))
            continue
        same(ctx, 'result field ' + k, u, v, 10 * width + 1e-10 * (1 + top), rel=1e-9 if k != 'probability' else 10 * width + 1e-9)


def valid(plan):
    if plan['mode'] == 'joint':
        return c15.valid(plan['joint'])
    if plan['mode'] in ('task', 'inversion', 'coeff'):
        e = plan['event']
        if not (e['types'] and e['n'] and all(t['stations'] and max(t['stations']) < e['n'] and len(set(t['stations'])) == len(t['stations'])
                                              for t in e['types']) and (not e['loc'] or e['loc']['K'])):
            return False
        if plan['mode'] == 'coeff' and not e['loc']:
            return False
    if plan['mode'] == 'bin' and not (plan['file']['n'] and plan['file']['stations'] and plan['file']['clusters'] and plan['bin']):
        return False
    return all(plan.get(k, 1) for k in ('n', 'K', 'stations', 'size', 'tasks', 'dV')) and all(b['n'] for b in plan.get('batches', []))


RUNNERS = {'likelihood': run_likelihood, 'task': run_task, 'joint': run_joint, 'reduce': run_reduce, 'convert': run_convert, 'stiffness': run_stiffness,
           'bin': run_bin, 'coeff': run_coeff, 'random': run_random, 'accept': run_accept, 'inversion': run_inversion}


def run(plan, ctx):
    if not valid(plan):
        return
    RUNNERS[plan['mode']](plan, ctx)
    ctx.probe('workload ' + plan['mode'])


__all__ = ['core', 'mp']
