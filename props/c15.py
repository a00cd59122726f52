"""C15: the joint log-probability of several events is the sum of their own terms and of one ratio term per related pair."""
import copy
import math
import os

from sim import events, model, mp, seams

LEVEL = 'exploration'
RUNS = {'quick': 11000, 'thorough': 100000}
CAP_S = {'quick': 130, 'thorough': 800}
RUN_WALL_S = 90
RULE = ('a case is 2 to 4 events (data, names and order of the stations they share, amplitudes, location samples, minimum number of shared '
        'stations, relative data on or off), a way to evaluate them (batches through the joint task, its relative loop, a joint random '
        'sampling inversion or Markov chain with serial or simulated parallel workers) and the compiled code present, absent or failing '
        'at chosen calls; non-trivial when at least one joint log-probability was finite and compared')
REAL = ['MTfit.inversion: MultipleEventsForwardTask, MultipleEventsMcMCForwardTask, ForwardTask, Inversion (joint), relative_amplitude_ratio_matrix, '
        '_intersect_stations, JobPool and worker processes (simulated scheduling)', 'MTfit.probability (compiled and Python): likelihoods, '
        'relative_amplitude_ratio_ln_pdf, scale_estimator, combine_mu', 'MTfit.algorithms and the joint sample store',
        'MTfit.extensions.scatangle reader for the location files']
STUB = ['multiprocessing (simulated processes and queues)', 'compiled functions that raise at chosen calls', 'random seeds', 'clock',
        'result files (Inversion.output records the store instead)']
STATE_MEASURE = 'hash of (mode, number of events, relative, minimum shared stations, numbers of shared stations of the pairs, location class, extension class, flags)'
ASSUMPTIONS = ['every event has data of its own', 'amplitude data are compared between events type by type', 'with relative data and location '
               'samples all events use the same location samples', 'log-densities below about -650 may be flushed to -inf',
               'a theoretical amplitude within 1e-13 of zero may have any density and scale']
AMPS = ['PAmplitude', 'SHAmplitude', 'SVAmplitude', 'PRMSAmplitude', 'SHQRMSAmplitude', 'SVQAmplitude', 'P_Amplitude']
FALLBACK = ('combined_ln_pdf', 'polarity_ln_pdf', 'polarity_probability_ln_pdf', 'amplitude_ratio_ln_pdf', 'ln_prod', 'ln_marginalise',
            'relative_amplitude_ratio_ln_pdf')
SMALL = 1e-24


def setup(scratch):
    global np, c01, inversion, probability, SCRATCH
    from props import c01
    c01.setup(scratch)
    import numpy as np
    from MTfit import inversion
    from MTfit.probability import probability
    SCRATCH = scratch


# ---- plans

def gen(rng, tier, index):
    mode = rng.choice(['task'] * 7 + ['loop', 'loop', 'inversion'])
    if index % 11 == 0:
        mode = 'inversion'
    elif index % 11 == 1:
        mode = 'chain'
    ne = rng.choice([2, 2, 2, 3, 3, 4])
    pool = rng.choice([1, 2, 3, 4, 6])
    relative = mode == 'loop' or rng.random() < 0.75
    loc = rng.random() < 0.3
    marg = rng.random() < 0.4
    if mode == 'chain' and relative:
        loc = False
    evs = []
    types = rng.sample(AMPS, rng.choice([1, 1, 1, 2, 3]))
    for i in range(ne):
        e = events.gen_event(rng, 'e%d' % i, stations=pool, locations=loc and not relative)
        e['shift'] = rng.choice([0, 0, 0, 0, 1, 2, pool])
        e['amps'] = []
        for t in types:
            if relative and rng.random() < 0.9:
                idx = list(range(pool))
                rng.shuffle(idx)
                e['amps'].append({'key': t, 'stations': idx[:pool if rng.random() < 0.5 else rng.randint(1, pool)],
                                  'noise': rng.choice([0, 0, 1, 1, 1]), 'neg': rng.random() < 0.1})
        e['scale'] = rng.choice([0, 0, 1, 3])
        if mode == 'chain':
            for t in e['types']:
                t['error'] = 'large'
                t['mispick'] = 'all'
            for a in e['amps']:
                a['noise'] = 1
        evs.append(e)
    plan = {'mode': mode, 'relative': relative, 'events': evs, 'minint': rng.choice([0, 1, 1, 2, 2, 2, 3, 4]), 'marg': marg,
            'error': rng.choice(['zero', 'tiny', 'small', 'mid', 'mid', 'mid', 'large', 'mixed']) if mode != 'chain' else 'large',
            'angles': rng.choice(['any', 'any', 'same', 'close']), 'ampseed': rng.getrandbits(32),
            'ext': rng.choice(['c', 'c', 'c', 'py', 'py', 'fail']), 'fail_at': sorted(rng.sample(range(1, 16), rng.randint(1, 6))),
            'fail_always': rng.random() < 0.3, 'fail_only': rng.sample(FALLBACK, rng.randint(1, len(FALLBACK))),
            'exc': rng.choice(['ValueError', 'MemoryError', 'TypeError']), 'loc': None}
    if relative and loc:
        plan['loc'] = {'K': 1 if marg else rng.choice([1, 2, 2, 3, 5]), 'order': rng.choice(['same', 'each', 'each']),
                       'weights': 'none' if marg else rng.choice(['none', 'one', 'random', 'wide', 'mean']), 'spread': rng.choice([0, 1, 10]),
                       'extra': rng.choice([0, 0, 2]), 'lseed': rng.getrandbits(32)}
    if mode in ('task', 'loop'):
        plan['batches'] = [{'n': rng.choice([1, 1, 2, 3, 8]), 'kinds': [rng.choice(['random', 'near', 'near', 'near', 'dc', 'special', 'true'])
                                                                       for _ in range(ne)],
                            'dseed': rng.getrandbits(32)} for _ in range(rng.choice([1, 1, 2, 3]))]
        plan.update(return_zero=mode == 'task' and rng.random() < 0.4, reuse=rng.random() < 0.6, permute=mode == 'task' and rng.random() < 0.3)
    elif mode == 'inversion':
        plan.update(size=rng.choice([2, 7, 20]), tasks=rng.choice([1, 2, 4]), loop=rng.random() < 0.2)
    else:
        plan.update(learning=rng.choice([1, 3]), chain=rng.choice([2, 5, 8]), transd=rng.random() < 0.3)
    if mode in ('inversion', 'chain'):
        plan.update(dc=rng.random() < 0.3, parallel=rng.random() < 0.5, cpus=rng.choice([2, 3]), sched_seed=rng.getrandbits(32),
                    policy=rng.choice(['random', 'random', 'pct', 'pct', 'sticky']), seed=rng.getrandbits(32))
        if mode == 'chain' and plan['ext'] == 'fail':
            plan['ext'] = 'c'
        if plan['dc']:
            plan['transd'] = False
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('finite joint values compared', 0) > 0


SHRINK_SKIP = ('dseed', 'ampseed', 'lseed')


# ---- the events

def rename(name, shift):
    return 'S%03d' % (int(name[1:]) + shift) if name.startswith('S') else name


def make(plan):
    """[(data, location records or False, weights or False, source, scale)] of the events."""
    out = []
    top = max(e['n'] + e['shift'] for e in plan['events'])
    r = events.pcg(plan['ampseed'])
    same = (r.uniform(0, 360, top), r.uniform(0, 180, top))
    lo, hi = {'zero': (0, 0), 'tiny': (1e-8, 1e-4), 'small': (1e-3, 0.03), 'mid': (0.03, 0.3), 'large': (0.2, 0.6), 'mixed': (1e-5, 0.4)}[plan['error']]
    for e in plan['events']:
        data, locs, weights, src = events.make_event(dict(e, loc=e['loc'] if not plan['relative'] else None))
        for d in data.values():
            if isinstance(d, dict):
                d['Stations']['Name'] = [rename(n, e['shift']) for n in d['Stations']['Name']]
        if locs:
            for rec in locs:
                rec['Name'] = [rename(n, e['shift']) for n in rec['Name']]
        scale = math.exp(r.normal(0, 1) * e['scale'])
        for a in e['amps']:
            idx = np.array(a['stations'])
            m = len(idx)
            g = idx + e['shift']
            az, toa = same[0][g], same[1][g]
            if plan['angles'] == 'close':
                az, toa = az + r.normal(0, 2, m), np.clip(toa + r.normal(0, 2, m), 0, 180)
            elif plan['angles'] == 'any':
                az, toa = r.uniform(0, 360, m), r.uniform(0, 180, m)
            x = np.abs(model.coefficients(az, toa, model.phases(a['key'])[0]).dot(src)[:, 0])
            p = r.uniform(lo, hi, m)
            if plan['error'] == 'mixed':
                p = np.exp(r.uniform(math.log(lo), math.log(hi), m))
            y = scale * np.maximum(x * (1 + a['noise'] * p * r.normal(0, 1, m)), 1e-4)
            if a['neg']:
                y = y * r.choice([-1, 1], m)
            data[a['key']] = {'Stations': {'Name': ['S%03d' % k for k in g], 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(toa).T},
                              'Measured': np.matrix(y).T, 'Error': np.matrix(np.abs(y) * p).T}
        out.append([data, locs, weights, src, scale])
    if plan['loc']:
        L = plan['loc']
        r = events.pcg(L['lseed'])
        names = ['S%03d' % i for i in range(top)] + ['X%d' % i for i in range(L['extra'])]
        az, toa = np.append(same[0], r.uniform(0, 360, L['extra'])), np.append(same[1], r.uniform(0, 180, L['extra']))
        recs = []
        for k in range(L['K']):
            o = [int(i) for i in r.permutation(len(names))] if L['order'] == 'each' else list(range(len(names)))
            a = az + r.normal(0, 1, len(names)) * L['spread']
            t = np.clip(toa + r.normal(0, 1, len(names)) * L['spread'], 0, 180)
            recs.append({'Name': [names[i] for i in o], 'Azimuth': np.matrix(a[o]).T, 'TakeOffAngle': np.matrix(t[o]).T})
        w = {'none': False, 'one': [1.] * L['K'], 'random': list(r.uniform(0.01, 3, L['K'])), 'wide': list(np.exp(r.uniform(-20, 20, L['K']))),
             'mean': [1 + (-1) ** k * 0.5 for k in range(L['K'] // 2 * 2)] + [1.] * (L['K'] % 2)}[L['weights']]
        for m in out:
            m[1], m[2] = recs, w and [float(x) for x in w]
    return out


# ---- the reference

def amplitudes(data, locs):
    """{(station, type): (observed, fractional error, coefficients (locations, 6))}"""
    out = {}
    for key in data:
        if model.kind(key) != 'relative':
            continue
        d = data[key]
        n = len(d['Stations']['Name'])
        y, err = np.abs(np.asarray(d['Measured'], float).reshape(n)), np.abs(np.asarray(d['Error'], float).reshape(n))
        az, toa = np.asarray(d['Stations']['Azimuth'], float).reshape(n), np.asarray(d['Stations']['TakeOffAngle'], float).reshape(n)
        for i, name in enumerate(d['Stations']['Name']):
            if locs:
                pos = []
                for rec in locs:
                    j = rec['Name'].index(name)
                    pos.append((np.asarray(rec['Azimuth']).reshape(-1)[j], np.asarray(rec['TakeOffAngle']).reshape(-1)[j]))
            else:
                pos = [(az[i], toa[i])]
            out[name, key] = (y[i], err[i] / y[i] or SMALL, model.coefficients([q[0] for q in pos], [q[1] for q in pos], model.phases(key)[0]))
    return out


def station_scale(r, mx, my, px, py):
    """Mean and standard deviation of the scale of one station: moments of N(mu1, s1) times the slope of the ratio density (extended precision)."""
    r, mx, my, px, py = (np.asarray(x, np.longdouble) for x in (r, mx, my, px, py))
    with np.errstate(all='ignore'):
        sx, sy = px * mx, py * my
        m1 = my * r / mx
        v1 = (sx ** 2 + (r * sy) ** 2) / mx ** 2
        a, b = r * sy ** 2 / mx ** 2, my * sx ** 2 / mx ** 3
        c = np.sqrt(2 / np.longdouble(math.pi)) * sx ** 2 * sy * np.exp(-my ** 2 / (2 * sy ** 2)) / (mx ** 3 * v1)
        n = a * m1 + b + c
        mean = (a * (v1 + m1 ** 2) + b * m1) / n
        var = ((a * m1 + b) * v1 + c * (sx ** 2 / mx ** 2 + m1 ** 2)) / n - (mean - m1) ** 2
        return mean, var


class Reference(object):
    """Joint log-probabilities of tuples of candidates, as intervals."""

    def __init__(self, plan, made, per_location):
        self.plan, self.made = plan, made
        self.amps = [amplitudes(m[0], m[1]) for m in made]
        self.share = plan['relative'] and per_location
        self.pairs = {}
        if plan['relative']:
            for i in range(len(made)):
                for j in range(i):
                    obs = sorted(set(self.amps[i]) & set(self.amps[j]))
                    if obs and len(set(o[0] for o in obs)) >= plan['minint']:
                        self.pairs[i, j] = obs

    def shared(self):
        return tuple(sorted(len(set(o[0] for o in set(self.amps[i]) & set(self.amps[j]))) for i in range(len(self.made)) for j in range(i)))

    def own(self, e, mts):
        """Interval (K, n) of event e; K is one unless the location samples are shared."""
        data, locs, weights = self.made[e][:3]
        if self.share:
            return model.ln_event(data, mts, locs, None)[:2]
        lo, hi, _ = model.ln_event(data, mts, locs, weights if locs else None)
        if locs:
            lo, hi = model.marginal(lo, hi)
            lo, hi = lo[None], hi[None]
        return lo, hi

    def pair(self, i, j, mi, mj):
        """Interval (K, n) of the log ratio likelihood, estimated scale, its tolerance and whether it is determined."""
        xs = [(self.amps[i][o], self.amps[j][o]) for o in self.pairs[i, j]]
        r = np.array([a[0] / b[0] for a, b in xs])[:, None, None]
        px, py = (np.array([t[k][1] for t in xs])[:, None, None] for k in (0, 1))
        mx, my = (np.array([np.abs(t[k][2].dot(m)) for t in xs]) for k, m in ((0, mi), (1, mj)))
        mean, var = station_scale(r, mx, my, px, py)
        with np.errstate(all='ignore'):
            w = 1 / var
            scale = (mean * w).sum(0) / w.sum(0)
            rel = (4 * model.AMP_ERR * (1 / mx + 1 / my)).sum(0) + 1e-13
            tol = rel * np.abs(mean).max(0)
            bad = (np.minimum(mx, my) < 1e-13).any(0) | ~np.isfinite(scale.astype(float)) | (var <= 0).any(0)
            # where the closed form of the variance cancels, its value is rounding
            second = var + mean ** 2
            bad |= (var < 1e-12 * np.abs(second) * (np.maximum(px, py) > 0.3)).any(0)
            scale, tol = scale.astype(float), tol.astype(float)
            lo, hi = np.zeros(scale.shape), np.zeros(scale.shape)
            for s in range(len(xs)):
                cand = [model.ln_ratio(scale * f * mx[s], my[s], float(r[s, 0, 0]), float(px[s, 0, 0]), float(py[s, 0, 0]))
                        for f in (1, 1 + tol / scale, 1 - tol / scale)]
                l, h = np.min([c[0] for c in cand], 0), np.max([c[1] for c in cand], 0)
                lo, hi = model.add(lo, np.where(np.isnan(l), model.NEG, l)), model.add(hi, np.where(np.isnan(h), np.inf, h))
            lo, hi = np.where(bad, model.NEG, lo), np.where(bad, np.inf, hi)
        return lo, hi, scale, tol, ~bad

    def joint(self, mts):
        """Intervals (1, n) of tuples mts (events, 6, n), and the scale of every pair."""
        lo = hi = 0
        for e in range(len(self.made)):
            l, h = self.own(e, mts[e])
            lo, hi = model.add(lo, l), model.add(hi, h)
        scales = {}
        for (i, j) in self.pairs:
            l, h, s, t, ok = self.pair(i, j, mts[i], mts[j])
            scales[i, j] = (s, t, ok)
            lo, hi = model.add(lo, l), model.add(hi, h)
        if self.share:
            weights = self.made[0][2]
            if self.made[0][1]:
                w = np.log(np.array(weights, float))[:, None] if weights else 0
                lo, hi = model.marginal(lo + w, hi + w)
                lo, hi = lo[None], hi[None]
        return lo, hi, scales


# ---- checks

def value(ctx, ref, what, mts, ln, scales):
    """Log-probabilities and scales of tuples (events, 6, n)."""
    n = mts.shape[2]
    lo, hi, want = ref.joint(mts)
    ln = c01.arr(ln)
    if ln.size != n and np.all(ln == -np.inf):
        ln = np.full((1, n), -np.inf)
    ctx.check(ln.size == n, 'shape', lambda: '%s: %d tuples have log-probabilities of shape %s' % (what, n, ln.shape))
    ln = ln.reshape(1, n)
    ok = model.inside(ln, lo, hi)
    ctx.evaluations += int(ok.size)
    with np.errstate(invalid='ignore'):
        fin = np.isfinite(ln) & (hi - lo < 1e-3)
    ctx.probe('finite joint values compared', int(fin.sum()))
    if not ok.all():
        j = int(np.argwhere(~ok[0])[0, 0])
        ctx.fail('value', '%s: tuple %d has joint log-probability %r, expected within [%r, %r] (pairs %s)' % (
            what, j, float(ln[0, j]), float(lo[0, j]), float(hi[0, j]), sorted(ref.pairs)))
    if fin.any():
        ctx.maximum('largest deviation from the middle of the interval', np.max(np.abs(ln - (lo + hi) / 2)[fin]))
    if scales is None or isinstance(scales, bool) or not want:
        return
    ctx.check(len(scales) == n, 'scale', lambda: '%s: %d tuples have %d scale factors' % (what, n, len(scales)))
    for (i, j), (s, t, sure) in want.items():
        for c in range(n):
            if ln[0, c] == -np.inf:
                continue
            got = np.asarray(scales[c]['mu'], float)
            ctx.check(got.shape[-2:] == (len(mts),) * 2, 'scale', '%s: scale factors of shape %s' % (what, got.shape))
            got = got.reshape(-1, len(mts), len(mts))[:, i, j]
            good = (np.abs(got - s[:, c]) <= t[:, c] + 1e-11 * np.abs(s[:, c])) | ~sure[:, c]
            ctx.check(good.all(), 'scale', lambda: '%s: scale factor of events %d and %d is %s, expected %s' % (what, i, j, got, s[:, c]))
            ctx.probe('scale factors compared', int(sure[:, c].sum()))


def limit(ctx, ref, plan, what, mts, scales, true):
    """Exact amplitudes of the true sources with small errors give the true amplitude ratio."""
    pmax = {'zero': 1e-20, 'tiny': 1e-4, 'small': 0.03}.get(plan['error'])
    if pmax is None or scales is None or isinstance(scales, bool):
        return
    for (i, j), obs in ref.pairs.items():
        if not true[i] or not true[j] or plan['angles'] != 'same' and False:
            continue
        if any(a['noise'] or a['neg'] for k in (i, j) for a in plan['events'][k]['amps']) or plan['loc']:
            continue
        xs = [(ref.amps[i][o], ref.amps[j][o]) for o in obs]
        weak = min(min(np.abs(a[2].dot(mts[i])).min(), np.abs(b[2].dot(mts[j])).min()) for a, b in xs)
        if weak < 2e-4:
            continue
        want = ref.made[i][4] / ref.made[j][4]
        for c in range(len(scales)):
            got = float(np.asarray(scales[c]['mu']).reshape(-1, len(mts), len(mts))[0, i, j])
            ctx.check(abs(got / want - 1) <= 10 * pmax ** 2 + 1e-9, 'limit', lambda: '%s: the scale of events %d and %d is %r with errors up to %g, the amplitudes '
                      'have ratio %r' % (what, i, j, got, pmax, want))
            ctx.probe('scales compared with the true ratio')


# ---- execution

def run_args(plan, made):
    cols = []
    for data, locs, weights, _, _ in made:
        args, ip = c01.matrices(data, locs)
        rel = inversion.relative_amplitude_ratio_matrix(data, locs)
        cols.append(list(args) + [ip] + list(rel))
    names = ('a_polarity', 'error_polarity', 'a1_amplitude_ratio', 'a2_amplitude_ratio', 'amplitude_ratio', 'percentage_error1_amplitude_ratio',
             'percentage_error2_amplitude_ratio', 'a_polarity_prob', 'polarity_prob', 'incorrect_polarity_prob', 'a_relative_amplitude',
             'relative_amplitude', 'percentage_error_relative_amplitude', 'relative_amplitude_stations')
    kw = {n: [c[i] for c in cols] for i, n in enumerate(names)}
    weights = [m[2] for m in made]
    if not plan['relative']:
        for n in names[10:]:
            kw[n] = []
    last = made[-1]
    kw.update(location_sample_multipliers=last[2], event_location_sample_multipliers=weights, minimum_number_intersections=plan['minint'],
              return_zero=plan['return_zero'], reuse=plan['reuse'], relative=plan['relative'], location_sample_size=len(last[1]) if last[1] else 1,
              marginalise_relative=plan['marg'], combine=plan['mode'] != 'loop')
    return kw


def batch(b, e, k, made):
    src = made[e][3]
    if k == 'true':
        return np.repeat(src, b['n'], 1)
    return events.candidates(k, b['n'], events.pcg(b['dseed'] + e), src)


def permuted(made, seed):
    r = events.pcg(seed)
    out = []
    for data, locs, weights, src, scale in made:
        data = copy.deepcopy(data)
        for d in data.values():
            if not isinstance(d, dict):
                continue
            o = [int(i) for i in r.permutation(len(d['Stations']['Name']))]
            d['Stations'] = {'Name': [d['Stations']['Name'][i] for i in o], 'Azimuth': d['Stations']['Azimuth'][o], 'TakeOffAngle': d['Stations']['TakeOffAngle'][o]}
            for k in d:
                if k != 'Stations':
                    d[k] = d[k][o]
        out.append((data, locs, weights, src, scale))
    return out


def run_task(plan, ctx):
    made = make(plan)
    ref = Reference(plan, made, not plan['marg'])
    note(plan, ctx, ref)
    with c01.Ext(plan, ctx):
        task = None
        for q, b in enumerate(plan['batches']):
            what = 'batch %d' % q
            mts = np.array([batch(b, e, k, made) for e, k in enumerate(b['kinds'])])
            fresh = [m.copy() for m in mts]
            if task is None or not plan['reuse']:
                task = inversion.MultipleEventsForwardTask(fresh, **run_args(plan, made))
            else:
                ctx.probe('joint task used again with new tensors')
                task.mts = fresh
            res = task()
            judge(plan, ctx, ref, what, res, mts, b)
            if plan['permute'] and not q:
                other = inversion.MultipleEventsForwardTask([m.copy() for m in mts], **run_args(plan, permuted(made, b['dseed'])))()
                judge(plan, ctx, ref, what + ' with permuted stations', other, mts, b)
                ctx.probe('stations permuted')
            ctx.steps += 1


def judge(plan, ctx, ref, what, res, mts, b):
    ne, _, n = mts.shape
    ctx.check(isinstance(res, dict) and res['n'] == n, 'count', lambda: '%s: reports %r of %d tuples' % (what, res, n))
    out = res['moment_tensors']
    scales = res.get('scale_factor')
    out = np.array([np.asarray(m) for m in out]) if isinstance(out, list) and len(out) else np.zeros((ne, 6, 0))
    ctx.check(out.shape[:2] == (ne, 6), 'shape', lambda: '%s: tensors of shape %s' % (what, out.shape))
    k = out.shape[2]
    ctx.trace('%s n=%d kept=%d' % (what, n, k))
    ctx.state('kept', n == k, k == 0)
    if plan['return_zero']:
        ctx.check(np.array_equal(out, mts), 'tensors', '%s: result tensors are not the candidates' % what)
        ln = c01.arr(res['ln_pdf'])
        if np.all(ln == -np.inf):
            scales = None
    elif plan['mode'] == 'loop' and ref.plan['relative'] and any(ref.amps):
        own = [ref.own(e, mts[e]) for e in range(ne)]
        sure = all(np.all((lo > model.NEG).any(0) | np.all(hi == model.NEG, 0)) for lo, hi in own)
        for e in range(ne):
            c01.matched(ctx, '%s, event %d' % (what, e), mts[e], out[e], np.full(own[e][0].shape, model.NEG), own[e][1])
        if sure:
            keep = [np.nonzero((lo > model.NEG).any(0))[0] for lo, hi in own]
            m = min(len(x) for x in keep)
            stack = np.array([mts[e][:, keep[e][:m]] for e in range(ne)])
            ctx.probe('tuples of the relative loop', m)
            same_tuples(ctx, ref, what, stack, out)
    else:
        same_tuples(ctx, ref, what, mts, out)
    if k:
        value(ctx, ref, what, out, res['ln_pdf'], scales)
        if scales is not None and not isinstance(scales, bool):
            ok = c01.arr(res['ln_pdf']).reshape(-1)
            limit(ctx, ref, plan, what, out, [s for s, x in zip(scales, ok) if x > -np.inf], [x == 'true' for x in b['kinds']])
    else:
        ctx.check(c01.arr(res['ln_pdf']).size == 0, 'shape', '%s: log-probabilities without tensors' % what)


def same_tuples(ctx, ref, what, mts, out):
    if not mts.shape[2]:
        ctx.check(not out.shape[2], 'extra', '%s: tuples from nothing' % what)
        return
    lo, hi, _ = ref.joint(mts)
    c01.matched(ctx, what, mts.reshape(-1, mts.shape[2]), out.reshape(len(mts) * 6, -1), lo, hi)


def note(plan, ctx, ref):
    ctx.state(plan['mode'], len(plan['events']), plan['relative'], plan['minint'], ref.shared(), bool(plan['loc'] or plan['events'][0]['loc']),
              plan['marg'], plan['ext'])
    ctx.trace('pairs %s of shared %s' % (sorted(ref.pairs), ref.shared()))
    for n in ref.shared():
        ctx.probe('pairs below the minimum' if n < plan['minint'] else 'pairs without shared stations' if not n else 'pairs with a ratio term')


def run_inversion(plan, ctx):
    made = make(plan)
    ref = Reference(plan, made, not plan['marg'])
    note(plan, ctx, ref)
    work = os.path.join(SCRATCH, 'c15-%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    files = []
    for i, m in enumerate(made):
        fn = ''
        if m[1]:
            fn = os.path.join(work, 'loc%d.scatangle' % i)
            c01.write_scatter(fn, m[1], m[2])
        files.append(fn)
    if not any(files):
        files = False
    taken = []
    chain = plan['mode'] == 'chain'

    def record(self, event, fid, output_data=False, *a, **k):
        out = output_data or self.algorithm.output(normalise=False, convert=False, discard=0)[0]
        taken.append(([e['UID'] for e in event], out))

    real_update = inversion.Inversion._update_samples
    size = plan.get('size', 5)

    def update(self, *a, **k):
        real_update(self, *a, **k)
        self.number_samples = size
        if hasattr(self, 'kwargs'):
            self.kwargs['number_samples'] = size
    kw = dict(data=copy.deepcopy([m[0] for m in made]), location_pdf_file_path=files, dc=plan['dc'], path=work, multiple_events=True, normalise=False,
              relative_amplitude=plan['relative'], minimum_number_intersections=plan['minint'], marginalise_relative=plan['marg'])
    if chain:
        kw.update(algorithm='transdmcmc' if plan['transd'] else 'mcmc', mode='metropolis_hastings', learning_length=plan['learning'],
                  chain_length=plan['chain'], max_samples=0, acceptance_rate_window=1, min_number_initialisation_samples=20,
                  initial_sample='grid')
    else:
        kw.update(algorithm='iterate', max_samples=plan['size'] * plan['tasks'], relative_loop=plan['loop'])
    with seams.patched(inversion.Inversion, output=record, _update_samples=update), c01.Ext(plan, ctx):
        seams.seed_all(plan['seed'])
        if plan['parallel']:
            with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
                inv = inversion.Inversion(parallel=True, n=plan['cpus'], **kw)
                inv.forward()
            ctx.choices = s.picks
            ctx.probe('context switches', s.switches)
        else:
            inv = inversion.Inversion(parallel=False, **kw)
            inv.forward()
    ctx.check([t[0] for t in taken] == [[m[0]['UID'] for m in made]], 'outputs', lambda: 'joint outputs for %s' % [t[0] for t in taken])
    out = taken[0][1]
    n = out['total_number_samples']
    if not chain:
        ctx.check(n >= plan['size'] * plan['tasks'], 'count', 'ended after %r samples' % n)
    if 'moment_tensor_space_1' not in out:
        ctx.trace('nothing kept')
        ctx.check(not chain, 'outputs', lambda: 'chain without samples: %s' % sorted(out))
        return
    mts = np.array([np.asarray(out['moment_tensor_space_%d' % (e + 1)]) for e in range(len(made))])
    k = mts.shape[2]
    ctx.trace('kept %d of %s' % (k, n))
    ctx.probe(plan['mode'] + ' samples', k)
    ctx.steps += 1
    ctx.check(np.all(np.abs((mts ** 2).sum(1) - 1) < 1e-9), 'tensors', 'stored tensors are not unit tensors')
    scales = out.get('scale_factors')
    if ref.pairs:
        ctx.check(scales is not None, 'scale', lambda: 'no scale factors in the output: %s' % sorted(out))
    value(ctx, ref, plan['mode'], mts, out['ln_pdf'], scales)


def valid(plan):
    evs = plan['events']
    if len(evs) < 2 or not all(e['types'] and e['n'] and all(t['stations'] and max(t['stations']) < e['n'] and len(set(t['stations'])) == len(t['stations'])
                                                            for t in e['types']) for e in evs):
        return False
    if not all(len({a['key'] for a in e['amps']}) == len(e['amps']) and all(a['stations'] and max(a['stations']) < e['n'] for a in e['amps']) for e in evs):
        return False
    if plan['loc'] and (not plan['loc']['K'] or plan['marg'] and (plan['loc']['K'] > 1 or plan['loc']['weights'] != 'none') or not plan['relative']):
        return False
    if any(e['loc'] and (not e['loc']['K'] or plan['relative']) for e in evs) or len({bool(e['loc']) for e in evs}) > 1:
        return False
    if plan['mode'] in ('task', 'loop'):
        return bool(plan['batches']) and all(b['n'] and len(b['kinds']) == len(evs) for b in plan['batches'])
    if plan['mode'] == 'chain':
        return plan['chain'] > 0 and plan['cpus'] > 0 and not (plan['relative'] and plan['loc'])
    return plan['size'] and plan['tasks'] and plan['cpus']


def run(plan, ctx):
    if not valid(plan):
        return
    {'task': run_task, 'loop': run_task, 'inversion': run_inversion, 'chain': run_inversion}[plan['mode']](plan, ctx)
