"""C08: random source sampling, every random number coming from the simulator."""
import math

from sim import core, seams

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 16000}
CAP_S = {'quick': 100, 'thorough': 700}
RUN_WALL_S = 90
RULE = ('a case is a generator (full tensor, double-couple, CLVD, given eigenvalues; called directly, through an algorithm\'s random_sample() '
        'for one or more events, or inside the compiled forward model), a batch size, a number of calls, the presence of the compiled '
        'extensions and either a seeded entropy stream (statistics over all draws) or a script of extreme and degenerate draws; it is '
        'non-trivial when at least 500 sources were drawn or a script was consumed')
REAL = ['MTfit.algorithms.base (random_mt, random_dc, random_clvd, random_type, random_orthogonal_eigenvectors, random_sample)',
        'MTfit.algorithms.monte_carlo.random_sample', 'MTfit.probability.cprobability (random_mt, random_dc, generated samples)']
STUB = ['operating-system entropy and the clock (the simulator answers np.random.seed() and time.time())',
        'np.random.rand / randn when a script of draws is in force']
STATE_MEASURE = 'hash of (generator, route, extension, batch size class, calls class, script kind)'
ASSUMPTIONS = ['statistical verdicts use thresholds with a false-alarm probability below 1e-10 per test on fixed seeds',
               'the clock may stand still between two calls']

ZKS = 3.5       # sqrt(n) * Kolmogorov distance; P < 5e-11
ZN = 7.0        # standard normal threshold; P < 3e-12
R2 = math.sqrt(2)


def setup(scratch):
    seams.install_clock()
    seams.install_rng()
    global np, base, MC, cprob, inversion
    import numpy as np
    import logging
    import MTfit
    logging.disable(logging.CRITICAL)
    from MTfit.algorithms import base
    from MTfit.algorithms import monte_carlo as MC
    from MTfit.probability import cprobability as cprob


def gen(rng, tier, index):
    kind = rng.choice(['mt', 'dc', 'dc', 'clvd', 'clvd', 'type'])
    plan = {'kind': kind, 'ext': rng.choice(['c', 'py']), 'seed': rng.getrandbits(32),
            'route': rng.choice(['direct', 'sample', 'algo', 'events'])}
    if kind == 'type':
        plan['route'] = 'direct'
        plan['diag'] = [round(rng.uniform(-2, 2), 3) for _ in range(3)]
    if kind in ('mt', 'dc') and rng.random() < 0.15:
        plan['route'] = 'generate'
        plan['ext'] = 'c'
    if plan['route'] == 'events':
        plan['events'] = rng.choice([2, 3])
    mode = rng.choice(['big', 'big', 'many', 'many', 'few', 'script'])
    if mode == 'big':
        plan['n'], plan['calls'] = rng.choice([5000, 20000, 20000, 40000 if tier == 'quick' else 150000]), rng.choice([1, 1, 2])
    elif mode == 'many':
        n = rng.choice([1, 2, 3, 5, 10, 30])
        plan['n'], plan['calls'] = n, max(60, int(2500 / n))
    elif mode == 'few':
        plan['n'], plan['calls'] = rng.choice([0, 1, 2, 7, 100]), rng.choice([1, 2, 5])
    else:
        plan['n'], plan['calls'] = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3])
        plan['script'] = rng.choice(['extreme', 'extreme', 'axes'])
    return plan


def nontrivial(plan, ctx):
    return plan['n'] * plan['calls'] >= 500 or bool(plan.get('script'))


SHRINK_SKIP = ('diag',)


def draw(plan):
    """One batch per event, from one call."""
    n, kind = plan['n'], plan['kind']
    kw = {'number_samples': n}
    if kind == 'dc':
        kw['dc'] = True
    if kind == 'clvd':
        kw['sample_distribution'] = 'clvd'
    route = plan['route']
    if route == 'generate':
        return None
    if route == 'events':
        alg = MC.IterationSample(number_events=max(1, plan['events']), **kw)
    elif route == 'algo':
        alg = MC.IterationSample(**kw)
    else:
        alg = base.BaseAlgorithm(**kw)

    def call():
        if route == 'direct':
            if kind == 'mt':
                return [alg.random_mt()]
            if kind == 'dc':
                return [alg.random_dc()]
            if kind == 'clvd':
                return [alg.random_clvd()]
            return [alg.random_type(np.array(plan['diag'], dtype=float).reshape(3, 1))]
        out = alg.random_sample()
        return list(out) if route == 'events' and plan['events'] > 1 else [out]
    return call


def generated(plan):
    """The compiled forward model generates its own samples; every one has non-zero probability here."""
    a = np.zeros((1, 6))
    a[0, 0] = 1.0

    def call():
        out = cprob.combined_ln_pdf(True, np.ascontiguousarray(a.reshape(1, 1, 6)), np.array([1e9]), False, False, False, False, False, False, False,
                                    np.array([0.0]), generate_samples=max(1, plan['n']), dc=plan['kind'] == 'dc', cutoff=10 ** 8,
                                    marginalised=1, location_samples_multipliers=np.zeros(1))
        return [np.asarray(out[1])]
    return call


def run(plan, ctx):
    seams.seed_all(plan['seed'])
    seams.CLOCK.now = 1.6e9
    if plan['ext'] == 'py':
        ctx.fault('compiled extensions absent')
    ctx.state(plan['kind'], plan['route'], plan['ext'], min(plan['n'], 50), min(plan['calls'], 5), plan.get('script'))
    script = make_script(plan, ctx)
    with seams.extensions(seams.ALL_EXT if plan['ext'] == 'py' else set()), np.errstate(all='ignore'):
        asked = seams.SEEDS['asked']
        if script is not None:
            ctx.fault('scripted draws: ' + plan['script'])
            with script:
                batches = collect(plan, ctx)
        else:
            batches = collect(plan, ctx)
        ctx.probe('entropy requests', seams.SEEDS['asked'] - asked)
    ctx.probe('sources drawn', sum(b.shape[1] for c in batches for b in c))
    structure(plan, ctx, batches)
    if script is None:
        independence(plan, ctx, batches)
        statistics(plan, ctx, batches)


def collect(plan, ctx):
    call = draw(plan) or generated(plan)
    out = []
    for c in range(plan['calls']):
        bs = [np.array(b, dtype=float) for b in call()]
        ctx.steps += 1
        want = max(1, plan['events']) if plan['route'] == 'events' else 1
        ctx.check(len(bs) == want, 'count', lambda: 'call %d returned %d batches for %d events' % (c, len(bs), want))
        for b in bs:
            n = max(1, plan['n']) if plan['route'] == 'generate' else plan['n']
            ctx.check(b.ndim == 2 and b.shape == (6, n), 'count', lambda: 'call %d returned shape %s for %d requested samples' % (c, b.shape, n))
            ctx.trace('%s %016x' % (b.shape, core.h64(b.tobytes())))
        out.append(bs)
    return out


def make_script(plan, ctx):
    s = plan.get('script')
    if not s:
        return None
    import random
    r = random.Random(plan['seed'] ^ 0x5eed)
    n = plan['n']
    eps = 2.0 ** -53
    if s == 'extreme':
        rand = [r.choice([0.0, 1 - eps, 0.5, 0.25, eps, r.random()]) for _ in range(6 * n * plan['calls'] + 20)]
        rn = [r.choice([1, -1]) * r.choice([1e-7, 1e-3, 1.0, 6.0, 8.2]) * r.uniform(0.9, 1.1) for _ in range(6 * n * plan['calls'] + 20)]
        return seams.Scripted(rand, rn)
    # first vectors along a coordinate axis, some second vectors exactly parallel to them
    ax = [r.randrange(3) for _ in range(n)]
    a = [[1.0 if ax[j] == i else 0.0 for j in range(n)] for i in range(3)]
    x = [[r.gauss(0, 1) for _ in range(n)] for _ in range(3)]
    for j in range(n):
        if r.random() < 0.5 or j == 0:
            k = r.choice([1.0, -2.0, 0.5])      # exact multiples: the cross product is exactly zero
            for i in range(3):
                x[i][j] = k * a[i][j]
    if plan['kind'] in ('clvd', 'type') or plan['kind'] == 'dc' and plan['ext'] == 'py':
        ctx.probe('parallel eigenvector draw')
    return seams.Scripted([], [v for row in a for v in row] + [v for row in x for v in row])


def tensors(m):
    t = np.empty((m.shape[1], 3, 3))
    t[:, 0, 0], t[:, 1, 1], t[:, 2, 2] = m[0], m[1], m[2]
    t[:, 0, 1] = t[:, 1, 0] = m[3] / R2
    t[:, 0, 2] = t[:, 2, 0] = m[4] / R2
    t[:, 1, 2] = t[:, 2, 1] = m[5] / R2
    return t


def structure(plan, ctx, batches):
    for c, bs in enumerate(batches):
        for b in bs:
            if not b.shape[1]:
                continue
            ctx.check(np.isfinite(b).all(), 'not-finite', lambda: 'call %d returned a tensor that is not finite: %s'
                      % (c, b[:, np.argmax(~np.isfinite(b).all(0))].tolist()))
            norm = np.sqrt((b ** 2).sum(0))
            j = int(np.argmax(np.abs(norm - 1)))
            ctx.check(abs(norm[j] - 1) < 1e-9, 'norm', lambda: 'call %d, sample %d: the six-vector has norm %.12g' % (c, j, norm[j]))
            want = {'dc': [1, 0, -1], 'clvd': [2, -1, -1], 'type': plan.get('diag')}.get(plan['kind'])
            if want is None or not np.any(want):
                continue
            e = np.linalg.eigvalsh(tensors(b))
            w = np.sort(np.array(want, dtype=float))
            w /= np.sqrt((w ** 2).sum())
            err = np.abs(e - w).max(1)
            if plan['kind'] == 'clvd':
                err = np.minimum(err, np.abs(e - np.sort(-w)).max(1))
            j = int(np.argmax(err))
            ctx.maximum('eigenvalue error', err[j])
            ctx.check(err[j] < 1e-7, 'pattern', lambda: 'call %d, sample %d: eigenvalues %s are not the %s pattern' % (c, j, e[j].tolist(), plan['kind']))


def ks(x, cdf=None):
    """sqrt(n) times the Kolmogorov distance of x from the given distribution (uniform on [0,1] by default)."""
    x = np.sort(np.asarray(x))
    n = len(x)
    u = x if cdf is None else cdf(x)
    i = np.arange(n)
    return math.sqrt(n) * max(np.max((i + 1.0) / n - u), np.max(u - i / float(n)))


def scan(ctx, plan, name, value, limit, n):
    ctx.evaluations += 1
    ctx.maximum('%s statistic / threshold' % ('KS' if limit == ZKS else 'z'), abs(value) / limit)
    if not abs(value) < limit:
        ctx.fail('distribution', '%s over %d sources: statistic %.2f exceeds %.1f' % (name, n, value, limit))


def independence(plan, ctx, batches):
    """No source twice; neighbours (in a call, across calls and across events) uncorrelated."""
    flat = np.concatenate([b for bs in batches for b in bs], axis=1)
    n = flat.shape[1]
    if n < 2 or (plan['kind'] == 'type' and len(set(plan['diag'])) == 1):
        return
    u = np.unique(np.round(flat, 12), axis=1).shape[1]
    ctx.check(u == n, 'repeated', lambda: '%d of %d sources are repetitions of others' % (n - u, n))
    if n < 1000:
        return

    def corr(name, a, b):
        m = a.shape[1]
        if m < 500:
            return
        for f, tag in ((lambda x: x, ''), (lambda x: x * x, ' squared')):
            x, y = f(a), f(b)
            x = x - x.mean(1, keepdims=True)
            y = y - y.mean(1, keepdims=True)
            sx, sy = np.sqrt((x * x).mean(1)), np.sqrt((y * y).mean(1))
            ok = (sx > 1e-9)[:, None] & (sy > 1e-9)[None, :]
            z = np.where(ok, x.dot(y.T) / m / np.where(ok, np.outer(sx, sy), 1), 0) * math.sqrt(m)
            scan(ctx, plan, 'correlation of %s%s' % (name, tag), float(np.abs(z).max()), ZN, m)
    seq = np.concatenate([bs[0] for bs in batches], axis=1)
    for lag in (1, 2, 3):
        if seq.shape[1] > lag:
            corr('sources %d apart' % lag, seq[:, :-lag], seq[:, lag:])
    if len(batches[0]) > 1:
        other = np.concatenate([bs[1] for bs in batches], axis=1)
        corr('two events', seq, other)
    if plan['n'] > 1 and plan['calls'] > 50:
        # lag by position in the batch: the last of a call against the first of the next
        first = np.array([bs[0][:, 0] for bs in batches]).T
        last = np.array([bs[0][:, -1] for bs in batches]).T
        corr('first sources of consecutive calls', first[:, :-1], first[:, 1:])
        corr('last and next first source', last[:, :-1], first[:, 1:])


def statistics(plan, ctx, batches):
    for e in range(len(batches[0])):
        b = np.concatenate([bs[e] for bs in batches], axis=1)
        n = b.shape[1]
        if n < 500:
            continue
        {'mt': stat_mt, 'dc': stat_axes, 'clvd': stat_clvd, 'type': stat_type}[plan['kind']](plan, ctx, b, n)
        if plan['calls'] >= 500:
            # every position within a call has the same distribution
            f = np.array([bs[e][:, 0] for bs in batches]).T
            {'mt': stat_mt, 'dc': stat_axes, 'clvd': stat_clvd, 'type': stat_type}[plan['kind']](plan, ctx, f, f.shape[1])


def directions(plan, k, dim):
    r = np.random.Generator(np.random.PCG64(plan['seed'] ^ 0xd1))
    v = r.standard_normal((k, dim))
    v /= np.sqrt((v ** 2).sum(1))[:, None]
    return np.concatenate([np.eye(dim), v])


def stat_mt(plan, ctx, b, n):
    from scipy.stats import beta
    # the projection of a uniform point of the unit 6-sphere on any direction
    for v in directions(plan, 6, 6):
        t = v.dot(b)
        scan(ctx, plan, 'projection of full tensors on %s' % np.round(v, 2).tolist(), ks((t + 1) / 2, lambda x: beta.cdf(x, 2.5, 2.5)), ZKS, n)
    scan(ctx, plan, 'mean of full tensors', float(np.abs(b.mean(1)).max() * math.sqrt(6 * n)), ZN, n)
    c = b.dot(b.T) / n - np.eye(6) / 6
    scan(ctx, plan, 'second moments of full tensors', float(np.abs(c).max() * math.sqrt(n) / math.sqrt(3 / 48. - 1 / 36.)), ZN, n)
    # source type: lune longitude ~ cos(3 gamma), latitude beta ~ sin(beta)^4
    ev = np.linalg.eigvalsh(tensors(b))[:, ::-1]
    g = np.arctan2(-ev[:, 0] + 2 * ev[:, 1] - ev[:, 2], math.sqrt(3) * (ev[:, 0] - ev[:, 2]))
    d = np.arcsin(np.clip(ev.sum(1) / math.sqrt(3) / np.sqrt((ev ** 2).sum(1)), -1, 1))
    scan(ctx, plan, 'lune longitude of full tensors', ks(g, lambda x: (1 + np.sin(3 * x)) / 2), ZKS, n)
    scan(ctx, plan, 'lune latitude of full tensors', ks(d, lambda x: 0.5 + (12 * x + 8 * np.sin(2 * x) + np.sin(4 * x)) / (12 * math.pi)), ZKS, n)
    orientation(plan, ctx, b, n, 'full tensors')


def stat_axes(plan, ctx, b, n):
    orientation(plan, ctx, b, n, 'double-couples')


def stat_type(plan, ctx, b, n):
    d = sorted(plan['diag'])
    span = d[2] - d[0]
    if span > 0.05 and min(d[1] - d[0], d[2] - d[1]) > 0.02:
        orientation(plan, ctx, b, n, 'tensors with eigenvalues %s' % d)


def orientation(plan, ctx, b, n, what):
    """Every axis is uniform on the sphere and, given one axis, the others are uniform about it."""
    w, vec = np.linalg.eigh(tensors(b))
    dirs = directions(plan, 3, 3)
    for k, name in ((0, 'P'), (1, 'B'), (2, 'T')):
        ax = vec[:, :, k]
        for v in dirs:
            scan(ctx, plan, '%s axis of %s along %s' % (name, what, np.round(v, 2).tolist()), ks(np.minimum(np.abs(ax.dot(v)), 1)), ZKS, n)
        az = np.arctan2(ax[:, 1], ax[:, 0]) % math.pi
        scan(ctx, plan, 'azimuth of the %s axis of %s' % (name, what), ks(az / math.pi), ZKS, n)
    for k, o in ((0, 2), (2, 0), (1, 2)):
        t, p = vec[:, :, k], vec[:, :, o]
        for v in dirs[[2, 3]]:
            e1 = np.cross(t, v)
            e1 /= np.sqrt((e1 ** 2).sum(1))[:, None]
            e2 = np.cross(t, e1)
            ang = np.arctan2((p * e2).sum(1), (p * e1).sum(1)) % math.pi
            # the sign of t is arbitrary, which maps the angle to pi - angle: keep the folded angle
            ang = np.minimum(ang, math.pi - ang)
            scan(ctx, plan, 'rotation of %s about an axis' % what, ks(ang / (math.pi / 2)), ZKS, n)
            # ... and not related to the direction of the axis itself
            x = np.cos(2 * ang)
            y = np.abs(t.dot(v))
            z = ((x - x.mean()) * (y - y.mean())).mean() / (x.std() * y.std()) * math.sqrt(n)
            scan(ctx, plan, 'dependence of the rotation on the axis, %s' % what, z, ZN, n)
    # rotation-invariance of the tensor itself: second moments of the deviatoric components
    t = tensors(b)
    for v in dirs:
        for u in dirs:
            if abs(u.dot(v)) < 1e-9:
                q = np.einsum('nij,i,j->n', t, u, v)
                s = q.std()
                if s > 1e-9:
                    scan(ctx, plan, 'sign of a tensor component of %s' % what, q.mean() / s * math.sqrt(n), ZN, n)


def stat_clvd(plan, ctx, b, n):
    w, vec = np.linalg.eigh(tensors(b))
    pos = np.abs(w[:, 2]) > np.abs(w[:, 0])
    ax = np.where(pos[:, None], vec[:, :, 2], vec[:, :, 0])
    for v in directions(plan, 4, 3):
        scan(ctx, plan, 'symmetry axis of CLVDs', ks(np.minimum(np.abs(ax.dot(v)), 1)), ZKS, n)
        y = np.abs(ax.dot(v))
        s = pos - 0.5
        scan(ctx, plan, 'dependence of CLVD sign on axis', (s * (y - y.mean())).mean() / (0.5 * y.std()) * math.sqrt(n), ZN, n)
    scan(ctx, plan, 'azimuth of CLVD axes', ks((np.arctan2(ax[:, 1], ax[:, 0]) % math.pi) / math.pi), ZKS, n)
    scan(ctx, plan, 'sign of CLVDs', (pos.mean() - 0.5) * 2 * math.sqrt(n), ZN, n)
    s = pos - 0.5
    for lag in (1, 2, 3):
        scan(ctx, plan, 'sign of CLVDs %d apart' % lag, (s[:-lag] * s[lag:]).mean() * 4 * math.sqrt(n), ZN, n)
