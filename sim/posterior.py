"""Long real chains on posteriors whose moments are known by direct (random sampling) integration."""
import math

import numpy as np

from sim import chain, core, refchain as R

CHAINS = 8
PER = 4          # batches per chain
Z1 = 6.0
NREF = 200000
NAMES = ('m.a', '(m.a)^2', '(m.b)^2', 'm.c', 'sin delta', '|sin delta|', 'determinant')


def base(**k):
    cfg = {'cls': 'mh', 'events': 1, 'dc': 0, 'prior': 'uniform_prior', 'ext': 'c', 'creator': 0, 'min_rate': 0.3, 'max_rate': 0.5,
           'window': 100, 'tries': 10, 'jump': 0.5, 'dc_prior': 0.5, 'sg': 0.2, 'sd': 0.2, 'gauss': 1}
    cfg.update(k)
    return cfg


FIXED = [
    {'cfg': base(cls='multitransd'), 'seed': 11, 'k': [0], 'cut': 0, 'learning': 200, 'chain': 80000, 'shape': 5},
    {'cfg': base(cls='multi'), 'seed': 12, 'k': [4], 'cut': 0, 'learning': 300, 'chain': 60000, 'shape': 6},
    {'cfg': base(cls='multi', dc=1), 'seed': 13, 'k': [6], 'cut': 1, 'learning': 300, 'chain': 40000, 'shape': 7},
    {'cfg': base(cls='mh'), 'seed': 14, 'k': [8], 'cut': 0, 'learning': 300, 'chain': 10000, 'shape': 8},
    {'cfg': base(cls='transd', jump=0.3), 'seed': 15, 'k': [5], 'cut': 0, 'learning': 200, 'chain': 16000, 'shape': 9},
    {'cfg': base(cls='multitransd', dc_prior=0.2, jump=0.3), 'seed': 16, 'k': [8], 'cut': 0, 'learning': 200, 'chain': 60000, 'shape': 10},
    {'cfg': base(cls='multi', events=2), 'seed': 17, 'k': [5, 2], 'cut': 0, 'learning': 300, 'chain': 40000, 'shape': 11},
    {'cfg': base(cls='multitransd', prior='flat_prior'), 'seed': 18, 'k': [3], 'cut': 0, 'learning': 200, 'chain': 50000, 'shape': 12},
]


def gen(rng, tier):
    cls = rng.choice(['mh', 'transd', 'multi', 'multi', 'multitransd', 'multitransd'])
    transd = 'transd' in cls
    ev = rng.choice([1, 1, 1, 2])
    cfg = base(cls=cls, events=ev, dc=0 if transd else int(rng.random() < 0.35), prior=rng.choice(['uniform_prior', 'uniform_prior', 'flat_prior']),
               ext=rng.choice(['c', 'c', 'py']), tries=rng.choice([3, 10, 30]), jump=rng.choice([0.2, 0.5, 0.8]), dc_prior=rng.choice([0.5, 0.5, 0.2, 0.8]),
               sg=rng.choice([0.1, 0.2, 0.3]), sd=rng.choice([0.2, 0.4]), window=rng.choice([50, 100, 400]), min_rate=rng.choice([0.2, 0.3, 0.4]))
    cfg['max_rate'] = cfg['min_rate'] + rng.choice([0.1, 0.2])
    top = 12 if transd else 20 if cfg['prior'] == 'flat_prior' or cfg['dc'] else 60
    ks = [math.exp(rng.uniform(0, math.log(top))) if rng.random() < 0.9 else 0.0 for _ in range(ev)]
    n = 6000 if cfg['ext'] == 'py' or cls in ('mh', 'transd') else 24000
    return {'cfg': cfg, 'seed': rng.getrandbits(32), 'k': ks, 'cut': int(not transd and rng.random() < 0.25), 'learning': rng.choice([100, 300]),
            'chain': n * (1 if tier == 'quick' else 4), 'shape': rng.getrandbits(32)}


# ---- independent integration

def pcg(*parts):
    return np.random.Generator(np.random.PCG64(core.derive(*parts)))


def unit(v):
    return v / np.sqrt((v ** 2).sum(0))


def tape_mt(g, d, k, h, s):
    """refchain.mt6 for arrays."""
    beta = math.pi / 2 - d
    r2, r3, r6 = math.sqrt(2), math.sqrt(3), math.sqrt(6)
    v = (np.sin(beta) * np.cos(g), np.sin(beta) * np.sin(g), np.cos(beta))
    U = ((r3, -1, r2), (0, 2, r2), (-r3, -1, r2))
    lam = [sum(U[i][j] * v[j] for j in range(3)) / r6 for i in range(3)]
    th = np.arccos(h)
    ck, sk, ct, st, cs, ss = np.cos(k), np.sin(k), np.cos(th), np.sin(th), np.cos(s), np.sin(s)
    n = (-sk * st, ck * st, -ct)
    u = (ck * cs + sk * ct * ss, sk * cs - ck * ct * ss, -st * ss)
    t = [(a + b) / r2 for a, b in zip(n, u)]
    p = [(a - b) / r2 for a, b in zip(n, u)]
    b = (t[1] * p[2] - t[2] * p[1], t[2] * p[0] - t[0] * p[2], t[0] * p[1] - t[1] * p[0])
    M = [[lam[0] * t[i] * t[j] + lam[1] * b[i] * b[j] + lam[2] * p[i] * p[j] for j in range(3)] for i in range(3)]
    return np.array([M[0][0], M[1][1], M[2][2], r2 * M[0][1], r2 * M[0][2], r2 * M[1][2]])


def lune(m):
    r2 = math.sqrt(2)
    n = m.shape[1]
    A = np.empty((n, 3, 3))
    A[:, 0, 0], A[:, 1, 1], A[:, 2, 2] = m[0], m[1], m[2]
    A[:, 0, 1] = A[:, 1, 0] = m[3] / r2
    A[:, 0, 2] = A[:, 2, 0] = m[4] / r2
    A[:, 1, 2] = A[:, 2, 1] = m[5] / r2
    w = np.linalg.eigvalsh(A)[:, ::-1]
    g = np.arctan2(-w[:, 0] + 2 * w[:, 1] - w[:, 2], math.sqrt(3) * (w[:, 0] - w[:, 2]))
    d = np.arcsin(np.clip(w.sum(1) / math.sqrt(3), -1, 1))
    return g, d


def shape(plan, e):
    r = pcg('shape', plan['shape'], e)
    a, b, c, cut = [unit(r.standard_normal((6, 1)))[:, 0] for _ in range(4)]
    if plan['cfg']['dc']:
        a = chain_dc(r)
    return a, b, c, cut


def chain_dc(r):
    return tape_mt(0.0, 0.0, *[np.array([x]) for x in (r.uniform(0, 2 * math.pi), r.uniform(0, 1), r.uniform(-1.5, 1.5))])[:, 0]


def functions(m, sh):
    a, b, c, _ = sh
    r2 = math.sqrt(2)
    x, y, z, d, e, f = m[0], m[1], m[2], m[3] / r2, m[4] / r2, m[5] / r2
    det = x * (y * z - f * f) - d * (d * z - f * e) + e * (d * f - y * e)
    sd = (x + y + z) / math.sqrt(3)
    ma = a @ m
    return np.array([ma, ma ** 2, (b @ m) ** 2, c @ m, sd, np.abs(sd), det])


def ln_like(plan, e, m, sh):
    out = plan['k'][e] * (sh[0] @ m)
    if plan['cut']:
        out = np.where(sh[3] @ m < -0.3, -np.inf, out)
    return out


def vmf(k, a, n, r):
    """n samples of density exp(k a.m) on the unit 5-sphere, and ln of the mean of exp(k a.m)."""
    lo = -1.0 if k < 20 else max(-1.0, 1 - 80.0 / k)
    t = np.linspace(lo, 1, 400001)
    t = (t[1:] + t[:-1]) / 2
    f = (1 - t ** 2) ** 1.5 * np.exp(k * (t - 1))
    c = np.cumsum(f)
    lnZ = math.log(c[-1] * (t[1] - t[0])) + k - math.log(3 * math.pi / 8)
    tt = np.interp(r.random(n) * c[-1], c, t)
    v = r.standard_normal((6, n))
    v -= a[:, None] * (a @ v)
    v = unit(v)
    return a[:, None] * tt + v * np.sqrt(1 - tt ** 2), lnZ


def wmean(f, w):
    p = w / w.sum()
    mean = f @ p
    se = np.sqrt(((f - mean[:, None]) ** 2) @ (p ** 2))
    return mean, se


def integrate(plan, e):
    """Moments by sampling the prior: {model: {prior form: (ln evidence, its standard error, means, standard errors)}}."""
    sh = shape(plan, e)
    r = pcg('ref', plan['shape'], e)
    cfg = plan['cfg']
    out = {}
    transd = 'transd' in cfg['cls']
    if cfg['dc'] or transd:
        m = tape_mt(np.zeros(NREF), np.zeros(NREF), r.uniform(0, 2 * math.pi, NREF), r.uniform(0, 1, NREF), r.uniform(-math.pi / 2, math.pi / 2, NREF))
        w = np.exp(ln_like(plan, e, m, sh))
        mean, se = wmean(functions(m, sh), w)
        z = (math.log(w.mean()), w.std() / w.mean() / math.sqrt(NREF), mean, se)
        out['dc'] = {'exact': z, 'reported': z}
    if not cfg['dc']:
        k = plan['k'][e]
        if cfg['prior'] == 'flat_prior':
            m = tape_mt(r.uniform(-math.pi / 6, math.pi / 6, NREF), r.uniform(-math.pi / 2, math.pi / 2, NREF), r.uniform(0, 2 * math.pi, NREF),
                        r.uniform(0, 1, NREF), r.uniform(-math.pi / 2, math.pi / 2, NREF))
            w = np.exp(ln_like(plan, e, m, sh))
            mean, se = wmean(functions(m, sh), w)
            z = (math.log(w.mean()), w.std() / w.mean() / math.sqrt(NREF), mean, se)
            out['mt'] = {'exact': z, 'reported': z}
        else:
            m, lnZ = vmf(k, sh[0], NREF, r)
            keep = np.isfinite(ln_like(plan, e, m, sh))
            f = functions(m, sh)
            g, d = lune(m)
            t = (d + math.pi / 2) / math.pi
            ratio = math.exp(R.LN_BETA) * (t * (1 - t)) ** (R.B - 1) / math.pi * R.NORM / (8 / (3 * math.pi) * np.cos(d) ** 4)
            out['mt'] = {}
            for form, w in (('exact', keep * 1.0), ('reported', keep * ratio)):
                mean, se = wmean(f, w)
                out['mt'][form] = (lnZ + math.log(w.mean()), w.std() / w.mean() / math.sqrt(NREF), mean, se)
    return out


_cache = {}


def reference(plan):
    key = repr((plan['shape'], plan['k'], plan['cut'], sorted(plan['cfg'].items())))
    if key not in _cache:
        if len(_cache) > 20:
            _cache.clear()
        cfg = plan['cfg']
        out = []
        for e in range(len(plan['k'])):
            i = integrate(plan, e)
            res = {}
            for form in ('exact', 'reported'):
                if 'transd' in cfg['cls']:
                    zd, sd, fd, ed = i['dc'][form]
                    zm, sm, fm, em = i['mt'][form]
                    lo = math.log(cfg['dc_prior'] / (1 - cfg['dc_prior'])) + zd - zm
                    p = 1 / (1 + math.exp(-lo))
                    ep = p * (1 - p) * math.hypot(sd, sm)
                    mean = np.append(p * fd + (1 - p) * fm, p)
                    se = np.append(np.sqrt((p * ed) ** 2 + ((1 - p) * em) ** 2 + (ep * (fd - fm)) ** 2), ep)
                else:
                    z, s, mean, se = i['dc' if cfg['dc'] else 'mt'][form]
                res[form] = (mean, se)
            out.append(res)
        _cache[key] = out
    return _cache[key]


# ---- the real chain

def simulate(plan, length, ctx):
    """Entries of CHAINS independent real chains one after the other, per event (6, n)."""
    n = length // CHAINS // PER * PER
    parts = []
    for _ in range(CHAINS):
        parts.append(one(plan, n - 1, ctx))
        if parts[-1] is None:
            return None
    return [np.concatenate([p[e][:, :n] for p in parts], 1) for e in range(len(plan['k']))]


def one(plan, length, ctx):
    cfg = plan['cfg']
    E = len(plan['k'])
    alg = chain.build(cfg, learning_length=plan['learning'], chain_length=length)
    sh = [shape(plan, e) for e in range(E)]
    mts, end = alg.initialise()
    it = 0
    while not end:
        ms = mts if E > 1 else [mts]
        ln = 0.0
        for e in range(E):
            ln = ln + ln_like(plan, e, np.asarray(ms[e]).reshape(6, -1), sh[e])
        n = ln.size
        mts, end = alg.iterate({'ln_pdf': chain.LnPDF(ln.reshape(1, n)), 'moment_tensors': ms if E > 1 else ms[0], 'n': n})
        it += 1
        if it > 10 * length + 6000:
            return None
    ctx.steps += it
    out = alg.output(False, False, 0)[0]
    if E == 1:
        return [np.asarray(out['moment_tensor_space'])]
    return [np.asarray(out['moment_tensor_space_%d' % (e + 1)]) for e in range(E)]


def moments(plan, entries, e):
    m = entries[e]
    f = functions(m, shape(plan, e))
    if 'transd' in plan['cfg']['cls']:
        r2 = math.sqrt(2)
        x, y, z, d, q, g = m[0], m[1], m[2], m[3] / r2, m[4] / r2, m[5] / r2
        det = x * (y * z - g * g) - d * (d * z - g * q) + q * (d * g - y * q)
        f = np.vstack([f, (np.maximum(np.abs(x + y + z), np.abs(det)) < 1e-9) * 1.0])
    b = f.reshape(f.shape[0], CHAINS * PER, -1).mean(2)
    mean = b.mean(1)
    between = b.reshape(f.shape[0], CHAINS, PER).mean(2).std(1, ddof=1) / math.sqrt(CHAINS)
    se = np.maximum(b.std(1, ddof=1) / math.sqrt(CHAINS * PER), between)        # chains that do not mix differ from each other
    var = f.var(1)
    with np.errstate(all='ignore'):
        ess = np.where(se > 0, var / se ** 2, 0)
    return mean, se, ess


def deviations(plan, entries, form, e):
    mean, se, ess = moments(plan, entries, e)
    rm, rs = reference(plan)[e][form]
    s = np.sqrt(se ** 2 + rs ** 2)
    with np.errstate(all='ignore'):
        z = np.where((ess > 150) & (s > 0) & (np.abs(mean - rm) > 1e-9), (mean - rm) / s, 0.0)
    return z, mean, rm, ess


def run(plan, ctx):
    E = len(plan['k'])
    if E != chain.refcfg(plan['cfg'])['events'] or plan['chain'] < 2000:
        return
    names = NAMES + ('double-couple share',)
    entries = simulate(plan, plan['chain'], ctx)
    if entries is None:
        ctx.probe('chains abandoned at the iteration bound')
        return
    again = None
    for e in range(E):
        z, mean, rm, ess = deviations(plan, entries, 'reported', e)
        zx, _, xm, _ = deviations(plan, entries, 'exact', e)
        ctx.probe('moments compared', int((ess > 150).sum()))
        ctx.evaluations += int((ess > 150).sum())
        ctx.maximum('largest deviation of a moment (standard errors)', float(np.max(np.minimum(np.abs(z), np.abs(zx)))))
        ctx.maximum('smallest comparable effect is 6 / sqrt of the effective sample size; largest effective sample size', float(np.max(ess)))
        ctx.trace('event %d z %s' % (e, np.round(z, 3).tolist()))
        bad = [i for i in range(len(z)) if abs(z[i]) > Z1 and abs(zx[i]) > Z1]
        for i in bad:       # look again with an independent, longer chain before saying anything
            if again is None:
                ctx.probe('confirmation chains')
                core_seed = plan['seed'] ^ 0x5bd1e995
                from sim import seams
                seams.seed_all(core_seed)
                again = simulate(plan, 3 * plan['chain'], ctx)
            if again is None:
                break
            z2, mean2, _, ess2 = deviations(plan, again, 'reported', e)
            zx2 = deviations(plan, again, 'exact', e)[0]
            if abs(z2[i]) > Z1 and abs(zx2[i]) > Z1 and z2[i] * z[i] > 0:
                ctx.fail('posterior', 'the mean of %s over a chain of %d is %.5g (%.1f standard errors off) and over an independent chain of %d %.5g '
                         '(%.1f off); weighted random sampling of the prior gives %.5g' % (names[i], plan['chain'], mean[i], z[i], 3 * plan['chain'], mean2[i], z2[i], xm[i]))
        for i in range(len(z)):
            if abs(zx[i]) > Z1 and abs(z[i]) <= Z1:
                ctx.fail('posterior', 'the mean of %s over the chain is %.5g, weighted random sampling of the prior gives %.5g: the chain follows '
                         'the Beta form of the uniform prior' % (names[i], mean[i], xm[i]), key='approximate-uniform-prior')
    ctx.state('posterior', plan['cfg']['cls'], E, plan['cfg']['dc'], plan['cfg']['prior'], plan['cfg']['ext'], plan['cut'], [int(math.log1p(k)) for k in plan['k']])
