"""C06: proposals of the real chain classes and the adaptation of their widths."""
import math

from sim import chain, core, refchain as R, seams

LEVEL = 'exploration'
RUNS = {'quick': 1600, 'thorough': 40000}
CAP_S = {'quick': 110, 'thorough': 700}
RUN_WALL_S = 90
RULE = ('a case is a chain configuration (all four chain classes, 1..3 events, widths, model-jump settings, compiled extensions present, absent or '
        'failing) with one of: many proposals from scheduler-chosen or walked states, each mapped through the distribution function of the truncated '
        'Gaussian that the acceptance rule assumes; proposals under scripted normal and uniform draws aimed at the bounds; a history of '
        'learning-window acceptance rates fed to the width adaptation, through iterate() or directly; non-trivial when it proposed or adapted at least 10 times')
REAL = ['MTfit.algorithms.markov_chain_monte_carlo (new_sample, iterate, width adaptation, conversion)',
        'MTfit.algorithms.cmarkov_chain_monte_carlo (new_samples, convert_sample)', 'MTfit.convert.moment_tensor_conversion (Tape_MT33, MT33_MT6)']
STUB = ['the forward model (log-likelihoods are chosen by the scheduler)', 'np.random.rand while a proposal is accepted or rejected',
        'np.random.rand/randn in scripted runs', 'entropy, clock and gc.collect']
STATE_MEASURE = 'hash of (mode, class, events, dc, extension mode, kinds of states visited, kinds of proposals met, sign pattern of width changes)'
ASSUMPTIONS = ['statistical limits are chosen for a false-alarm probability below 1e-9 per statistic',
               'reflect_* options and the basic crack-plus-double-couple model are not examined']
KS_MAX = 3.6            # sqrt(n) D; exceeded with probability about 1e-11
Z_MAX = 7.0


def setup(scratch):
    chain.setup()
    global np, ndtr
    np = chain.np
    from scipy.special import ndtr as _n
    ndtr = _n


def gen(rng, tier, index):
    cfg = chain.gen_config(rng)
    plan = {'cfg': cfg, 'seed': rng.getrandbits(32)}
    mode = rng.choice(['dist', 'script', 'script', 'adapt', 'rates', 'rates'])
    plan['mode'] = mode
    if mode == 'dist':
        if 'tries' in cfg and cfg['ext'] == 'c':
            cfg['tries'] = rng.choice([20, 400, 1000])
            cfg['min_rate'] = 0.0009
        # joint proposals come one by one
        fast = cfg['ext'] == 'c' and 'tries' in cfg and cfg.get('events', 1) == 1
        plan['draws'] = {'quick': 30000 if fast else 6000 if 'tries' in cfg else 3000, 'thorough': 120000 if fast else 24000}[tier]
        plan['states'] = [[rng.getrandbits(30), rng.choice(['mid', 'mid', 'edge', 'dc', 'walk'])] for _ in range(rng.choice([1, 6, 20]))]
    elif mode == 'script':
        plan['steps'] = [[rng.getrandbits(30), rng.choice(['mid', 'edge', 'edge', 'dc'])] for _ in range(rng.choice([5, 20]))]
    elif mode == 'adapt':
        cfg['window'] = rng.choice([1, 2, 3, 5, 10])
        plan['target'] = [rng.choice([0, 0, 1, 1, rng.random()]) for _ in range(rng.choice([3, 8, 20]))]
        plan['length'] = rng.choice([10 ** 9, 10 ** 9, 5, 20])
    else:
        n = rng.choice([1, 4, 12, 60])
        style = rng.choice(['any', 'extreme', 'low', 'high', 'zero', 'one'])
        plan['rates'] = []
        for _ in range(n):
            w = rng.choice([1, 2, 7, 100])
            a = {'any': rng.randint(0, w), 'extreme': rng.choice([0, w]), 'low': rng.choice([0, min(1, w), w // 10]),
                 'high': rng.choice([w, max(0, w - 1)]), 'zero': 0, 'one': w}[style]
            if rng.random() < 0.1:
                a = rng.randint(0, w)
            plan['rates'].append([a, w])
    if mode in ('dist', 'script') and cfg['ext'] == 'c' and 'tries' in cfg and cfg.get('gauss', 1) and rng.random() < 0.15:
        plan['fail'] = 1
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('proposals', 0) >= 10 or ctx.probes.get('adaptations', 0) >= 3


def shrink(plan):
    for p in core.shrink_candidates(plan, ('cfg', 'draws')):
        yield p
    for k, v in (('events', 1), ('events', 2), ('creator', 0), ('tries', 2), ('tries', 1)):
        if k in plan['cfg'] and plan['cfg'][k] != v and not (k == 'events' and plan['cfg'][k] < v):
            yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))


def run(plan, ctx):
    seams.seed_all(plan['seed'])
    cfg = plan['cfg']
    absent = seams.ALL_EXT if cfg['ext'] == 'py' else set()
    if absent:
        ctx.fault('compiled extensions absent')
    wrap = None
    if plan.get('fail'):
        st = {'calls': 0, 'fail_at': set(), 'fired': 0, 'exc': RuntimeError, 'always': True, 'only': ('new_samples',)}
        absent = {'cmarkov_chain_monte_carlo'}

        def wrap(name, mod):
            return seams.Failing(name, mod, st)
    src = chain.AcceptSource()
    with seams.extensions(absent, wrap), src.installed(), np.errstate(all='ignore'):
        {'dist': dist, 'script': script, 'adapt': adapt, 'rates': rates}[plan['mode']](plan, ctx, src)
    if wrap:
        ctx.fault('compiled extension call raises', st['fired'])


def widths(rng, events):
    out = []
    for _ in range(events):
        s = rng.choice([1.0, 1.0, 0.4, 0.1, 0.01, 1e-4])
        out.append({k: min(1.0, s * rng.choice([1.0, rng.uniform(0.2, 1)])) for k in R.KEYS})
    return out


def seq(mt):
    return mt if isinstance(mt, list) else [mt]


def check_proposals(ctx, d, xis, mts, stats=None):
    """Domain, conversion and model of every proposal of the current batch; collects what the statistics need."""
    ref = d.ref
    tries = d.tries()
    mts = seq(mts)
    for e in range(d.E):
        M = np.asarray(mts[e], dtype=float)
        ctx.check(M.ndim == 2 and M.shape == (6, len(tries)), 'shape', lambda: 'event %d: %d proposals but moment tensors of shape %s' % (e, len(tries), M.shape))
        xi = xis[e]
        for t in range(len(tries)):
            x = tries[t][e]
            ctx.probe('proposals')
            for k, (lo, hi) in R.BOUNDS.items():
                if not lo <= x[k] <= hi:
                    ctx.fail('domain', 'proposed %s = %r outside [%r, %r] (state %s, %s)' % (k, x[k], lo, hi, xi, d.cfg['cls']))
            if not 0 <= x['kappa'] < 2 * math.pi:
                ctx.fail('domain', 'proposed strike %r outside [0, 2 pi) (state %s)' % (x['kappa'], xi))
            m = M[:, t]
            if not abs(float(m @ m) - 1) < 1e-9:
                ctx.fail('norm', 'the tensor of %s has norm %r' % (x, math.sqrt(float(m @ m))))
            if stats is None or t < 40:
                w = R.mt6(x)
                if max(abs(float(a) - b) for a, b in zip(m, w)) > 1e-9:
                    ctx.fail('conversion', '%s was converted to %s, expected %s' % (x, [float(v) for v in m], w))
            was, now = R.is_dc(xi), R.is_dc(x)
            if ref['dc'] and not now:
                ctx.fail('dc', 'a double-couple chain proposed %s' % x)
            if ref['transd']:
                jumped = was != now
                if jumped and any(x[k] != xi[k] for k in ('kappa', 'h', 'sigma')):
                    ctx.fail('jump', 'a model jump changed the orientation: %s -> %s' % (xi, x))
                if jumped:
                    ctx.probe('jumps up' if was else 'jumps down')
    ctx.evaluations += len(tries)
    return tries


class Stats(object):
    def __init__(self):
        self.u = {}
        self.jumps = [0, 0]

    def add(self, d, xis, alphas, tries):
        ref = d.ref
        cols = {}
        for e in range(d.E):
            X = {k: np.array([t[e][k] for t in tries]) for k in R.KEYS}
            xi, a = xis[e], alphas[e]
            now = (X['gamma'] == 0) & (X['delta'] == 0)
            was = R.is_dc(xi)
            stay = np.ones(len(tries), bool)
            if ref['transd']:
                stay = now == was
                self.jumps[0] += int((~stay).sum())
                self.jumps[1] += len(tries)
            for k in R.KEYS:
                if k in ('gamma', 'delta') and (ref['dc'] or was and ref['transd']):
                    continue
                m, s = xi[k], a[k]
                x = X[k][stay]
                if k == 'kappa':
                    dx = np.mod(x - m + math.pi, 2 * math.pi) - math.pi
                    u = sum(ndtr((dx + 2 * math.pi * j) / s) - ndtr((-math.pi + 2 * math.pi * j) / s) for j in (-2, -1, 0, 1, 2))
                else:
                    lo, hi = R.BOUNDS[k]
                    if (m - lo) > (hi - m):         # integrate from the nearer tail
                        u = 1 - self.below((2 * m - x), m, s, 2 * m - hi, 2 * m - lo)
                    else:
                        u = self.below(x, m, s, lo, hi)
                self.u.setdefault('event %d %s' % (e, k), []).append(u)
                if stay.all():
                    cols[e, k] = u
            if ref['transd'] and was and ref['gauss']:
                for k, s in (('gamma', ref['sg']), ('delta', ref['sd'])):
                    lo, hi = R.BOUNDS[k]
                    self.u.setdefault('event %d balancing %s' % (e, k), []).append(self.below(X[k][~stay], 0.0, s, lo, hi))
        if cols and len(tries) > 1:
            for (i, j) in cols:
                self.u.setdefault('!lag event %d %s' % (i, j), []).append(12 * (cols[i, j][1:] - 0.5) * (cols[i, j][:-1] - 0.5))
        keys = sorted(cols)
        for p in range(len(keys)):
            for q in range(p):
                self.u.setdefault('!%s x %s' % (keys[p], keys[q]), []).append(12 * (cols[keys[p]] - 0.5) * (cols[keys[q]] - 0.5))

    @staticmethod
    def below(x, m, s, lo, hi):
        return (ndtr((x - m) / s) - ndtr((lo - m) / s)) / (ndtr((hi - m) / s) - ndtr((lo - m) / s))

    def judge(self, ctx, d):
        for k in sorted(self.u):
            v = np.concatenate(self.u[k])
            n = len(v)
            if k.startswith('!'):
                if n < 200:
                    continue
                z = abs(float(v.mean())) * math.sqrt(n)
                ctx.maximum('correlation z', z)
                ctx.check(z < Z_MAX, 'dependence', lambda: 'proposals are correlated (%s): z = %.2f over %d proposals' % (k[1:], z, n))
                continue
            if n < 50:
                continue
            for deg in range(1, 7):         # components of the density along the Legendre polynomials
                f = np.polynomial.legendre.Legendre.basis(deg, domain=[0, 1])(v) * math.sqrt(2 * deg + 1)
                z = abs(float(f.mean())) * math.sqrt(n)
                lim = Z_MAX + 4 * deg / math.sqrt(n)
                ctx.maximum('Legendre component z', z)
                ctx.check(z < lim, 'distribution', lambda: '%s: proposals do not follow the truncated Gaussian of the acceptance rule: component %d of the '
                          'mapped density is %.4f over %d proposals (z = %.2f), class %s, extensions %s, widths %s'
                          % (k, deg, f.mean(), n, z, d.cfg['cls'], d.cfg['ext'], d.alphas()))
            v = np.sort(v)
            i = np.arange(n)
            D = float(max(((i + 1) / n - v).max(), (v - i / n).max()))
            ks = D * math.sqrt(n)
            ctx.maximum('KS sqrt(n) D', ks)
            ctx.check(ks < KS_MAX, 'distribution', lambda: '%s: proposals do not follow the truncated Gaussian of the acceptance rule: D = %.4f over %d '
                      'proposals (sqrt(n) D = %.2f), class %s, extensions %s, widths %s' % (k, D, n, ks, d.cfg['cls'], d.cfg['ext'], d.alphas()))
        if self.jumps[1] > 50:
            p = d.cfg.get('jump', 0.2)
            z = abs(self.jumps[0] - p * self.jumps[1]) / math.sqrt(max(1e-9, self.jumps[1] * p * (1 - p)))
            ctx.maximum('jump frequency z', z)
            ctx.check(z < Z_MAX + 3 / math.sqrt(max(0.1, self.jumps[1] * min(p, 1 - p))), 'jump-frequency', lambda: '%d of %d proposals jumped between the '
                      'models with jump probability %r' % (self.jumps[0], self.jumps[1], p))


def dist(plan, ctx, src):
    cfg = plan['cfg']
    d = chain.Driver(cfg, ctx, src)
    st = Stats()
    per = max(1, plan['draws'] // max(1, len(plan['states'])))
    d.alg.initialise()
    r0 = chain.rng_of(plan['seed'], 'start')
    d.set_widths(widths(r0, d.E))
    kinds = set()
    for s, kind in plan['states']:
        rng = chain.rng_of(plan['seed'], s)
        if rng.random() < 0.5:
            d.set_widths(widths(rng, d.E))
        if kind != 'walk' or not kinds:
            ks = ['dc' if kind == 'dc' and d.ref['transd'] else 'edge' if kind == 'edge' else 'mid' for _ in range(d.E)]
            d.teleport([chain.random_state(rng, k, d.ref) for k in ks], 0.0)
        kinds.add(kind)
        got = 0
        while got < per:
            if kind == 'walk' and got:
                # accept whatever was proposed: the next batch starts from a state the chain itself stored
                d.alg.ln_likelihood_xi = R.NEG
                d.step([0.0] * len(d.tries()), 0.0)
                xis, alphas = d.state(), d.alphas()
                mts = d.alg.convert_sample(d.alg.xi_1) if not isinstance(d.alg.xi_1, list) and d.E == 1 else None
                tries = d.tries()
                if mts is None:
                    mts = d.alg.new_sample()
            else:
                mts = d.alg.new_sample()
            xis, alphas = d.state(), d.alphas()
            ctx.steps += 1
            tries = check_proposals(ctx, d, xis, mts, st)
            st.add(d, xis, alphas, tries)
            got += len(tries)
    ctx.state('dist', cfg['cls'], d.E, d.ref['dc'], cfg['ext'], tuple(sorted(kinds)), tuple(sorted(st.u)))
    ctx.trace('dist %d' % ctx.probes.get('proposals', 0))
    st.judge(ctx, d)


def script(plan, ctx, src):
    """Normal and uniform draws chosen to land on, next to and beyond the bounds."""
    cfg = plan['cfg']
    d = chain.Driver(cfg, ctx, src)
    ref = d.ref
    d.alg.initialise()
    r0 = chain.rng_of(plan['seed'], 'start')
    for s, kind in plan['steps']:
        rng = chain.rng_of(plan['seed'], s)
        d.set_widths(widths(rng, d.E))
        ks = [kind if kind in ('mid', 'edge') or ref['transd'] else 'mid' for _ in range(d.E)]
        xs = [chain.random_state(rng, k, ref) for k in ks]
        d.teleport(xs, 0.0)
        alphas = d.alphas()
        sc = seams.Scripted([rng.choice([0.0, 1 - 2.0 ** -53, rng.random(), 0.5]) for _ in range(rng.choice([0, 3, 10]))],
                            [draw(rng, xs[rng.randrange(d.E)], alphas[rng.randrange(d.E)]) for _ in range(rng.choice([5, 20, 60]))])
        with sc:
            mts = d.alg.new_sample()
        ctx.fault('scripted draws', len(sc.log))
        xis = d.state()
        ctx.check(xis == xs, 'state-changed', lambda: 'making a proposal changed the current state from %s to %s' % (xs, xis))
        tries = check_proposals(ctx, d, xis, mts)
        ctx.trace('script %s' % ([{k: '%.12g' % v for k, v in t.items()} for t in tries[0]],))
        ctx.state('script', cfg['cls'], d.E, ref['dc'], cfg['ext'], kind, tuple(R.is_dc(x) for x in tries[0]))
        ctx.steps += 1
    del r0


def draw(rng, x, a):
    """A standard normal that moves some coordinate of x to a bound, just past it, or across the strike wrap."""
    k = rng.choice(list(R.KEYS) + ['kappa'])
    if k == 'kappa':
        to = rng.choice([0.0, -1e-300, -1e-17, -1e-16, 1e-17, 2 * math.pi, math.nextafter(2 * math.pi, 0), -2 * math.pi, 4 * math.pi, 7.0, -0.5,
                         2 * math.pi * rng.randint(-3, 3)])
    else:
        lo, hi = R.BOUNDS[k]
        to = rng.choice([lo, hi, math.nextafter(lo, -9), math.nextafter(hi, 9), lo - 1e-9, hi + 1e-9, lo - 0.3, hi + 0.3])
    z = (to - x[k]) / a[k]
    return rng.choice([z, z, rng.gauss(0, 1), rng.choice([-1, 1]) * rng.choice([0.0, 1e-18, 8.0])])


WIDTHS = R.KEYS + ('gamma_dc', 'delta_dc')


def check_widths(ctx, d, before, info):
    mx = d.alg.max_alpha
    pattern = []
    for e, (a, b) in enumerate(zip(d.alphas(), before)):
        for k in b:
            if k not in a:
                ctx.fail('width-lost', 'event %d: the width of %s is gone after adaptation (%s)' % (e, k, info))
        for k, v in a.items():
            if k == 'proposal_normalisation':
                continue
            if not (v > 0 and math.isfinite(v)):
                ctx.fail('width-not-positive', 'event %d: width of %s became %r (was %r; %s)' % (e, k, v, b.get(k), info))
            if k in mx and v > mx[k] * (1 + 1e-12) and not v <= b.get(k, 0):
                ctx.fail('width-above-maximum', 'event %d: width of %s raised to %r, maximum %r (was %r; %s)' % (e, k, v, mx[k], b.get(k), info))
            pattern.append((v > b.get(k, v)) - (v < b.get(k, v)))
        if 'proposal_normalisation' in a:
            w = R.mass(0, a['gamma_dc'], -R.G, R.G) * R.mass(0, a['delta_dc'], -R.D, R.D)
            ctx.check(abs(a['proposal_normalisation'] - w) < 1e-9, 'normalisation', lambda: 'event %d: balancing draw normalised with %r, its widths give %r'
                      % (e, a['proposal_normalisation'], w))
    ctx.evaluations += 1
    return tuple(pattern)


def rates(plan, ctx, src):
    """Acceptance rates fed straight to the adaptation."""
    cfg = plan['cfg']
    d = chain.Driver(cfg, ctx, src)
    d.alg.initialise()
    r0 = chain.rng_of(plan['seed'], 'w')
    if r0.random() < 0.6:
        d.set_widths(widths(r0, d.E))
    d.teleport([chain.random_state(r0, 'mid', d.ref) for _ in range(d.E)], 0.0)
    hist = []
    for a, w in plan['rates']:
        before = d.alphas()
        w = max(1, int(w))
        a = min(int(a), w)
        d.alg._learning_accepted = [1] * a + [0] * (w - a)
        d.alg._modify_acceptance_rate()
        hist.append('%d/%d' % (a, w))
        p = check_widths(ctx, d, before, 'window rates so far %s' % hist[-12:])
        ctx.probe('adaptations')
        ctx.steps += 1
        ctx.state('rates', cfg['cls'], d.E, p, a == 0, a == w)
        xis = d.state()
        check_proposals(ctx, d, xis, d.alg.new_sample())
        if a == 0 or a == w:
            ctx.fault('learning window accepted nothing' if a == 0 else 'learning window accepted everything')
    ctx.trace('rates %s %s' % (hist, sorted(d.alphas()[0].items())))


def adapt(plan, ctx, src):
    """The same through iterate(), by accepting or rejecting each batch."""
    cfg = plan['cfg']
    d = chain.Driver(cfg, ctx, src, learning_length=max(1, int(plan['length'])))
    d.alg.initialise()
    rng = chain.rng_of(plan['seed'], 'h')
    d.set_widths(widths(rng, d.E))
    d.teleport([chain.random_state(rng, 'mid', d.ref) for _ in range(d.E)], 0.0)
    mts = d.alg.new_sample()
    w = refwindow(cfg)
    for target in plan['target']:
        for _ in range(w):
            xis, before = d.state(), d.alphas()
            tries = check_proposals(ctx, d, xis, mts, Stats())
            m = len(tries)
            if rng.random() < target:
                d.alg.ln_likelihood_xi = R.NEG
                lnls = [0.0] * m
            else:
                lnls = [R.NEG] * m
            if not d.alg.learning_check():
                return
            mts, end = d.step(lnls, 0.0)
            p = check_widths(ctx, d, before, 'window of %d, target rate %r' % (w, target))
            if any(p):
                ctx.probe('adaptations')
                ctx.state('adapt', cfg['cls'], d.E, p, target == 0, target == 1)
            if not d.alg.learning_check() or end:
                return
            if isinstance(mts, list) and not mts:
                return
    ctx.trace('adapt %s' % (sorted(d.alphas()[0].items()),))


def refwindow(cfg):
    return max(1, int(cfg.get('window') or 1))
