"""C07: a Markov-chain run records a correctly counted chain of states with their likelihoods, and the chain samples the posterior."""
import copy
import math
import os

from sim import chain, core, events, model, mp, posterior, refchain as R, seams

LEVEL = 'exploration'
RUNS = {'quick': 3200, 'thorough': 40000}
CAP_S = {'quick': 200, 'thorough': 850}
RUN_WALL_S = 400
RULE = ('a case is a chain configuration (class, events, constraint, priors, learning and chain length, acceptance window, initialisation) and '
        'either a history of accepted and rejected batches chosen by the scheduler (with allocation failures and failing accelerators), a whole '
        'Markov-chain inversion of a simulated event (forward task, serial or simulated parallel front end), or a long chain on a posterior '
        'whose moments are known; non-trivial when a finished chain was compared entry by entry, or its moments with the posterior')
REAL = ['MTfit.algorithms.markov_chain_monte_carlo (creator, the four chain classes, grid initialisation) and its compiled code',
        'MTfit.sampling.Sample', 'MTfit.inversion: Inversion, McMCForwardTask, MultipleEventsMcMCForwardTask, ForwardTask, JobPool and workers',
        'MTfit.probability (compiled and Python)']
STUB = ['the forward model in scripted histories and posterior runs', 'np.random.rand while a scripted proposal is accepted or rejected',
        'multiprocessing (simulated processes and queues)', 'entropy, clock, gc.collect', 'result files (Inversion.output is recorded instead)']
STATE_MEASURE = 'hash of (mode, class, events, dc, initialisation, learning class, kind of the end, share of repeats, double-couple share class)'
ASSUMPTIONS = ['chains that do not finish within a bound of iterations are not judged at the end (only while running)',
               'moments are compared by batch means with a two-stage threshold of six standard errors; smaller biases are not seen']


def setup(scratch):
    from props import c01
    c01.setup(scratch)
    chain.setup()
    global np, inversion, SCRATCH, M
    np, M = chain.np, chain.M
    SCRATCH = scratch
    import traceback
    import warnings
    traceback.print_exc = lambda *a, **k: None
    warnings.simplefilter('ignore')
    from MTfit import inversion


# ---- plans

def gen(rng, tier, index):
    if index < len(posterior.FIXED):
        return dict(posterior.FIXED[index], mode='posterior')
    r = rng.random()
    if r < (0.008 if tier == 'quick' else 0.02):
        return dict(posterior.gen(rng, tier), mode='posterior')
    if r < 0.80:
        return gen_history(rng)
    return gen_real(rng)


def gen_history(rng):
    cfg = chain.gen_config(rng)
    cfg['window'] = rng.choice([1, 2, 3, 5, 10, 100])
    n = rng.choice([2, 4, 8, 15, 30, 60])
    pat = rng.choice(['mixed', 'mixed', 'mixed', 'accept', 'reject', 'late', 'bits'])
    p = {'mixed': rng.uniform(0.1, 0.9), 'accept': 1, 'reject': 0, 'late': 0.05, 'bits': 0.5}[pat]
    steps = [[rng.getrandbits(30), rng.choice(['accept', 'accept', 'free']) if rng.random() < p else rng.choice(['zero', 'low', 'low', 'free'])]
             for _ in range(n)]
    plan = {'mode': 'history', 'cfg': cfg, 'seed': rng.getrandbits(32), 'steps': steps, 'learning': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]),
            'chain': rng.choice([1, 2, 3, 5, 8, 13, 20, 40]), 'init': rng.choice(['random', 'random', 'grid']),
            'grid_n': rng.choice([1, 3, 10, 50]), 'grid_min': rng.choice([0, 1, 5, 20, 100]), 'grid_zero': rng.choice([0, 0.3, 0.9, 0.99]),
            'grid_filter': int(rng.random() < 0.5), 'start_zero': int(rng.random() < 0.15), 'normalise': int(rng.random() < 0.5),
            'convert': int(rng.random() < 0.15), 'memory': rng.choice([None] * 9 + [rng.randrange(1, n + 1)])}
    if cfg['ext'] == 'c' and rng.random() < 0.2:
        plan['fail'] = rng.choice([sorted(rng.sample(range(1, 4 * n), rng.choice([1, 3]))), list(range(2, 4 * n)), list(range(2, 4 * n, 2))])
    return plan


def gen_real(rng):
    cfg = chain.gen_config(rng, events=(1,))
    front = rng.choice(['task', 'front', 'front', 'pool'])
    joint = front != 'task' and rng.random() < 0.3
    cfg['events'] = rng.choice([2, 2, 3]) if joint else 1
    count = cfg['events'] if joint else 1 if front == 'task' else rng.choice([1, 1, 2, 3])
    loc = False if joint else None
    evs = [events.gen_event(rng, 'e%d' % i, locations=loc, stations=rng.choice([1, 2, 3, 5, 8])) for i in range(count)]
    for e in evs:
        for t in e['types']:        # errors for which a chain moves
            if t['error'] in ('zero', 'tiny'):
                t['error'] = 'mid'
    return {'mode': 'real', 'front': front, 'joint': int(joint), 'cfg': cfg, 'seed': rng.getrandbits(32), 'sched_seed': rng.getrandbits(32),
            'events': evs, 'learning': rng.choice([0, 1, 3, 10, 25]), 'chain': rng.choice([1, 5, 20, 60, 150]), 'init': rng.choice(['grid', 'grid', 'random']),
            'grid_n': rng.choice([5, 30, 100]), 'grid_min': rng.choice([0, 20, 150]), 'cpus': rng.choice([2, 3]), 'locfile': int(rng.random() < 0.8),
            'policy': rng.choice(['random', 'pct', 'sticky'])}


def valid(plan):
    if plan['mode'] == 'history':
        return plan['chain'] >= 1 and plan['grid_n'] >= 1
    if plan['mode'] == 'real':
        from props import c01
        return plan['events'] and plan['chain'] >= 1 and plan['grid_n'] >= 1 and plan['cpus'] and \
            c01.valid({'event': plan['events'][0], 'more': plan['events'][1:], 'mode': 'x'}) and \
            (not plan['joint'] or len(plan['events']) == plan['cfg']['events'])
    return True


def nontrivial(plan, ctx):
    return ctx.probes.get('chains compared', 0) > 0 or ctx.probes.get('moments compared', 0) > 0


SHRINK_SKIP = ('cfg', 'dseed')


def shrink(plan):
    for p in core.shrink_candidates(plan, SHRINK_SKIP):
        yield p
    for k, v in (('events', 1), ('events', 2), ('creator', 0), ('tries', 2), ('tries', 1), ('window', 100)):
        if k in plan['cfg'] and plan['cfg'][k] != v and not (k == 'events' and (plan['cfg'][k] < v or plan.get('joint'))):
            yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))


def run(plan, ctx):
    if not valid(plan):
        return
    seams.seed_all(plan['seed'])
    absent = seams.ALL_EXT if plan['cfg']['ext'] == 'py' else set()
    if absent:
        ctx.fault('compiled extensions absent')
    wrap, st = None, {'calls': 0, 'fired': 0}
    if plan.get('fail') is not None:
        absent = {'cmarkov_chain_monte_carlo'}
        st = {'calls': 0, 'fail_at': set(plan['fail']), 'fired': 0, 'exc': RuntimeError,
              'only': ('new_samples', 'acceptance_check', 'me_acceptance_check')}

        def wrap(name, mod):
            return seams.Failing(name, mod, st)
    with seams.extensions(absent, wrap), np.errstate(all='ignore'):
        if plan['mode'] == 'posterior':
            posterior.run(plan, ctx)
        elif plan['mode'] == 'real':
            real(plan, ctx)
        else:
            src = chain.AcceptSource()
            with src.installed():
                history(plan, ctx, src)
    if st['fired']:
        ctx.fault('compiled extension call raises', st['fired'])


# ---- the reference chain

class Reference(object):
    """What a run must have recorded, given what happened to every tried proposal."""

    def __init__(self, learning, length):
        self.learning, self.length = learning, length
        self.cur = None
        self.k = self.tried = self.accepted = 0
        self.entries = []

    def one(self, accepted):
        if self.k < self.learning:
            self.k += accepted
            return
        if not self.entries:
            self.entries.append(self.cur)
        self.entries.append(self.cur)
        self.tried += 1
        self.accepted += accepted

    def batch(self, outcome, tries, lnls):
        for _ in range(len(tries) if outcome is None else outcome):
            self.one(0)
        if outcome is not None:
            self.cur = (tries[outcome], lnls[outcome])
            self.one(1)

    @property
    def finished(self):
        return self.k >= self.learning and self.tried >= self.length


def near(a, b, tol=1e-9):
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))


def sixes(out, E):
    if E == 1:
        return [np.asarray(out['moment_tensor_space'])]
    return [np.asarray(out['moment_tensor_space_%d' % (i + 1)]) for i in range(E)]


def judge_output(ctx, what, out, ref, E, transd, dc, normalised=False):
    """Compare the output dictionary of a finished (or interrupted) chain with the reference."""
    ctx.check(out['total_number_samples'] == ref.tried, 'tried', lambda: '%s: reports %r tried proposals after learning, %d were tried' % (
        what, out['total_number_samples'], ref.tried))
    ctx.check(out['accepted'] == ref.accepted, 'accepted', lambda: '%s: reports %r accepted proposals, %d were accepted' % (
        what, out['accepted'], ref.accepted))
    rate = ref.accepted / float(ref.tried)
    ctx.check(near(float(out['acceptance_rate']), rate), 'rate', lambda: '%s: acceptance rate %r, %d of %d were accepted' % (
        what, out['acceptance_rate'], ref.accepted, ref.tried))
    ents = [e for e in ref.entries if e[1] > R.NEG]     # the store keeps no zero-probability entry
    dropped = len(ref.entries) - len(ents)
    if not ents:
        ctx.check(not np.size(out['probability']), 'entries', lambda: '%s: entries for a chain without likelihood' % what)
        return
    mts = sixes(out, E)
    ln = np.asarray(getattr(out['ln_pdf'], '_ln_pdf', out['ln_pdf']), float).reshape(-1)
    pr = np.asarray(out['probability'], float).reshape(-1)
    for m in mts:
        ctx.check(m.shape == (6, len(ents)), 'entries', lambda: '%s: %s entries, expected %d for %d tried proposals (%d of zero likelihood)' % (
            what, m.shape, len(ents), ref.tried, dropped))
    ctx.check(ln.size == len(ents) == pr.size, 'entries', lambda: '%s: %d log-probabilities and %d probabilities for %d entries' % (what, ln.size, pr.size, len(ents)))
    want = np.array([e[1] for e in ents])
    bad = np.argwhere(~((ln == want) | (np.abs(ln - want) <= 1e-9 * np.maximum(1, np.abs(want))))).ravel()
    ctx.check(not bad.size, 'likelihood', lambda: '%s: entry %d has log-likelihood %r, its source was evaluated at %r' % (what, bad[0], ln[bad[0]], want[bad[0]]))
    for e in range(E):
        exp = np.array([R.mt6(x[0][e]) for x in ents]).T
        d = np.abs(mts[e] - exp).max(0)
        bad2 = np.argwhere(d > 1e-7).ravel()
        ctx.check(not bad2.size, 'entries', lambda: '%s: entry %d of event %d is %s, the chain was at %s' % (
            what, bad2[0], e, mts[e][:, bad2[0]].tolist(), exp[:, bad2[0]].tolist()))
        if dc:
            off = np.argwhere(dcness(mts[e]) > 1e-6).ravel()
            ctx.check(not off.size, 'not-dc', lambda: '%s: entry %d of a double-couple constrained chain is not a double-couple' % (what, off[0]))
    # the probabilities are the (normalised) exponentials of the log-likelihoods
    sel = want > want.max() - 600
    if normalised:
        ref_p = np.exp(want[sel] - want.max())
        got = pr[sel] / pr[sel].max()
        ctx.check(np.all(np.abs(got - ref_p) <= 1e-6 * np.maximum(ref_p, 1e-12) + 1e-300), 'probability', lambda: '%s: probabilities are not proportional to the likelihoods' % what)
    elif abs(want.max()) < 600:
        w = np.exp(want[sel])
        ctx.check(np.all(np.abs(pr[sel] - w) <= 1e-6 * w), 'probability', lambda: '%s: probabilities are not the likelihoods' % what)
    if transd:
        got = out['pDC']
        got = [float(g) for g in got] if isinstance(got, list) else [float(got)]
        for e in range(E):
            a = sum(R.is_dc(x[0][e]) for x in ref.entries) / float(len(ref.entries))
            b = sum(R.is_dc(x[0][e]) for x in ents) / float(len(ents))
            ctx.check(near(got[e], a) or near(got[e], b), 'pDC', lambda: '%s: reports the double-couple fraction %r for event %d, %r of the entries are double-couple' % (what, got[e], e, a))
            ctx.probe('double-couple fractions strictly inside (0, 1)', int(0 < a < 1))
    ctx.probe('chains compared')
    ctx.probe('entries compared', len(ents))
    ctx.evaluations += len(ents)
    if dropped:
        ctx.probe('zero-likelihood entries', dropped)


def dcness(m):
    """Distance of unit tensors (6, n) from double-couple: trace and determinant."""
    r2 = math.sqrt(2)
    a, b, c, d, e, f = m[0], m[1], m[2], m[3] / r2, m[4] / r2, m[5] / r2
    det = a * (b * c - f * f) - d * (d * c - f * e) + e * (d * f - b * e)
    return np.maximum(np.abs(a + b + c), np.abs(det))


# ---- histories chosen by the scheduler

def grid_phase(plan, ctx, d, mts):
    """Feed the initialiser; returns the evaluated samples (per event) with a non-zero probability."""
    alg, E = d.alg, d.E
    seen = [[] for _ in range(E)]
    for it in range(200):
        if alg.xi_1 is not None:
            break
        rng = chain.rng_of(plan['seed'], 'grid', it)
        batch = mts if E > 1 else [mts]
        results = []
        for e, m in enumerate(batch):
            m = np.asarray(m)
            n = m.shape[1]
            ln = np.array([R.NEG if rng.random() < plan['grid_zero'] else rng.choice([rng.uniform(-50, 0), rng.uniform(-1e3, 1e3), -3.0]) for _ in range(n)])
            if it > 20:
                ln[rng.randrange(n)] = rng.uniform(-5, 0)
            keep = ln > R.NEG
            seen[e] += [m[:, i].copy() for i in range(n) if keep[i]]
            if plan['grid_filter']:         # what a forward task without zero samples returns
                ln, m = (ln[keep], m[:, keep]) if keep.any() else (np.matrix([]), np.matrix([]))
            results.append({'moment_tensors': m, 'ln_pdf': chain.LnPDF(np.asarray(ln).reshape(1, -1)), 'n': n})
        mts, end = alg.iterate(results if E > 1 else results[0])
        ctx.steps += 1
        ctx.check(not end, 'early-end', 'the chain ended during its initialisation')
        ctx.probe('initialisation batches')
    ctx.check(alg.xi_1 is not None, 'no-progress', 'still initialising after 200 batches, most of them with non-zero samples')
    return seen, mts


def history(plan, ctx, src):
    cfg = plan['cfg']
    extra = {'learning_length': plan['learning'], 'chain_length': plan['chain']}
    if plan['init'] == 'grid':
        extra.update(initial_sample='grid', number_samples=plan['grid_n'], min_number_initialisation_samples=plan['grid_min'])
        if cfg.get('creator') and not cfg['cls'].startswith('multi'):
            extra['min_number_initialisation_samples'] = 10001
    d = chain.Driver(cfg, ctx, src, **extra)
    E, ref = d.E, d.ref
    mem = {'at': plan.get('memory'), 'calls': 0, 'hit': False}
    real_new = d.alg.new_sample

    def new_sample(*a, **k):
        mem['calls'] += 1
        if mem['calls'] == mem['at']:
            mem['hit'] = True
            raise MemoryError('injected')
        return real_new(*a, **k)
    d.alg.new_sample = new_sample
    mts, end = d.alg.initialise()
    ctx.check(not end, 'early-end', 'the chain ended at its initialisation')
    if plan['init'] == 'grid':
        seen, mts = grid_phase(plan, ctx, d, mts)
        for e, x in enumerate(d.state(d.alg.xi_1)):
            m = np.array(R.mt6(x))
            ok = any(np.abs(s - m).max() < 1e-5 for s in seen[e])
            ctx.check(ok, 'start', lambda: 'the chain starts event %d from %s, which is none of the evaluated initialisation samples of non-zero probability' % (e, x))
    chainref = Reference(plan['learning'], plan['chain'])
    chainref.cur = (d.state(), R.NEG)
    for n, (s, kind) in enumerate([[0, 'start']] + plan['steps']):
        rng = chain.rng_of(plan['seed'], s, n)
        xis, L = chainref.cur
        alphas, tries = d.alphas(), d.tries()
        if min(a[k] for a in alphas for k in R.KEYS) < 1e-30:
            ctx.probe('histories left when rejections alone had shrunk the widths below 1e-30')
            break
        given = np.asarray(mts if E > 1 else [mts])
        for e in range(E):
            g = np.asarray(given[e]).reshape(6, -1)
            exp = np.array([R.mt6(t[e]) for t in tries]).T
            ctx.check(g.shape == exp.shape and np.abs(g - exp).max() < 1e-7, 'task', lambda: 'the sources sent to the forward model are not the proposals')
        m = len(tries)
        base = L if L > R.NEG else rng.uniform(-20, 20)
        lnls = []
        for t in range(m):
            if kind == 'start':
                lnls.append(R.NEG if plan['start_zero'] else base)
            elif kind == 'zero':
                lnls.append(R.NEG)
            elif kind == 'low':
                lnls.append(rng.choice([R.NEG, base - rng.uniform(50, 400)]))
            elif kind == 'accept':
                lnls.append(rng.choice([R.NEG, base + rng.uniform(-5, 30), base + rng.uniform(-5, 5), 0.0]))
            else:
                lnls.append(rng.choice([base + rng.gauss(0, 2), base - rng.uniform(0, 10), R.NEG]))
        for t in range(m):      # a proposal equal to another or to the current state has its likelihood
            same = tries.index(tries[t])
            lnls[t] = L if tries[t] == xis and L > R.NEG else lnls[same]
        if kind == 'accept' and all(v == R.NEG for v in lnls):
            t = tries.index(tries[rng.randrange(m)])
            v = base + rng.uniform(-5, 5)
            lnls = [v if x == tries[t] else y for x, y in zip(tries, lnls)]
        us = [0.0] if kind == 'accept' else [1 - 2.0 ** -53] if kind == 'low' else [rng.random(), rng.random(), rng.random()]
        how = d.how()
        want = 'ambiguous'
        for u in us:
            if ref['transd'] and not ref['gauss']:      # the reported density of a uniform balancing draw is a known finding of C05
                res = [d.expect(xis, alphas, tries, lnls, L, u, h)[0] for h in (how, 'reported')]
                want = res[0] if res[0] == res[1] else 'ambiguous'
            else:
                want = d.expect(xis, alphas, tries, lnls, L, u, how)[0]
            if want != 'ambiguous':
                break
        if want == 'ambiguous':
            lnls, want, u = [R.NEG] * m, None, us[-1]
            if any(t == xis for t in tries):
                break
        mts, end = d.step(lnls, u)
        chainref.batch(want, tries, lnls)
        ctx.trace('%d %s accept %s tried %d entries %d' % (n, kind, want, chainref.tried, len(chainref.entries)))
        got, gotL = d.state(), float(d.alg.ln_likelihood_xi)
        if not (got == chainref.cur[0] and near(gotL, chainref.cur[1])):
            ctx.fail('state', 'step %d (%s): the chain is at %s with log-likelihood %r, the accepted history leads to %s with %r' % (
                n, kind, got, gotL, chainref.cur[0], chainref.cur[1]))
        ctx.evaluations += 1
        if mem['hit']:
            ctx.fault('allocation failure while proposing')
            break
        ctx.check(bool(end) == chainref.finished, 'end', lambda: 'step %d: %d of %d proposals accepted in learning and %d tried of a chain of %d, but the run %s' % (
            n, chainref.k, chainref.learning, chainref.tried, chainref.length, 'ended' if end else 'goes on'))
        if end:
            break
    ctx.state('history', cfg['cls'], E, ref['dc'], plan['init'], min(3, plan['learning']), mem['hit'], chainref.finished,
              int(4 * chainref.accepted / max(1, chainref.tried)), chainref.k < chainref.learning)
    if not chainref.entries:
        return
    out, text = d.alg.output(bool(plan['normalise']), bool(plan['convert']), 0)
    judge_output(ctx, 'history', out, chainref, E, ref['transd'], ref['dc'], bool(plan['normalise']))
    if plan['convert'] and any(e[1] > R.NEG for e in chainref.entries):
        n = sixes(out, E)[0].shape[1]
        for k in ('g', 'd', 'k', 'h', 's'):
            for e in range(E):
                key = k if E == 1 else '%s_%d' % (k, e + 1)
                ctx.check(key in out and np.size(out[key]) == n, 'converted', lambda: 'converted parameter %s is missing or has the wrong length' % key)


# ---- whole runs with the real forward model

class Watch(object):
    """Follows a real chain inside a run: which try of every batch was taken, and what must have been recorded."""
    LIMIT = 1500

    def __init__(self, alg, kwargs, ctx, log):
        self.alg, self.ctx = alg, ctx
        d = chain.Driver.__new__(chain.Driver)
        d.alg, d.E = alg, alg.number_events
        self.d = d
        self.E = alg.number_events
        self.ref = Reference(int(kwargs['learning_length']), int(kwargs['chain_length']))
        self.steps = 0
        self.abandoned = False
        real_iterate = alg.iterate

        def iterate(result):
            return self.step(real_iterate, result)
        alg.iterate = iterate
        log.append(self)

    def step(self, real_iterate, result):
        alg, d, ctx = self.alg, self.d, self.ctx
        self.steps += 1
        if self.steps > self.LIMIT:
            self.abandoned = True
            alg._initialiser = False
            return [], True
        if alg.xi_1 is None:        # grid initialisation
            return real_iterate(result)
        before, tries = d.state(), d.tries()
        L = float(alg.ln_likelihood_xi)
        if self.ref.cur is None:
            self.ref.cur = (before, R.NEG)
        ln = np.asarray(getattr(result['ln_pdf'], '_ln_pdf', result['ln_pdf']), float).reshape(-1)
        lnls = [float(v) for v in ln]
        ctx.check(len(lnls) == len(tries), 'task', lambda: '%d log-likelihoods for %d proposals' % (len(lnls), len(tries)))
        out = real_iterate(result)
        after, La = d.state(), float(alg.ln_likelihood_xi)
        took = [t for t, x in enumerate(tries) if x == after and near(lnls[t], La)]
        if took and La > R.NEG:     # also a proposal equal to the current state: it is always accepted
            # jumps to the double-couple can be identical: the number of recorded entries tells which of them was taken
            t = int(alg._tried) - self.ref.tried - 1
            took = t if t in took and self.ref.k >= self.ref.learning else took[0]
        elif after == before and near(L, La):
            took = None
        else:
            ctx.fail('state', 'after a batch of %d proposals the chain is at %s (log-likelihood %r), neither where it was nor at a proposal' % (len(tries), after, La))
        self.ref.batch(took, tries, lnls)
        ctx.steps += 1
        ctx.check(bool(out[1]) == self.ref.finished, 'end', lambda: '%d accepted in learning (of %d), %d tried of a chain of %d, but the run %s' % (
            self.ref.k, self.ref.learning, self.ref.tried, self.ref.length, 'ended' if out[1] else 'goes on'))
        return out


def real(plan, ctx):
    from props import c01
    cfg = plan['cfg']
    ref = chain.refcfg(cfg)
    made = [events.make_event(e) for e in plan['events']]
    datas = [m[0] for m in made]
    multi = cfg['cls'].startswith('multi')
    kw = {'learning_length': plan['learning'], 'chain_length': plan['chain'], 'acceptance_rate_window': max(1, cfg['window']),
          'min_acceptance_rate': cfg['min_rate'], 'max_acceptance_rate': cfg['max_rate'], 'sampling_prior': cfg['prior'],
          'initial_sample': plan['init'], 'min_number_initialisation_samples': plan['grid_min']}
    if ref['transd']:
        kw.update(dimension_jump_prob=cfg['jump'], dc_prior=ref['dc_prior'], dc_sigma_g=ref['sg'], dc_sigma_d=ref['sd'], gaussian_jump_params=ref['gauss'])
    log, taken = [], []
    creator = inversion.MarkovChainMonteCarloAlgorithmCreator

    def make(**k):
        for key in ('learning_length', 'chain_length', 'dimension_jump_prob', 'dc_prior'):
            ctx.check(key not in kw or k[key] == kw[key], 'settings', lambda: 'the chain is made with %s %r, asked for %r' % (key, k.get(key), kw[key]))
        alg = creator(**k)
        Watch(alg, k, ctx, log)
        return alg
    with seams.patched(inversion, MarkovChainMonteCarloAlgorithmCreator=make):
        if plan['front'] == 'task':
            data, locs, weights, _ = made[0]
            args, ip = c01.matrices(data, locs)
            kw.update(number_events=1, dc=ref['dc'], trans_dimensional=ref['transd'], mode='metropolis_hastings',
                      number_samples=plan['grid_n'] if multi or plan['init'] == 'grid' else 0)
            res = inversion.McMCForwardTask(kw, *args, incorrect_polarity_prob=ip, fid='f', event_data=data, location_samples=locs,
                                            location_sample_multipliers=weights, normalise=False)()
            taken.append((res['event_data'], res['fid'], res['algorithm_output_data'], log[-1]))
            ctx.check(res['event_data'] is data, 'event', 'the result carries other event data')
        else:
            front(plan, ctx, kw, made, datas, ref, log, taken)
    ctx.recheck()
    if any(w.abandoned for w in log):
        ctx.probe('chains abandoned at the iteration bound')
        return
    for event, fid, out, w in taken:
        E = w.E
        ids = [d['UID'] for d in datas]
        group = [made[ids.index(e['UID'])] for e in (event if isinstance(event, list) else [event])]
        ctx.check(len(group) == E, 'event', 'the output is for %d events, the chain for %d' % (len(group), E))
        what = '%s %s' % (plan['front'], '+'.join(g[0]['UID'] for g in group))
        ctx.check(w.ref.finished, 'end', what + ': the output was made before the chain ended')
        judge_output(ctx, what, out, w.ref, E, ref['transd'], ref['dc'])
        likelihoods(ctx, what, w.ref, group, E)
        ctx.trace('%s tried %d accepted %d' % (what, w.ref.tried, w.ref.accepted))
        ctx.state('real', plan['front'], cfg['cls'], E, ref['dc'], plan['init'], min(3, plan['learning']), bool(group[0][1]), int(4 * w.ref.accepted / max(1, w.ref.tried)))


def likelihoods(ctx, what, ref, group, E):
    """Every recorded entry carries the likelihood of exactly that source: recomputed independently."""
    ents = [e for e in ref.entries if e[1] > R.NEG]
    uniq, seen = [], set()
    for e in ents:
        k = core.derive(repr(e))
        if k not in seen:
            seen.add(k)
            uniq.append(e)
    uniq = uniq[:60]
    if not uniq:
        return
    lo = hi = 0
    for i in range(E):
        data, locs, weights, _ = group[i]
        mts = np.array([R.mt6(e[0][i]) for e in uniq]).T
        a, b, _ = model.ln_event(data, mts, locs, weights if locs else None, None)
        if locs:
            a, b = model.marginal(a, b)
        a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
        lo, hi = lo + a, hi + b
    got = np.array([e[1] for e in uniq])
    slack = 1e-5 * np.maximum(1, np.abs(got))       # the reference tensor is rounded differently
    ok = ((got >= lo - slack) & (got <= hi + slack)) | (lo < -600)
    sharp = np.abs(hi - lo) < 1e-3
    if not ok.all():
        # a steep likelihood magnifies the rounding of the tensor: judge again on the neighbourhood
        for j in np.argwhere(~ok).ravel():
            l2, h2 = neighbourhood(uniq[j], group, E)
            ok[j] = l2 - slack[j] <= got[j] <= h2 + slack[j]
    ctx.probe('likelihoods recomputed', int(sharp.sum()))
    if not ok.all():
        j = int(np.argwhere(~ok).ravel()[0])
        ctx.fail('likelihood', '%s: entry at %s carries log-likelihood %r, the data give between %r and %r' % (what, uniq[j][0], got[j], lo[j], hi[j]))


def neighbourhood(entry, group, E):
    lo = hi = 0.0
    r = events.pcg(1)
    for i in range(E):
        data, locs, weights, _ = group[i]
        m = np.array(R.mt6(entry[0][i]))[:, None] + np.hstack([np.zeros((6, 1)), r.normal(0, 1e-13, (6, 40))])
        a, b, _ = model.ln_event(data, m, locs, weights if locs else None, None)
        if locs:
            a, b = model.marginal(a, b)
        lo, hi = lo + float(np.min(a)), hi + float(np.max(b))
    return lo, hi


def front(plan, ctx, kw, made, datas, ref, log, taken):
    from props import c01
    cfg = plan['cfg']
    work = os.path.join(SCRATCH, 'c07-%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    files = False
    if any(m[1] for m in made):
        files = []
        for i, m in enumerate(made):
            fn = ''
            if m[1]:
                fn = os.path.join(work, 'loc%d.scatangle' % i)
                c01.write_scatter(fn, m[1], m[2])
            files.append(fn)
    done = []

    def record(self, event, fid, output_data=False, location_samples=False, location_sample_multipliers=False, *a, **k):
        done.append((copy.deepcopy(event), fid, output_data))

    real_update = inversion.Inversion._update_samples
    size = plan['grid_n'] if cfg['cls'].startswith('multi') or plan['init'] == 'grid' else 0

    def update(self, *a, **k):
        real_update(self, *a, **k)
        self.number_samples = size
        if hasattr(self, 'kwargs'):
            self.kwargs['number_samples'] = size
    kw = dict(kw, data=copy.deepcopy(datas), location_pdf_file_path=files, algorithm='transdmcmc' if ref['transd'] else 'mcmc', dc=ref['dc'],
              path=work, normalise=False, multiple_events=bool(plan['joint']), mode='metropolis_hastings')
    with seams.patched(inversion.Inversion, output=record, _update_samples=update):
        seams.seed_all(plan['seed'])
        if plan['front'] == 'pool':
            with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
                inv = inversion.Inversion(parallel=True, n=plan['cpus'], **kw)
                del log[:]
                guarded(inv, ctx)
            ctx.choices = s.picks
            ctx.probe('context switches', s.switches)
        else:
            inv = inversion.Inversion(parallel=False, **kw)
            del log[:]
            guarded(inv, ctx)
    ids = [d['UID'] for d in datas]
    ctx.recheck()
    if any(w.abandoned for w in log):
        return
    expect = [ids] if plan['joint'] else [[u] for u in ids]
    got = [[e['UID'] for e in (ev if isinstance(ev, list) else [ev])] for ev, _, _ in done]
    ctx.check(sorted(got) == sorted(expect), 'outputs', lambda: 'outputs for %s, expected one for each of %s' % (got, expect))
    # the watch of an output: the one whose finished chain has its first log-likelihoods
    runs = [w for w in log if w.steps]
    ctx.check(len(runs) == len(expect), 'runs', lambda: '%d chains were run for %d outputs' % (len(runs), len(expect)))
    for ev, fid, out in done:
        ctx.check(isinstance(out, dict), 'outputs', 'no output data')
        cand = [w for w in runs if fingerprint(w) == outprint(out)]
        w = cand[0] if cand else runs[0]
        taken.append((ev, fid, out, w))


def guarded(inv, ctx):
    try:
        inv.forward()
    except Exception:
        ctx.recheck()
        raise


def fingerprint(w):
    ents = [e for e in w.ref.entries if e[1] > R.NEG]
    return [round(e[1], 6) for e in ents[:5]] + [len(ents)]


def outprint(out):
    if not np.size(out['probability']):
        return [0]
    ln = np.asarray(getattr(out['ln_pdf'], '_ln_pdf', out['ln_pdf']), float).reshape(-1)
    return [round(float(v), 6) for v in ln[:5]] + [ln.size]
