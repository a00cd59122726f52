"""C05: acceptance decisions of the real chain classes against an independent statement of detailed balance."""
import math

from sim import chain, core, refchain as R, seams

LEVEL = 'exploration'
RUNS = {'quick': 6000, 'thorough': 120000}
CAP_S = {'quick': 100, 'thorough': 700}
RUN_WALL_S = 60
RULE = ('a case is a chain configuration (single- or multiple-try, trans-dimensional or not, 1..3 events, priors, widths, compiled extensions '
        'present, absent or failing) and either a history of steps, each moving the chain to a scheduler-chosen state (interior, on a bound, '
        'double-couple, zero likelihood), letting the real code propose, and then choosing log-likelihoods and the acceptance draw just above '
        'or below the reference acceptance probability of one try; or a set of state pairs evaluated in both directions through the public '
        'densities; it is non-trivial when at least one decision with an acceptance strictly between 0 and 1 was checked')
REAL = ['MTfit.algorithms.markov_chain_monte_carlo (all four chain classes, creator, priors, iterate)',
        'MTfit.algorithms.cmarkov_chain_monte_carlo (proposals and acceptance)', 'MTfit.probability.LnPDF']
STUB = ['the forward model (log-likelihoods are chosen by the scheduler)', 'np.random.rand while a proposal is accepted or rejected',
        'entropy, clock and gc.collect']
STATE_MEASURE = 'hash of (class, events, dc, prior, extension mode, move kinds of the batch, sign of the decision, decade of the acceptance)'
ASSUMPTIONS = ['a proposal further than about ten widths away is not examined (its proposal density underflows and it cannot be drawn)',
               'within a factor e^3 of a zero of the prior density rounding may decide the acceptance']


def setup(scratch):
    chain.setup()
    global np
    np = chain.np


def gen(rng, tier, index):
    cfg = chain.gen_config(rng)
    plan = {'cfg': cfg, 'seed': rng.getrandbits(32)}
    if rng.random() < 0.3:
        plan['mode'] = 'direct'
        plan['pairs'] = [[rng.getrandbits(30), rng.choice(['shift', 'shift', 'up', 'down'])] for _ in range(rng.choice([4, 12, 30]))]
    else:
        plan['mode'] = 'chain'
        n = rng.choice([3, 8, 20, 40])
        plan['steps'] = [[rng.getrandbits(30), rng.choice(['go', 'go', 'mid', 'edge', 'dc', 'start']),
                          rng.choice(['below', 'above', 'zero', 'one', 'some']), int(rng.random() < 0.35)] for _ in range(n)]
        if cfg['ext'] == 'c' and rng.random() < 0.12 and cfg.get('gauss', 1):
            plan['fail'] = sorted(rng.sample(range(1, 4 * n), rng.choice([1, 3, 8])))
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('strict decisions', 0) > 0


SHRINK_SKIP = ('cfg',)


def shrink(plan):
    for p in core.shrink_candidates(plan, SHRINK_SKIP):
        yield p
    for k, v in (('events', 1), ('events', 2), ('creator', 0), ('tries', 2), ('tries', 1), ('window', 1000)):
        if k in plan['cfg'] and plan['cfg'][k] != v and not (k == 'events' and plan['cfg'][k] < v):
            yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))


def run(plan, ctx):
    seams.seed_all(plan['seed'])
    cfg = plan['cfg']
    absent = seams.ALL_EXT if cfg['ext'] == 'py' else set()
    if cfg['ext'] == 'py':
        ctx.fault('compiled extensions absent')
    wrap = None
    if plan.get('fail') is not None:
        absent = {'cmarkov_chain_monte_carlo'}
        st = {'calls': 0, 'fail_at': set(plan['fail']), 'fired': 0, 'exc': RuntimeError,
              'only': ('new_samples', 'acceptance_check', 'me_acceptance_check')}     # the calls that have a fallback

        def wrap(name, mod):
            return seams.Failing(name, mod, st)
    src = chain.AcceptSource()
    with seams.extensions(absent, wrap), src.installed(), np.errstate(all='ignore'):
        if plan['mode'] == 'direct':
            direct(plan, ctx, src)
        else:
            history(plan, ctx, src)
    if wrap and st['fired']:
        ctx.fault('compiled extension call raises', st['fired'])


def widths(rng, events):
    out = []
    for _ in range(events):
        s = rng.choice([1.0, 1.0, 0.3, 0.05, 0.004])
        out.append({k: min(1.0, s * rng.choice([1.0, rng.uniform(0.2, 1)])) for k in R.KEYS})
    return out


def history(plan, ctx, src):
    cfg = plan['cfg']
    d = chain.Driver(cfg, ctx, src)
    d.set_widths(widths(chain.rng_of(plan['seed'], 'w'), d.E))
    d.alg.initialise()
    r0 = chain.rng_of(plan['seed'], 'start')
    d.teleport([chain.random_state(r0, 'mid', d.ref) for _ in range(d.E)], 0.0)
    d.alg.new_sample()
    for n, st in enumerate(plan['steps']):
        step(plan, ctx, d, n, chain.rng_of(plan['seed'], st[0]), st[1], st[2], st[3])


def move(xs, xis, ref):
    kinds = []
    for x, xi in zip(xs, xis):
        a, b = R.is_dc(xi), R.is_dc(x)
        kinds.append('dc' if (a and b) or ref['dc'] else 'mt' if not (a or b) else 'up' if a else 'down')
    return tuple(sorted(kinds))


def step(plan, ctx, d, n, rng, kind, target, craft):
    ref = d.ref
    L = rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-1e3, 1e3), 1e6, -1e8])
    if kind != 'go':
        ks = []
        for _ in range(d.E):
            k = 'dc' if kind == 'dc' and ref['transd'] else kind if kind in ('mid', 'edge') else rng.choice(['mid', 'edge', 'mid'])
            if ref['transd'] and kind in ('start', 'dc') and rng.random() < 0.4:
                k = rng.choice(['dc', 'mid'])
            ks.append(k)
        if kind == 'start':
            L = R.NEG
            ctx.fault('zero-likelihood start')
        d.teleport([chain.random_state(rng, k, ref) for k in ks], L)
        d.alg.new_sample()
    else:
        L = float(d.alg.ln_likelihood_xi)
        if L == R.NEG:
            L = 0.0
            d.alg.ln_likelihood_xi = 0.0
    xis, alphas, tries = d.state(), d.alphas(), d.tries()
    if craft and not any(R.is_dc(x) and not ref['dc'] for t in tries for x in t) and not (ref['transd'] and any(R.is_dc(x) for x in xis)):
        for t in range(len(tries)):
            for e in range(d.E):
                if rng.random() < 0.7:
                    y = chain.nearby(rng, xis[e], alphas[e], ref['dc'])
                    if not ref['dc'] and R.is_dc(y):
                        continue
                    d.replace_try(t, e, y)
        tries = d.tries()
        ctx.fault('proposal moved to a scheduler-chosen state')
    how = d.how()
    m = len(tries)
    # log-likelihoods: one chosen try decides, the others are random
    tt = rng.randrange(m)
    base = L if L != R.NEG else rng.uniform(-10, 10)
    lnls = []
    for t in range(m):
        c = rng.random()
        if c < 0.15:
            lnls.append(R.NEG)
        elif c < 0.25:
            lnls.append(base)
        elif c < 0.3:
            lnls.append(0.0)
        else:
            rt = R.ln_accept(tries[t], xis, alphas, 0.0, 0.0, ref, how)
            raw = [R.ln_ratio(x, xi, a, ref, how) for x, xi, a in zip(tries[t], xis, alphas)]
            s = sum(raw) if all(v is not None and math.isfinite(v) for v in raw) else 0.0
            goal = rng.choice([rng.uniform(-3, 0), rng.uniform(-30, 0), rng.uniform(-600, 3), rng.uniform(-2, 3)])
            lnls.append(base - s + goal if rt is not None else R.NEG)
    if lnls[tt] == R.NEG:
        lnls[tt] = base - rng.uniform(0, 4)
    lnls = [v if v == R.NEG or math.isfinite(v) else R.NEG for v in lnls]
    # never leave it to the code how a try with an undefined acceptance is treated
    for t in range(m):
        if R.ln_accept(tries[t], xis, alphas, lnls[t], L, ref, how) is None:
            lnls[t] = R.NEG
    a = R.ln_accept(tries[tt], xis, alphas, lnls[tt], L, ref, how)
    flip = rng.choice([1e-6, 1e-4, 0.05])
    us = []
    if a is not None and R.NEG < a < 0 and a > -650:
        us += [math.exp(a) * (1 - flip)] if target == 'below' else [math.exp(a) * (1 + flip)] if target == 'above' else []
    us += [0.0] if target == 'zero' else [1 - 2.0 ** -53] if target == 'one' else []
    us += [rng.random() for _ in range(4)]
    us = [u for u in us if 0 <= u < 1]
    hows = [how] if ref['gauss'] else [how, 'reported']
    u = exp = None
    for c in us:
        res = [d.expect(xis, alphas, tries, lnls, L, c, h) for h in hows]
        if all(x[0] != 'ambiguous' for x in res):
            u, exp = c, res
            break
    if u is None:
        ctx.probe('ambiguous steps')
        d.step([R.NEG] * m, 0.5)
        return
    want, need = exp[0]
    d.step(lnls, u)
    got = d.state()
    gotL = float(d.alg.ln_likelihood_xi)

    def outcome(w):
        return (xis, L) if w is None else (tries[w], lnls[w])

    def same(w):
        xs, ll = outcome(w)
        return xs == got and (ll == gotL or abs(ll - gotL) <= 1e-9 * abs(ll))
    ctx.trace('%d %s want %s u %.6g' % (n, kind, want, u))
    mv = sorted(set(move(t, xis, ref) for t in tries))
    if a is not None and R.NEG < a < 0:
        ctx.probe('strict decisions')
        ctx.state(d.cfg['cls'], d.E, ref['dc'], ref['prior'], d.cfg['ext'], tuple(mv), want is None, int(max(-20, a / 2.3)))
    for k in mv:
        ctx.probe('moves ' + '+'.join(k))
    if same(want):
        ctx.evaluations += 1
        if want is None or not same(None):
            ctx.check(d.source.served >= need, 'draws', lambda: 'step %d: %d uniform draws for %d tries with an acceptance strictly between 0 and 1'
                      % (n, d.source.served, need))
        return
    info = describe(d, n, xis, tries, lnls, L, u, want, got, gotL, ref, alphas, how)
    if len(hows) > 1 and exp[0][0] != exp[1][0] and same(exp[1][0]):
        ctx.fail('balance', info, key='uniform-balancing-draw')
        return
    if L == R.NEG and want is not None:
        ctx.fail('stuck-start', info)
    if any(t == got and lnls[i] == R.NEG for i, t in enumerate(tries)) and got != xis:
        ctx.fail('zero-likelihood-accepted', info)
    ctx.fail('balance', info)


def describe(d, n, xis, tries, lnls, L, u, want, got, gotL, ref, alphas, how):
    i = next((i for i, t in enumerate(tries) if t == got), None)
    acc = []
    for t, ll in list(zip(tries, lnls))[:8]:
        a = R.ln_accept(t, xis, alphas, ll, L, ref, how)
        acc.append(None if a is None else math.exp(a))
    return ('step %d of a %s chain (%d event(s), %s, dc=%s, extensions %s): state %s, log-likelihood %r; reference acceptance probabilities of the '
            'tries %s, uniform draw %r; try %s should have been taken, the chain took %s (state now %s, log-likelihood %r)'
            % (n, d.cfg['cls'], d.E, ref['prior'], ref['dc'], d.cfg['ext'], xis, L, acc, u, want, i, got, gotL))


# ------------------------------------------------------------- public densities, both directions

def direct(plan, ctx, src):
    cfg = dict(plan['cfg'])
    cfg['cls'] = {'multi': 'mh', 'multitransd': 'transd'}.get(cfg['cls'], cfg['cls'])
    d = chain.Driver(cfg, ctx, src)
    ref = d.ref
    r = chain.rng_of(plan['seed'], 'w')
    d.set_widths(widths(r, d.E))
    alphas = d.alphas()
    offset = {}
    for n, (s, kind) in enumerate(plan['pairs']):
        rng = chain.rng_of(plan['seed'], s)
        xs, ys = [], []
        kinds = []
        for e in range(d.E):
            k = kind if ref['transd'] else 'shift'
            if d.E > 1 and ref['transd'] and rng.random() < 0.5:
                k = rng.choice(['shift', 'up', 'down'])
            x = chain.random_state(rng, rng.choice(['mid', 'edge']), ref)
            if k == 'shift':
                dcs = ref['dc'] or (ref['transd'] and rng.random() < 0.4)
                if dcs:
                    x['gamma'] = x['delta'] = 0.0
                y = chain.nearby(rng, x, alphas[e], dcs)
                if not dcs and R.is_dc(y):
                    y['gamma'] = 0.1
            else:
                y = dict(x)
                dc = x if k == 'up' else y
                dc['gamma'] = dc['delta'] = 0.0
                if k == 'up' and rng.random() < 0.7:      # a typical balancing draw
                    y['gamma'] = min(R.G, max(-R.G, rng.gauss(0, ref['sg'])))
                    y['delta'] = min(R.D, max(-R.D, rng.gauss(0, ref['sd'])))
            xs.append(x)
            ys.append(y)
            kinds.append(k)
        L1 = rng.choice([0.0, rng.uniform(-50, 50), rng.uniform(-1e4, 1e4)])
        L2 = L1 + rng.choice([0.0, rng.gauss(0, 1), rng.uniform(-300, 300)])
        if rng.random() < 0.1:
            L2 = R.NEG
        a1 = acceptance(d, xs, L1, ys, L2, kinds)
        a2 = acceptance(d, ys, L2, xs, L1, kinds)
        ctx.steps += 2
        how = 'gauss' if ref['gauss'] else 'flat-py'
        for (p, q, Lp, Lq, got) in ((xs, ys, L1, L2, a1), (ys, xs, L2, L1, a2)):
            w = R.ln_accept(q, p, alphas, Lq, Lp, ref, how)
            if w is None or R.soft(q, p, ref):
                continue
            ctx.check(0 <= got <= 1, 'range', lambda: 'acceptance %r outside [0, 1]' % got)
            want = math.exp(w)
            ok = abs(got - want) <= 1e-7 * max(got, want)
            if not ok and not ref['gauss']:
                w2 = math.exp(R.ln_accept(q, p, alphas, Lq, Lp, ref, 'reported'))
                if abs(got - w2) <= 1e-7 * max(got, w2):
                    ctx.fail('balance', pairinfo(p, q, Lp, Lq, got, want, kinds, d), key='uniform-balancing-draw')
                    continue
            ctx.check(ok, 'balance', lambda: pairinfo(p, q, Lp, Lq, got, want, kinds, d))
            if 0 < want < 1:
                ctx.probe('strict decisions')
                ctx.state('direct', cfg['cls'], d.E, ref['dc'], ref['prior'], tuple(sorted(kinds)), int(max(-20, w / 2.3)))
            if Lq == R.NEG:
                ctx.probe('zero-likelihood proposals')
            if Lp == R.NEG:
                ctx.probe('zero-likelihood starts')
        if d.E == 1:
            densities(ctx, d, ref, alphas[0], xs[0], ys[0], kinds[0], L1, L2, a1, a2, offset)


def acceptance(d, xs, Lx, ys, Ly, kinds):
    d.teleport(xs, Lx)
    jump = [R.is_dc(x) != R.is_dc(y) for x, y in zip(xs, ys)]
    d.alg.jump = jump if d.E > 1 else jump[0]
    prop = [dict(y) for y in ys]
    for x, p, j in zip(xs, prop, jump):
        if j and R.is_dc(p):
            p['g0'], p['d0'] = x['gamma'], x['delta']
    if d.E > 1:
        return chain.val(d.alg.acceptance(prop, Ly))
    return chain.val(d.alg.acceptance(prop[0], Ly))


def pairinfo(p, q, Lp, Lq, got, want, kinds, d):
    return 'acceptance(%s -> %s, log-likelihoods %r -> %r, %s) = %r, detailed balance requires %r (%s, %s)' % (
        p, q, Lp, Lq, kinds, got, want, d.cfg['cls'], d.ref['prior'])


def densities(ctx, d, ref, alpha, x, y, kind, L1, L2, a1, a2, offset):
    """The densities the code reports, and the balance identity between its own two directions."""
    alg = d.alg
    terms = []
    for p, q in ((x, y), (y, x)):
        dc = ref['dc'] or (ref['transd'] and R.is_dc(p))
        d.teleport([p], 0.0)
        pr = chain.val(alg.prior(p))
        want = math.exp(R.ln_prior(p, ref['prior'], dc and (ref['transd'] or R.is_dc(p))))
        ctx.check(abs(pr - want) <= 1e-9 * max(1e-6, want), 'prior', lambda: 'prior(%s) = %r, the %s density is %r' % (p, pr, ref['prior'], want))
        if kind == 'shift':
            t = chain.val(alg.transition_pdf(q, p))
            lt = R.ln(t)
            w = R.ln_q(q, p, alpha, dc)
            if w > -500 and abs(w) < 500:
                key = 'dc' if dc else 'mt'
                off = offset.setdefault(key, lt - w)
                ctx.check(abs(lt - w - off) < 1e-7, 'transition', lambda: 'transition_pdf(%s | %s) = %r is not proportional to the truncated Gaussian '
                          'density %r (offset %r, expected %r)' % (q, p, t, math.exp(w), lt - w, off))
            terms.append((R.ln(pr), lt))
        else:
            if R.is_dc(p):
                b = chain.val(alg.jump_params(q))
                how = 'gauss' if ref['gauss'] else 'flat-py'
                w = math.exp(R.ln_balance(q['gamma'], q['delta'], ref['sg'], ref['sd'], how))
                if not ref['gauss'] and abs(b - 3 / (2 * math.pi)) < 1e-12:
                    ctx.fail('balancing-density', 'jump_params(%s) = %r for a uniform draw of density %r' % (q, b, w), key='uniform-balancing-draw')
                elif max(b, w) > 1e-290:
                    ctx.check(abs(b - w) <= 1e-7 * max(b, w), 'balancing-density', lambda: 'jump_params(%s) = %r, the draw has density %r' % (q, b, w))
                terms.append((R.ln(pr), R.ln(b) + math.log(ref['dc_prior'])))
            else:
                terms.append((R.ln(pr), math.log1p(-ref['dc_prior'])))
    if L2 == R.NEG or a1 < 1e-280 or a2 < 1e-280 or R.soft([x], [y], ref):
        return
    if any(R.ln_accept([q], [p], [alpha], 0.0, 0.0, ref, 'gauss' if ref['gauss'] else 'flat-py') is None for p, q in ((x, y), (y, x))):
        return
    if any(v[0] < -60 or v[1] < -600 for v in terms):
        return
    lhs = terms[0][0] + terms[0][1] + L1 + math.log(a1)
    rhs = terms[1][0] + terms[1][1] + L2 + math.log(a2)
    ctx.check(abs(lhs - rhs) < 1e-6 + 1e-12 * abs(L1), 'identity', lambda: 'prior e^L q a differs between the two directions of %s <-> %s: ln %r and %r'
              % (x, y, lhs, rhs))
