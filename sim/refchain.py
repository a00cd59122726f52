"""Reference for the Markov chain: densities and acceptance probabilities, written from the definitions (standard library only)."""
import math

PI = math.pi
G, D, H, S = PI / 6, PI / 2, 1.0, PI / 2
NEG = -math.inf
BOUNDS = {'gamma': (-G, G), 'delta': (-D, D), 'h': (0.0, 1.0), 'sigma': (-S, S)}
KEYS = ('gamma', 'delta', 'kappa', 'h', 'sigma')
B = 5.745                       # the source-latitude density of MTfit's uniform prior is a Beta(B, B)
NORM = 1.10452194071529090000   # and carries this constant
LN_BETA = math.lgamma(2 * B) - 2 * math.lgamma(B)


def is_dc(x):
    return x['gamma'] == 0.0 and x['delta'] == 0.0


def ln(v):
    return math.log(v) if v > 0 else NEG


def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def mass(mu, s, lo, hi):
    """Gaussian mass in [lo, hi]."""
    a, b = (lo - mu) / s, (hi - mu) / s
    if a > 0:
        return cdf(-a) - cdf(-b)
    return cdf(b) - cdf(a)


def ln_gauss(x, mu, s):
    z = (x - mu) / s
    return -0.5 * z * z - math.log(s * math.sqrt(2 * PI))


def ln_q(to, frm, alpha, dc):
    """Density of proposing `to` from `frm` (the strike factor is symmetric and left out)."""
    out = 0.0
    for k in (('h', 'sigma') if dc else ('gamma', 'delta', 'h', 'sigma')):
        lo, hi = BOUNDS[k]
        out += ln_gauss(to[k], frm[k], alpha[k]) - math.log(mass(frm[k], alpha[k], lo, hi))
    return out


def ln_prior(x, which, dc):
    if dc:
        return 0.0
    if which == 'flat_prior':
        return math.log(3 / PI ** 2)
    t = (x['delta'] + D) / PI
    if not 0 < t < 1:
        return NEG
    return ln(1.5 * math.cos(3 * x['gamma'])) + LN_BETA + (B - 1) * math.log(t * (1 - t)) - math.log(PI) + math.log(NORM)


def ln_balance(g, d, sg, sd, how):
    """Density of the draw of (gamma, delta) made by a jump up."""
    if how == 'gauss':
        return ln_gauss(g, 0, sg) + ln_gauss(d, 0, sd) - math.log(mass(0, sg, -G, G)) - math.log(mass(0, sd, -D, D))
    if how == 'flat-py':
        return math.log(3 / PI ** 2)
    if how == 'flat-c':
        return ln(3 * math.cos(d) / (2 * PI))
    return math.log(3 / (2 * PI))       # 'reported': what the code returns for a uniform draw


def ln_ratio(x, xi, alpha, cfg, how):
    """ln of prior * proposal terms for one event, from the current state xi to the proposal x."""
    dx, di = is_dc(x), is_dc(xi)
    if cfg['dc']:
        dx = di = True
    elif not cfg['transd']:
        dx = di = False
    p = ln_prior(x, cfg['prior'], dx)
    pi = ln_prior(xi, cfg['prior'], di)
    if p == NEG and pi == NEG:
        return None
    if pi == NEG:
        return math.inf
    if p == NEG:
        return NEG
    if dx == di:
        return p - pi + ln_q(xi, x, alpha, dx) - ln_q(x, xi, alpha, dx)
    odds = math.log(cfg['dc_prior']) - math.log1p(-cfg['dc_prior'])
    if dx:
        return p - pi + ln_balance(xi['gamma'], xi['delta'], cfg['sg'], cfg['sd'], how) + odds
    b = ln_balance(x['gamma'], x['delta'], cfg['sg'], cfg['sd'], how)
    return p - pi - b - odds


def extreme(x, xi, alpha, cfg, how):
    """True when a density of the ratio cannot be told from zero in double precision."""
    dx, di = (is_dc(x), is_dc(xi)) if cfg['transd'] else (cfg['dc'], cfg['dc'])
    if dx == di:
        return min(ln_q(xi, x, alpha, dx), ln_q(x, xi, alpha, dx)) < -600
    z = xi if dx else x
    return ln_balance(z['gamma'], z['delta'], cfg['sg'], cfg['sd'], how) < -600


def ln_accept(xs, xis, alphas, L, Li, cfg, how):
    """ln acceptance probability of a (joint) proposal, or None where the definition gives no value."""
    if L == NEG:
        return NEG
    total = 0.0
    for x, xi, a in zip(xs, xis, alphas):
        r = ln_ratio(x, xi, a, cfg, how)
        if r is None:
            return None
        if total != 0 and r != 0 and math.isinf(total) and math.isinf(r) and total != r:
            return None
        if extreme(x, xi, a, cfg, how) or (math.isfinite(total + r) and abs(total + r) > 600):
            return None
        total += r
    if total == NEG:
        return None if Li == NEG else NEG
    if Li == NEG or total == math.inf:
        return 0.0
    if L - Li < -690 and total + (L - Li) > -760:
        return None         # the likelihood ratio alone underflows
    return min(0.0, total + (L - Li))


def soft(xs, xis, cfg):
    """True near a zero of the prior, where rounding decides the ratio."""
    if cfg['dc'] or cfg['prior'] == 'flat_prior':
        return False
    for x in list(xs) + list(xis):
        if cfg['transd'] and is_dc(x):
            continue
        p = ln_prior(x, cfg['prior'], False)
        if p < -23:
            return True
    return False


def wrap(k):
    k = math.fmod(k, 2 * PI)
    if k < 0:
        k += 2 * PI
    return 0.0 if k >= 2 * PI else k


def mt6(x):
    """Six-vector of a Tape state, from Tape & Tape (2012): lune point rotated by strike, dip and slip."""
    g, d = x['gamma'], x['delta']
    beta = PI / 2 - d
    r2, r3, r6 = math.sqrt(2), math.sqrt(3), math.sqrt(6)
    v = (math.sin(beta) * math.cos(g), math.sin(beta) * math.sin(g), math.cos(beta))
    U = ((r3, -1, r2), (0, 2, r2), (-r3, -1, r2))
    lam = [sum(U[i][j] * v[j] for j in range(3)) / r6 for i in range(3)]
    k, th, s = x['kappa'], math.acos(min(1.0, max(-1.0, x['h']))), x['sigma']
    # fault geometry in north-east-down: strike vector, down-dip slip, normal
    ck, sk, ct, st, cs, ss = math.cos(k), math.sin(k), math.cos(th), math.sin(th), math.cos(s), math.sin(s)
    n = (-sk * st, ck * st, -ct)
    u = (ck * cs + sk * ct * ss, sk * cs - ck * ct * ss, -st * ss)
    # eigenvectors of the double-couple part: T = (n+u)/sqrt2, P = (n-u)/sqrt2, B = T x P
    t = [(a + b) / r2 for a, b in zip(n, u)]
    p = [(a - b) / r2 for a, b in zip(n, u)]
    b = (t[1] * p[2] - t[2] * p[1], t[2] * p[0] - t[0] * p[2], t[0] * p[1] - t[1] * p[0])
    M = [[lam[0] * t[i] * t[j] + lam[1] * b[i] * b[j] + lam[2] * p[i] * p[j] for j in range(3)] for i in range(3)]
    return (M[0][0], M[1][1], M[2][2], r2 * M[0][1], r2 * M[0][2], r2 * M[1][2])
