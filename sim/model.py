"""Reference model of the observations of one event: written from the equations of the data likelihoods, not from MTfit.

Every likelihood is an interval [lo, hi] of its logarithm that covers what floating-point evaluation may give."""
import math

import numpy as np
from scipy.special import ndtr

NEG = -np.inf
PHASE = {'p': 0, 'sh': 1, 'sv': 2}
AMP_ERR = 5e-15     # absolute error of an amplitude for unit tensors
ULP = 1.2e-16


def coefficients(az, toa, phase):
    """Six-vector a with amplitude a.(Mxx,Myy,Mzz,sqrt2 Mxy,sqrt2 Mxz,sqrt2 Myz), from the ray unit vectors (degrees)."""
    ph, th = np.radians(np.asarray(az, float)), np.radians(np.asarray(toa, float))
    g = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    e = {'p': g, 'sh': np.array([-np.sin(ph), np.cos(ph), 0 * ph]),
         'sv': np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)])}[phase]
    r2 = math.sqrt(2)
    return np.array([e[0] * g[0], e[1] * g[1], e[2] * g[2], (e[0] * g[1] + e[1] * g[0]) / r2,
                     (e[0] * g[2] + e[2] * g[0]) / r2, (e[1] * g[2] + e[2] * g[1]) / r2]).T     # (stations, 6)


def phases(key):
    """Phase (or phases of a ratio) a data type is about."""
    k = key.lower().replace('_', '')
    for s in ('polarity', 'amplituderatio', 'amplitude'):
        if s in k:
            k = k.split(s)[0]
            break
    out = []
    for p in k.split('/'):
        for suffix in ('qrms', 'rmsq', 'rms', 'q'):
            if p.endswith(suffix):
                p = p[:-len(suffix)]
                break
        out.append(p)
    return out


def kind(key):
    k = key.lower().replace('_', '')
    if 'amplituderatio' in k:
        return 'ratio'
    if 'polarity' in k:
        return 'probability' if 'prob' in k else 'polarity'
    if 'amplitude' in k:
        return 'relative'
    return None


def _ln(x):
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.log(np.maximum(x, 0))


def ln_polarity(x, y, sigma, mispick):
    """One polarity observation y (+1/-1), fractional uncertainty sigma."""
    x = np.asarray(x) * y
    if sigma == 0:
        plus = np.where(x > 0, 1., 0.)
        near = np.abs(x) < AMP_ERR
        p = (1 - mispick) * plus + mispick * (1 - plus)
        a, b = min(mispick, 1 - mispick), max(mispick, 1 - mispick)
        lo, hi = np.where(near, a, p), np.where(near, b, p)
    else:
        vals = []
        for d in (-AMP_ERR, AMP_ERR):
            z = (x + d) / sigma
            vals.append((1 - mispick) * ndtr(z) + mispick * ndtr(-z))
        lo, hi = np.minimum(*vals), np.maximum(*vals)
    return _ln(lo * (1 - 8 * ULP) - 4 * ULP), _ln(hi * (1 + 8 * ULP) + (4 * ULP if sigma else 0))


def ln_probability(x, pos, neg, mispick):
    """One automatic polarity observation: probabilities of a positive and of a negative arrival."""
    x = np.asarray(x)
    up, down = (1 - mispick) * pos + mispick * neg, (1 - mispick) * neg + mispick * pos
    near = np.abs(x) < AMP_ERR
    p = np.where(x > 0, up, down)
    lo, hi = np.where(near, min(up, down), p), np.where(near, max(up, down), p)
    return _ln(lo * (1 - 8 * ULP)), _ln(hi * (1 + 8 * ULP))


def ln_ratio_density(r, mx, my, px, py):
    """Log of the density of |X/Y| at r for X~N(mx,(px mx)^2), Y~N(my,(py my)^2), in a form without cancellation."""
    with np.errstate(all='ignore'):
        mx, my = np.abs(mx), np.abs(my)
        sx, sy = px * mx, py * my
        q = sx * sx + r * r * sy * sy                # (a sx sy)^2
        a2 = q / (sx * sx * sy * sy)
        a = np.sqrt(a2)
        terms = []
        for s in (1., -1.):
            b = s * mx * r / (sx * sx) + my / (sy * sy)
            terms.append(np.log(np.abs(b)) - (mx - s * r * my) ** 2 / (2 * q) - np.log(sx * sy * a2 * a) - 0.5 * math.log(2 * math.pi) +
                         np.log(np.abs(_erf(np.abs(b) / (math.sqrt(2) * a)))))
        terms.append(np.log(2 / (math.pi * sx * sy * a2)) - 0.5 * (1 / (px * px) + 1 / (py * py)) + 0 * mx)
        t = np.array(terms)
        t[np.isnan(t)] = NEG
        m = t.max(0)
        m0 = np.where(m > NEG, m, 0)
        return np.where(m > NEG, m0 + np.log(np.exp(t - m0).sum(0)), NEG)


def _erf(x):
    from scipy.special import erf
    return erf(x)


FLUSH = -650.


def ln_ratio(mx, my, r, px, py):
    mx, my = np.asarray(mx, float), np.asarray(my, float)
    vals = [ln_ratio_density(r, mx + dx, my + dy, px, py) for dx in (-AMP_ERR, 0, AMP_ERR) for dy in (-AMP_ERR, 0, AMP_ERR)]
    vals = np.array(vals)
    lo, hi = vals.min(0), vals.max(0)
    spread = hi - lo
    spread[np.isnan(spread)] = 0
    c = 1 / (px * px) + 1 / (py * py)
    slack = spread + 40 * ULP * c + 1e-12 * (1 + np.abs(np.where(lo > NEG, lo, 0)))
    near = (np.abs(mx) < 20 * AMP_ERR) | (np.abs(my) < 20 * AMP_ERR)
    # terms of the density lose their precision and underflow one by one, well before the whole density does
    slack = np.where(hi < FLUSH, slack + 1, slack)
    lo, hi = np.where(near | (lo < FLUSH), NEG, lo - slack), np.where(near, np.inf, hi + slack)
    hi = np.where(hi > 700, np.inf, hi)          # rounding may overflow the density
    return lo, hi


def station_terms(data, selected=None, only=None):
    """Observations in a flat list: (key, kind, station, azimuth, take-off angle, phases, values...)."""
    out = []
    for key in sorted(data):
        k = kind(key)
        if k not in ('polarity', 'probability', 'ratio') or (selected and key not in selected):
            continue
        d = data[key]
        n = len(d['Stations']['Name'])
        az = np.asarray(d['Stations']['Azimuth'], float).reshape(n)
        toa = np.asarray(d['Stations']['TakeOffAngle'], float).reshape(n)
        meas = np.asarray(d['Measured'], float).reshape(n, -1)
        mis = d.get('IncorrectPolarityProbability', 0.)
        mis = np.broadcast_to(np.asarray(mis, float).reshape(-1), (n,))
        err = np.asarray(d['Error'], float).reshape(n, -1) if 'Error' in d else None
        for i in range(n):
            o = {'key': key, 'kind': k, 'name': d['Stations']['Name'][i], 'az': az[i], 'toa': toa[i], 'phases': phases(key),
                 'mispick': float(mis[i])}
            if k == 'polarity':
                o.update(y=meas[i, 0], sigma=err[i, 0])
            elif k == 'probability':
                o.update(pos=meas[i, 0], neg=meas[i, 1])
            else:
                o.update(ratio=abs(meas[i, 0] / meas[i, 1]), px=abs(err[i, 0] / meas[i, 0]), py=abs(err[i, 1] / meas[i, 1]))
            out.append(o)
    return out


def amplitude(az, toa, phase, mts):
    return coefficients([az], [toa], phase)[0].dot(mts)


def ln_obs(o, mts, az, toa):
    x = amplitude(az, toa, o['phases'][0], mts)
    if o['kind'] == 'polarity':
        return ln_polarity(x, o['y'], o['sigma'], o['mispick'])
    if o['kind'] == 'probability':
        return ln_probability(x, o['pos'], o['neg'], o['mispick'])
    return ln_ratio(x, amplitude(az, toa, o['phases'][1], mts), o['ratio'], o['px'], o['py'])


def add(a, b):
    """Sum of logs in which -inf wins over +inf."""
    with np.errstate(invalid='ignore'):
        s = a + b
    return np.where((a == NEG) | (b == NEG), NEG, s)


def ln_event(data, mts, locations=None, weights=None, selected=None):
    """Intervals (lo, hi) of shape (K, n) of the log-likelihood for every location sample (not marginalised)."""
    obs = station_terms(data, selected)
    recs = locations or [None]
    K, n = len(recs), mts.shape[1]
    lo, hi = np.zeros((K, n)), np.zeros((K, n))
    pos = []
    for rec in recs:
        if rec is None:
            pos.append(None)
            continue
        a, t = np.asarray(rec['Azimuth'], float).reshape(-1), np.asarray(rec['TakeOffAngle'], float).reshape(-1)
        pos.append({nm: (a[i], t[i]) for i, nm in enumerate(rec['Name'])})
    used = 0
    for o in obs:
        if locations and not all(o['name'] in p for p in pos):
            continue
        used += 1
        for k in range(K):
            az, toa = (o['az'], o['toa']) if pos[k] is None else pos[k][o['name']]
            l, h = ln_obs(o, mts, az, toa)
            lo[k], hi[k] = add(lo[k], l), add(hi[k], h)
    if weights is not None and weights is not False:
        w = np.log(np.asarray(weights, float))[:, None]
        lo, hi = lo + w, hi + w
    return lo, hi, used


def lse(x):
    """log-sum-exp over axis 0 that keeps -inf and +inf."""
    m = x.max(0)
    m0 = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide='ignore', over='ignore'):
        return np.where(np.isfinite(m), m0 + np.log(np.exp(x - m0).sum(0)), m)


def marginal(lo, hi):
    return lse(lo), lse(hi)


def inside(value, lo, hi, rel=2e-13):
    """Is value within [lo, hi] up to summation rounding?"""
    value = np.asarray(value, float)
    tol = 1e-11 + rel * np.abs(np.where(np.isfinite(value), value, 0)) * 50
    with np.errstate(invalid='ignore'):
        return np.where(value == NEG, lo == NEG, (value >= lo - tol) & (value <= hi + tol)) & ~np.isnan(value)
