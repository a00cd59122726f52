"""Random events: stations, sources, observations and location samples in MTfit's data format."""
import math

import numpy as np

from sim import model

POLARITY = ['PPolarity', 'SHPolarity', 'SVPolarity']
PROB = ['PPolarityProbability', 'SHPolarityProbability', 'SVPolarityProb']
RATIO = ['P/SHAmplitudeRatio', 'P/SVAmplitudeRatio', 'SH/SVAmplitudeRatio', 'P/SHRMSAmplitudeRatio', 'P/SVRMSAmplitudeRatio',
         'SH/SVRMSAmplitudeRatio', 'P/SHQRMSAmplitudeRatio', 'SH/SVQRMSAmplitudeRatio', 'P/SVQAmplitudeRatio', 'P/SHAmplitude_Ratio']
FRAMES = {'explosion': [1, 1, 1, 0, 0, 0], 'xy': [0, 0, 0, 1, 0, 0], 'xz': [0, 0, 0, 0, 1, 0], 'yz': [0, 0, 0, 0, 0, 1],
          'clvd': [1, 1, -2, 0, 0, 0], 'dip': [1, -1, 0, 0, 0, 0]}


def pcg(seed):
    return np.random.Generator(np.random.PCG64(seed))


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt((v ** 2).sum(0))


def random_dc(r, n):
    k, h, s = r.uniform(0, 2 * math.pi, n), r.uniform(0, 1, n), r.uniform(-math.pi / 2, math.pi / 2, n)
    d = np.arccos(h)
    ns = np.array([-np.sin(d) * np.sin(k), np.sin(d) * np.cos(k), -np.cos(d)])
    sl = np.array([np.cos(s) * np.cos(k) + np.sin(s) * np.cos(d) * np.sin(k), np.cos(s) * np.sin(k) - np.sin(s) * np.cos(d) * np.cos(k),
                   -np.sin(s) * np.sin(d)])
    m = [ns[0] * sl[0] * 2, ns[1] * sl[1] * 2, ns[2] * sl[2] * 2, (ns[0] * sl[1] + ns[1] * sl[0]) * math.sqrt(2),
         (ns[0] * sl[2] + ns[2] * sl[0]) * math.sqrt(2), (ns[1] * sl[2] + ns[2] * sl[1]) * math.sqrt(2)]
    return unit(np.array(m))


def gen_event(rng, uid, rich=True, stations=None, polarity=None, ratio=None, locations=None):
    """The plan of one event (everything structural; numbers come from dseed)."""
    n = stations or rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
    style = polarity if polarity is not None else rng.choice(['polarity', 'polarity', 'probability', None])
    keys = []
    if style:
        pool = list(POLARITY if style == 'polarity' else PROB)
        rng.shuffle(pool)
        keys += pool[:rng.choice([1, 1, 2, 3])]
    if (ratio if ratio is not None else rng.random() < 0.6) or not keys:
        pool = list(RATIO)
        rng.shuffle(pool)
        keys += pool[:rng.choice([1, 1, 2])]
    types = []
    for k in keys:
        idx = list(range(n))
        rng.shuffle(idx)
        types.append({'key': k, 'stations': idx[:rng.randint(1, n)], 'mispick': rng.choice([None, None, 'zero', 'each', 'all', 'edge']),
                      'flip': rng.choice([0, 0, 0.1, 0.4]), 'error': rng.choice(['zero', 'small', 'mid', 'mid', 'large', 'mixed', 'tiny'])})
    ev = {'uid': uid, 'n': n, 'types': types, 'angles': rng.choice(['any', 'any', 'any', 'grid', 'close']),
          'source': rng.choice(['random', 'random', 'dc', 'explosion', 'xy', 'clvd']), 'dseed': rng.getrandbits(32), 'loc': None}
    if locations if locations is not None else rng.random() < 0.45:
        K = rng.choice([1, 2, 2, 3, 5, 9])
        ev['loc'] = {'K': K, 'order': rng.choice(['same', 'shuffled', 'shuffled', 'each', 'each']),
                     'weights': rng.choice(['one', 'random', 'mean', 'mean', 'wide', 'integer', 'none']),
                     'spread': rng.choice([0, 0.5, 5, 30, 'any']), 'repeat': rng.random() < 0.4, 'extra': rng.choice([0, 0, 1, 3])}
    return ev


def make_event(ev):
    """(data dictionary, location records or False, weights or False, true source) of an event plan."""
    r = pcg(ev['dseed'])
    n = ev['n']
    names = ['S%03d' % i for i in range(n)]
    if ev['angles'] == 'grid':
        az, toa = r.choice([0., 45., 90., 135., 180., 270., 360.], n), r.choice([0., 30., 45., 90., 120., 135., 180.], n)
    elif ev['angles'] == 'close':
        az, toa = r.uniform(40, 44, n), r.uniform(100, 103, n)
    else:
        az, toa = r.uniform(0, 360, n), r.uniform(0, 180, n)
    if ev['source'] == 'random':
        src = unit(r.standard_normal((6, 1)))
    elif ev['source'] == 'dc':
        src = random_dc(r, 1)
    else:
        src = unit(np.array(FRAMES[ev['source']], float)[:, None])
    data = {'UID': ev['uid']}
    for t in ev['types']:
        idx = t['stations']
        m = len(idx)
        ph = model.phases(t['key'])
        amp = [np.array([model.amplitude(az[i], toa[i], p, src)[0] for i in idx]) for p in ph]
        d = {'Stations': {'Name': [names[i] for i in idx], 'Azimuth': np.matrix(az[idx]).T, 'TakeOffAngle': np.matrix(toa[idx]).T}}
        lo, hi = {'zero': (0, 0), 'tiny': (1e-5, 1e-4), 'small': (0.003, 0.05), 'mid': (0.05, 0.5), 'large': (0.5, 4), 'mixed': (1e-5, 1)}[t['error']]
        k = model.kind(t['key'])
        if k == 'polarity':
            y = np.where(amp[0] >= 0, 1, -1) * np.where(r.random(m) < t['flip'], -1, 1)
            e = r.uniform(lo, hi, m)
            if t['error'] == 'mixed':
                e[r.random(m) < 0.4] = 0
            d['Measured'] = np.matrix(y).T
            d['Error'] = np.matrix(e).T
        elif k == 'probability':
            p = r.uniform(0.5, 1, m)
            if t['error'] == 'zero':
                p[:] = 1
            up = (amp[0] >= 0) ^ (r.random(m) < t['flip'])
            total = r.uniform(0.5, 1, m) if t['error'] == 'large' else np.ones(m)
            pos, neg = np.where(up, p, 1 - p) * total, np.where(up, 1 - p, p) * total
            d['Measured'] = np.matrix([pos, neg]).T
            d['Error'] = np.matrix(np.full(m, 0.05)).T
        else:
            e = np.exp(r.uniform(math.log(max(lo, 1e-5)), math.log(max(hi, 1e-5)), (m, 2)))
            scale = np.exp(r.normal(0, 3, m))
            num = np.abs(amp[0]) * scale * (1 + r.normal(0, 1, m) * np.minimum(e[:, 0], 2))
            den = np.abs(amp[1]) * scale * (1 + r.normal(0, 1, m) * np.minimum(e[:, 1], 2))
            num, den = np.where(np.abs(num) < 1e-3, 1e-3, num), np.where(np.abs(den) < 1e-3, 1e-3, den)
            d['Measured'] = np.matrix(np.array([num, den]).T)
            d['Error'] = np.matrix(np.abs(d['Measured'].A) * e)
        if t['mispick'] and k != 'ratio':
            w = {'zero': np.zeros(m), 'each': r.uniform(0, 1, m), 'all': np.full(m, r.uniform(0, 0.5)),
                 'edge': r.choice([0., 0.5, 1., 1e-3], m)}[t['mispick']]
            d['IncorrectPolarityProbability'] = np.matrix(w).T
        data[t['key']] = d
    if not ev['loc']:
        return data, False, False, src
    L = ev['loc']
    order0 = list(range(n + L['extra']))
    if L['order'] != 'same':
        order0 = list(r.permutation(order0))
    names = names + ['X%d' % i for i in range(L['extra'])]
    az, toa = np.append(az, r.uniform(0, 360, L['extra'])), np.append(toa, r.uniform(0, 180, L['extra']))
    recs = []
    for k in range(L['K']):
        order = list(r.permutation(order0)) if L['order'] == 'each' else order0
        if L['spread'] == 'any':
            a, t = r.uniform(0, 360, len(names)), r.uniform(0, 180, len(names))
        else:
            a = az + r.normal(0, 1, len(names)) * L['spread']
            t = np.clip(toa + r.normal(0, 1, len(names)) * L['spread'], 0, 180)
        if L['repeat'] and k and r.random() < 0.5:
            recs.append({q: (list(v) if q == 'Name' else v.copy()) for q, v in recs[int(r.integers(0, k))].items()})
            continue
        recs.append({'Name': [names[i] for i in order], 'Azimuth': np.matrix(a[order]).T, 'TakeOffAngle': np.matrix(t[order]).T})
    w = {'one': np.ones(L['K']), 'random': r.uniform(0.01, 3, L['K']), 'wide': np.exp(r.uniform(-20, 20, L['K'])),
         'integer': r.integers(1, 9, L['K']).astype(float), 'none': np.ones(L['K']), 'mean': r.uniform(0.1, 3, L['K'])}[L['weights']]
    if L['weights'] == 'mean':
        # weights that average exactly one: a permutation-like pattern of k/4
        w = np.ones(L['K'])
        for i in range(0, L['K'] - 1, 2):
            d = r.choice([0.25, 0.5, 0.75])
            w[i], w[i + 1] = 1 + d, 1 - d
    return data, recs, (False if L['weights'] == 'none' else [float(x) for x in w]), src


def candidates(kind, n, r, src):
    """A batch of n unit tensors."""
    if kind == 'dc':
        m = random_dc(r, n)
    elif kind == 'near':
        m = unit(src + r.normal(0, 1, (6, n)) * 10 ** r.uniform(-7, -0.5, n))
    elif kind == 'special':
        fr = list(FRAMES.values())
        m = unit(np.array([fr[int(r.integers(0, len(fr)))] for _ in range(n)], float).T * r.choice([-1, 1], n))
    else:
        m = unit(r.standard_normal((6, n)))
    if n > 1 and r.random() < 0.3:
        m[:, int(r.integers(0, n))] = m[:, 0]
    return m
