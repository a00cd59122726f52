"""C01: the reported log-probability is the sum over the selected observations, marginalised over weighted location samples."""
import os

from sim import core, events, model, mp, seams

LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 110000}
CAP_S = {'quick': 130, 'thorough': 800}
RUN_WALL_S = 90
RULE = ('a case is an event (stations, data types, errors, mispick probabilities, weighted location samples), a way to evaluate it '
        '(batches through the forward task, samples generated inside it, or a whole inversion with serial or simulated parallel '
        'workers) and the compiled code present, absent or failing at chosen calls; non-trivial when at least one candidate had '
        'a finite log-probability that was compared')
REAL = ['MTfit.inversion: Inversion, ForwardTask, polarity_matrix, polarity_probability_matrix, amplitude_ratio_matrix, '
        'station_angles, _trim_data, JobPool, worker processes (simulated scheduling)', 'MTfit.probability (compiled and Python)',
        'MTfit.algorithms.monte_carlo and the sample store', 'MTfit.extensions.scatangle reader for the location files']
STUB = ['multiprocessing (simulated processes and queues)', 'compiled functions that raise at chosen calls', 'random seeds', 'clock',
        'result files (Inversion.output records the store instead)']
STATE_MEASURE = 'hash of (mode, data kinds, location and weight class, extension class, flags, zero class of the batch)'
ASSUMPTIONS = ['polarity information is given as polarities or as polarity probabilities, not both (the documented alternatives)',
               'every observed station is in every location record', 'log-densities below about -650 may be flushed to -inf',
               'an amplitude within 5e-15 of zero may take either sign; a ratio with such an amplitude may have any density']
FALLBACK = ('combined_ln_pdf', 'polarity_ln_pdf', 'polarity_probability_ln_pdf', 'amplitude_ratio_ln_pdf', 'ln_prod', 'ln_marginalise')


def setup(scratch):
    seams.install_clock()
    seams.install_rng()
    mp.install()
    global np, inversion, MC, SCRATCH, extensions
    import numpy as np
    import gc
    import logging
    import warnings
    import traceback
    gc.collect = lambda *a: 0
    import MTfit
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    traceback.print_exc = lambda *a, **k: None
    from MTfit import inversion
    from MTfit.algorithms import monte_carlo as MC
    SCRATCH = scratch


# ---- plans

def gen(rng, tier, index):
    mode = rng.choice(['task'] * 8 + ['generate', 'inversion']) if index % 9 else 'inversion'
    plan = {'mode': mode, 'event': events.gen_event(rng, 'e0'), 'ext': rng.choice(['c', 'c', 'c', 'py', 'py', 'fail']),
            'fail_at': sorted(rng.sample(range(1, 9), rng.randint(1, 4))), 'fail_always': rng.random() < 0.3,
            'fail_only': rng.sample(FALLBACK, rng.randint(1, len(FALLBACK))),
            'exc': rng.choice(['ValueError', 'MemoryError', 'TypeError'])}
    if mode == 'task':
        plan['batches'] = [{'n': rng.choice([1, 1, 2, 5, 20]), 'kind': rng.choice(['random', 'near', 'near', 'dc', 'special']),
                            'dseed': rng.getrandbits(32), 'layout': rng.choice(['C', 'C', 'C', 'F', 'strided', 'matrix']),
                            'return_zero': rng.random() < 0.4, 'marginalise': rng.random() < 0.7, 'again': rng.random() < 0.2,
                            } for _ in range(rng.choice([1, 1, 2, 3]))]
        plan['select'] = rng.random() < 0.3
    elif mode == 'generate':
        plan.update(n=rng.choice([1, 3, 10]), dc=rng.random() < 0.4, marginalise=rng.random() < 0.7, seed=rng.getrandbits(32),
                    cutoff=rng.choice([5, 50, 400, 2000]), return_zero=rng.random() < 0.3)
    else:
        plan.update(select=rng.random() < 0.5, size=rng.choice([2, 7, 20]), tasks=rng.choice([1, 2, 4]), dc=rng.random() < 0.3,
                    parallel=rng.random() < 0.45, cpus=rng.choice([2, 3]), sched_seed=rng.getrandbits(32),
                    policy=rng.choice(['random', 'random', 'pct', 'pct', 'sticky']),
                    seed=rng.getrandbits(32), c_generate=rng.random() < 0.15, events=rng.choice([1, 1, 2, 3]),
                    locfile=rng.random() < 0.5)
        plan['more'] = [events.gen_event(rng, 'e%d' % i, locations=bool(plan['event']['loc'])) for i in range(1, plan['events'])]
        if plan['ext'] == 'fail' and plan['c_generate']:
            plan['ext'] = 'c'
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('finite values compared', 0) > 0


SHRINK_SKIP = ('dseed',)


# ---- execution

def selection(plan, data):
    """The data types to use and an options list that also names types that are not there."""
    keys = [k for k in data if k != 'UID']
    if not plan.get('select') or len(keys) < 2:
        return None, False
    r = events.pcg(plan['event']['dseed'] + 1)
    keep = [k for k in keys if r.random() < 0.6] or [keys[0]]
    return keep, keep + ['NoSuchData']


class Ext(object):
    """The compiled code as this run has it."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.state = {'calls': 0, 'fail_at': set(plan['fail_at']), 'fired': 0, 'exc': {'ValueError': ValueError, 'MemoryError': MemoryError,
                      'TypeError': TypeError}[plan['exc']], 'only': tuple(plan['fail_only']), 'always': plan['fail_always']}

    def __enter__(self):
        if self.plan['ext'] == 'py':
            self.cm = seams.extensions(seams.ALL_EXT)
            self.ctx.fault('compiled extensions absent')
        elif self.plan['ext'] == 'fail':
            self.cm = seams.extensions({'cprobability'}, lambda n, m: seams.Failing(n, m, self.state))
        else:
            self.cm = seams.extensions(set())
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        if self.state['fired']:
            self.ctx.fault('compiled function raises', self.state['fired'])
        return self.cm.__exit__(*a)


def matrices(data, locs):
    a, e, ip = inversion.polarity_matrix(data, locs)
    a1, a2, ra, p1, p2 = inversion.amplitude_ratio_matrix(data, locs)
    ap, pp, ip2 = inversion.polarity_probability_matrix(data, locs)
    if isinstance(a, bool):
        ip = ip2
    return (a, e, a1, a2, ra, p1, p2, ap, pp), ip


def arr(x):
    return np.asarray(getattr(x, '_ln_pdf', x), float)


def compare(ctx, what, mts, ln, data, locs, weights, marginalise, selected=None, total=None):
    """ln (rows, n) or (n,) against the reference for tensors mts (6, n)."""
    lo, hi, used = model.ln_event(data, mts, locs, weights if locs else None, selected)
    if locs and marginalise:
        lo, hi = model.marginal(lo, hi)
        lo, hi = lo[None], hi[None]
    ln = arr(ln)
    ln = ln.reshape(-1, mts.shape[1])
    if ln.shape[0] == 1 and lo.shape[0] > 1 and np.all(ln == -np.inf):
        ln = np.repeat(ln, lo.shape[0], 0)
    ctx.check(ln.shape == lo.shape, 'shape', '%s: log-probability has shape %s, expected %s' % (what, ln.shape, lo.shape))
    ok = model.inside(ln, lo, hi)
    ctx.evaluations += int(ok.size)
    fin = np.isfinite(ln) & (hi - lo < 1e-3)
    ctx.probe('finite values compared', int(fin.sum()))
    if not ok.all():
        j = tuple(int(x) for x in np.argwhere(~ok)[0])
        ctx.fail('value', '%s: tensor %s has log-probability %r, expected within [%r, %r]' % (
            what, [round(float(x), 6) for x in mts[:, j[1]]], float(ln[j]), float(lo[j]), float(hi[j])))
    if fin.any():
        with np.errstate(invalid='ignore'):
            ctx.maximum('largest deviation from the middle of the interval', np.max(np.abs(ln - (lo + hi) / 2)[fin]))


def matched(ctx, what, batch, out, lo, hi):
    """Zero filtering kept a sub-sequence of the batch that contains every candidate with non-zero probability."""
    keep = []
    j = 0
    for c in range(batch.shape[1]):
        must, never = np.any(lo[:, c] > model.NEG), np.all(hi[:, c] == model.NEG)
        if j < out.shape[1] and np.array_equal(batch[:, c], out[:, j]) and not never:
            # equal neighbours: a certain zero cannot be here; an uncertain one is taken
            keep.append(c)
            j += 1
        elif must:
            ctx.fail('missing', '%s: candidate %d has a non-zero probability and is not in the result' % (what, c))
    ctx.check(j == out.shape[1], 'extra', '%s: result has %d tensors that are not (in order) non-zero candidates of the batch' % (
        what, out.shape[1] - j))
    return keep


def layout(mt, how):
    if how == 'F':
        return np.asfortranarray(mt)
    if how == 'strided':
        big = np.zeros((6, 2 * mt.shape[1]))
        big[:, ::2] = mt
        return big[:, ::2]
    if how == 'matrix':
        return np.matrix(mt)
    return np.ascontiguousarray(mt)


def run_task(plan, ctx):
    data, locs, weights, src = events.make_event(plan['event'])
    keep, _ = selection(plan, data)
    used = {k: v for k, v in data.items() if keep is None or k in keep or k == 'UID'}
    with Ext(plan, ctx):
        args, ip = matrices(used, locs)
        task = None
        for i, b in enumerate(plan['batches']):
            mts = events.candidates(b['kind'], b['n'], events.pcg(b['dseed']), src)
            if task is None or not b['again']:
                copies = [x.copy() if isinstance(x, np.ndarray) else tuple(y.copy() for y in x) if isinstance(x, tuple) and not isinstance(x[0], bool)
                          else x for x in args]
                task = inversion.ForwardTask(layout(mts, b['layout']), *copies, location_sample_multipliers=list(weights) if weights else False,
                                             incorrect_polarity_prob=ip.copy() if isinstance(ip, np.ndarray) else ip,
                                             return_zero=b['return_zero'], reuse=True, marginalise=b['marginalise'])
                flags = b
            else:
                ctx.probe('task used again with new tensors')
                task.mt = layout(mts, b['layout'])
            judge(ctx, 'batch %d' % i, task(), mts, data, locs, weights, flags['marginalise'], flags['return_zero'], keep)
            ctx.steps += 1


def judge(ctx, what, res, mts, data, locs, weights, marginalise, return_zero, keep):
    ctx.check(isinstance(res, dict) and res['n'] == mts.shape[1], 'count', '%s: reports %r of %d candidates' % (
        what, res.get('n') if isinstance(res, dict) else res, mts.shape[1]))
    out = np.asarray(res['moment_tensors'])
    out = out.reshape(6, -1) if out.size else np.zeros((6, 0))
    lo, hi, n = model.ln_event(data, mts, locs, weights if locs else None, keep)
    ctx.probe('observations used', n)
    dead = int(np.sum(np.all(hi == model.NEG, 0)))
    ctx.state(what.split()[0], bool(locs), marginalise, return_zero, dead == 0, dead == mts.shape[1])
    ctx.trace('%s n=%d kept=%d dead=%d' % (what, mts.shape[1], out.shape[1], dead))
    if return_zero:
        ctx.check(out.shape == mts.shape and np.array_equal(out, mts), 'tensors', '%s: result tensors are not the candidates' % what)
    else:
        matched(ctx, what, mts, out, lo, hi)
    if out.shape[1]:
        compare(ctx, what, out, res['ln_pdf'], data, locs, weights, marginalise, keep)
    else:
        ctx.check(arr(res['ln_pdf']).size == 0, 'shape', '%s: log-probabilities without tensors' % what)


def run_generate(plan, ctx):
    data, locs, weights, src = events.make_event(plan['event'])
    if plan['ext'] != 'c':
        plan = dict(plan, ext='c')
    with Ext(plan, ctx):
        args, ip = matrices(data, locs)
        seams.seed_all(plan['seed'])
        task = inversion.ForwardTask(False, *args, location_sample_multipliers=weights, incorrect_polarity_prob=ip, marginalise=plan['marginalise'],
                                     generate_samples=plan['n'], cutoff=plan['cutoff'], dc=plan['dc'], return_zero=plan['return_zero'])
        res = task()
    out = np.asarray(res['moment_tensors'])
    out = out.reshape(6, -1) if out.size else np.zeros((6, 0))
    ctx.check(res['n'] >= out.shape[1] and (out.shape[1] == plan['n'] or res['n'] > plan['cutoff']) and out.shape[1] <= plan['n'], 'count',
              'generated %d samples of %d wanted after %r tries (cut-off %d)' % (out.shape[1], plan['n'], res['n'], plan['cutoff']))
    ctx.check(np.all(np.abs((out ** 2).sum(0) - 1) < 1e-9), 'tensors', 'generated tensors are not unit tensors')
    ctx.trace('generated %d of %s' % (out.shape[1], res['n']))
    ctx.state('generate', bool(locs), plan['marginalise'], plan['dc'], out.shape[1] == plan['n'])
    if out.shape[1]:
        compare(ctx, 'generated', out, res['ln_pdf'], data, locs, weights, plan['marginalise'])
        ctx.check(np.all(np.any(arr(res['ln_pdf']).reshape(-1, out.shape[1]) > -np.inf, 0)), 'zero', 'generated samples with zero probability')


def write_scatter(fn, locs, weights):
    with open(fn, 'w') as f:
        for rec, w in zip(locs, weights or [1.] * len(locs)):
            f.write('%r\n' % w)
            for n, a, t in zip(rec['Name'], np.asarray(rec['Azimuth']).ravel(), np.asarray(rec['TakeOffAngle']).ravel()):
                f.write('%s\t%r\t%r\n' % (n, float(a), float(t)))
            f.write('\n')


def run_inversion(plan, ctx):
    evs = [plan['event']] + plan['more']
    made = [events.make_event(e) for e in evs]
    datas = [m[0] for m in made]
    keys = sorted({k for d in datas for k in d if k != 'UID'})
    r = events.pcg(plan['event']['dseed'] + 2)
    options = False
    if plan['select']:
        options = [k for k in keys if r.random() < 0.6] or [keys[0]]
    work = os.path.join(SCRATCH, 'c01-%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    files = []
    for i, m in enumerate(made):
        fn = ''
        if m[1]:
            fn = os.path.join(work, 'loc%d.scatangle' % i)
            write_scatter(fn, m[1], m[2])
        files.append(fn)
    if not any(files):
        files = False
    taken = []

    def record(self, event, fid, *a, **k):
        out = self.algorithm.output(normalise=False, convert=False, discard=0)[0]
        taken.append((event['UID'], np.array(out.get('moment_tensor_space', np.zeros((6, 0)))), arr(out.get('ln_pdf', [])).copy(),
                      out['total_number_samples']))

    real_update = inversion.Inversion._update_samples

    def update(self, *a, **k):
        real_update(self, *a, **k)
        self.number_samples = plan['size']
        if hasattr(self, 'kwargs'):
            self.kwargs['number_samples'] = plan['size']
    import copy
    with seams.patched(inversion.Inversion, output=record, _update_samples=update), Ext(plan, ctx):
        kw = dict(data=copy.deepcopy(datas), location_pdf_file_path=files, algorithm='iterate', max_samples=plan['size'] * plan['tasks'],
                  inversion_options=options, dc=plan['dc'], c_generate=plan['c_generate'], path=work, generate_cutoff=300)
        seams.seed_all(plan['seed'])
        if plan['parallel']:
            with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
                inv = inversion.Inversion(parallel=True, n=plan['cpus'], **kw)
                inv.forward()
            ctx.choices = s.picks
            ctx.probe('context switches', s.switches)
        else:
            inv = inversion.Inversion(parallel=False, **kw)
            inv.forward()
    expect = [d['UID'] for d in datas if any(k in d for k in (options or keys))]
    ctx.check([t[0] for t in taken] == expect, 'events', 'results for events %s, expected %s' % ([t[0] for t in taken], expect))
    for uid, mts, ln, n in taken:
        i = [d['UID'] for d in datas].index(uid)
        k = mts.shape[1]
        ctx.trace('event %s n=%d kept=%d' % (uid, n, k))
        ctx.state('inversion', plan['parallel'], bool(made[i][1]), bool(options), plan['dc'], k > 0, plan['ext'], plan['c_generate'])
        ctx.check(ln.reshape(-1).size == k, 'shape', 'event %s stores %d tensors and %d values' % (uid, k, ln.size))
        if not plan['c_generate']:
            ctx.check(n >= plan['size'] * plan['tasks'], 'count', 'event %s ended after %d samples' % (uid, n))
        if k:
            ctx.check(np.all(np.abs((mts ** 2).sum(0) - 1) < 1e-9), 'tensors', 'stored tensors are not unit tensors')
            compare(ctx, 'event ' + uid, mts, ln, datas[i], made[i][1], made[i][2], True, options or None)
        ctx.steps += 1


def valid(plan):
    """A plan that gen could have made (minimisation also tries others)."""
    evs = [plan['event']] + plan.get('more', [])
    return all(e['types'] and e['n'] and all(t['stations'] and max(t['stations']) < e['n'] and len(set(t['stations'])) == len(t['stations']) for t in e['types']) and
               (not e['loc'] or e['loc']['K']) for e in evs) and all(b['n'] for b in plan.get('batches', [])) and plan.get('size', 1) and \
        plan.get('tasks', 1) and plan.get('cpus', 1) and (plan['mode'] != 'generate' or plan['n'])


def run(plan, ctx):
    if not valid(plan):
        return
    {'task': run_task, 'generate': run_generate, 'inversion': run_inversion}[plan['mode']](plan, ctx)
    for t in plan['event']['types']:
        ctx.probe('type ' + model.kind(t['key']))
    ctx.state(plan['mode'], plan['ext'], tuple(sorted(t['key'] for t in plan['event']['types'])), plan['event']['loc'] and (
        plan['event']['loc']['weights'], plan['event']['loc']['order']))
