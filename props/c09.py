"""C09: the sample store keeps each non-zero sample once, aligned, over every history of batches."""
import math
import os
import shutil

from sim import core, seams

LEVEL = 'exploration'
RUNS = {'quick': 6000, 'thorough': 120000}
CAP_S = {'quick': 75, 'thorough': 700}
RUN_WALL_S = 60
RULE = ('a case is a store (in memory, on disk with crashes and restarts, or inside count- or time-limited random sampling with '
        'allocation failures), a storage increment, a history of batches with zero patterns, and output options; it is '
        'non-trivial when at least two batches were appended and at least one sample was kept')
REAL = ['MTfit.sampling.Sample, FileSample', 'MTfit.probability.LnPDF, ln_marginalise, ln_normalise (C and Python)',
        'MTfit.algorithms.monte_carlo (IterationSample, TimeSample), base.output', 'hdf5storage / h5py on a scratch file']
STUB = ['process death between or inside file operations (files torn at a chosen byte, objects discarded)',
        'numpy allocations that raise MemoryError', 'time.time', 'forward task results (scripted batches)']
STATE_MEASURE = 'hash of (store, storage increment, fill level relative to the capacity, batch size class, zero class) per batch'
ASSUMPTIONS = ['log-probabilities are finite or -inf (no NaN or +inf)', 'one volume element and one row count per history',
               'a crash loses at most the batch being written; file_safe=True promises exactly that',
               'samples whose un-normalised probability differs by rounding from the discard threshold may go either way']

ZERO = float('-inf')


def setup(scratch):
    seams.install_clock()
    seams.install_rng()
    global np, LnPDF, Sample, FileSample, MC, hdf5storage, sampling, probability
    import numpy as np
    import hdf5storage
    import gc
    gc.collect = lambda *a: 0
    import logging
    import MTfit
    logging.disable(logging.CRITICAL)
    from MTfit import sampling
    from MTfit.probability import LnPDF
    from MTfit.probability import probability
    from MTfit.sampling import Sample, FileSample
    from MTfit.algorithms import monte_carlo as MC


# ---- plans

def gen_batch(rng, inc, cfg):
    k = rng.choice([0, 1, 1, 2, 3, inc - 1, inc, inc, inc + 1, 2 * inc, 3 * inc, rng.randint(0, 3 * inc)])
    k = max(0, min(k, cfg['top']))
    return {'k': k, 'zero': rng.choice([0, 0, 0.2, 0.5, 0.9, 1]), 'form': rng.choice(['lnpdf', 'lnpdf', 'array', 'matrix', 'empty'])
            if k else rng.choice(['empty', 'none']), 'extra': rng.choice([0, 0, 0, rng.randint(0, 50)]),
            'fill': rng.random() < 0.15, 'dseed': rng.getrandbits(32)}


def gen(rng, tier, index):
    kind = rng.choice(['sample'] * 6 + ['algo'] * 3 + ['file']) if index % 12 else 'file'
    inc = rng.choice([1, 2, 3, 4, 7, 16, 64])
    events = rng.choice([1, 1, 1, 2, 3])
    cfg = {'top': 200 if kind != 'file' else 12}
    n = rng.choice([1, 2, 3, 5, 8, 15]) if kind != 'file' else rng.choice([1, 2, 3, 4, 11, 12])
    plan = {'kind': kind, 'inc': inc, 'events': events, 'rows': rng.choice([1, 1, 1, 2, 5]), 'scale': events > 1 and rng.random() < 0.6,
            'range': rng.choice(['narrow', 'narrow', 'wide', 'ties', 'high']), 'ext': rng.choice(['c', 'c', 'py']),
            'batches': [gen_batch(rng, inc, cfg) for _ in range(n)],
            'normalise': rng.random() < 0.8, 'convert': rng.random() < 0.2,
            'n_samples': rng.random() < 0.7, 'discard': rng.choice([0, 1, 2, 10, 1e3, 1e4, 1e10, rng.random() * 100 + 1]),
            'peek': rng.random() < 0.2}
    if rng.random() < 0.08:
        for b in plan['batches']:
            b['zero'] = 1
            b['fill'] = False
    if kind == 'file':
        plan['safe'] = rng.random() < 0.7
        for b in plan['batches']:
            b['restart'] = rng.random() < 0.15
            if plan['safe'] and rng.random() < 0.12:
                b['crash'] = [rng.randint(1, 9), rng.choice(['before', 'after', 'torn', 'torn']), rng.random()]
    if kind == 'algo':
        plan['limit'] = rng.choice(['samples', 'samples', 'samples', 'time'])
        total = sum(b['k'] + b['extra'] for b in plan['batches'])
        plan['max'] = max(1, int(total * rng.choice([0.2, 0.5, 0.8, 1, 1.2]) + rng.choice([-1, 0, 0, 1])))
        plan['exact'] = rng.randint(0, n) if rng.random() < 0.5 else -1
        plan['alloc'] = [rng.randint(1, 40)] if rng.random() < 0.25 else []
        plan['dur'] = [rng.random() * 10 for _ in range(n)]
    return plan


def nontrivial(plan, ctx):
    return len(plan['batches']) >= 2 and ctx.probes.get('samples kept', 0) > 0


SHRINK_SKIP = ('dseed',)


# ---- batches and the model

def values(plan, b, want_zero):
    """Moment tensors, log-probability rows and scale factors of one batch."""
    r = np.random.Generator(np.random.PCG64(b['dseed']))
    k, rows, ne = b['k'], plan['rows'], plan['events']
    mt = r.standard_normal((ne * 6, k))
    for e in range(ne):
        norm = np.sqrt((mt[6 * e:6 * e + 6] ** 2).sum(0))
        mt[6 * e:6 * e + 6] /= np.where(norm == 0, 1, norm)
    if plan['range'] == 'narrow':
        l = r.uniform(-20, 2, (rows, k))
    elif plan['range'] == 'wide':
        l = r.uniform(-3000, 5, (rows, k))
    elif plan['range'] == 'ties':
        l = r.choice([-3.0, -2.0, 0.0, 1.0], (rows, k))
    else:
        l = r.uniform(600, 900, (rows, k))
    dead = r.random(k) < b['zero'] if want_zero else np.zeros(k, bool)
    l[:, dead] = ZERO
    if rows > 1:
        part = (r.random((rows, k)) < 0.2)
        part[r.integers(0, rows, k), np.arange(k)] = False
        l[part] = ZERO
    scale = None
    if plan['scale']:
        scale = np.empty(k, dtype=object)
        for i in range(k):
            m = r.standard_normal((ne, ne))
            scale[i] = {'mu': m, 'sigma': np.abs(m) + 1}
    return mt, l, scale


def marginal(l):
    out = []
    for j in range(l.shape[1]):
        m = max(l[:, j])
        out.append(ZERO if m == ZERO else m + math.log(sum(math.exp(x - m) for x in l[:, j])) if len(l) > 1 else m)
    return out


class Model(object):
    def __init__(self, plan):
        self.plan = plan
        self.n = 0
        self.cols = []
        self.ln = []
        self.rows = []
        self.scale = []

    def add(self, mt, l, scale, n):
        self.n += n
        m = marginal(l)
        for j in range(l.shape[1]):
            if m[j] > ZERO:
                self.cols.append(mt[:, j].copy())
                self.ln.append(m[j])
                self.rows.append(l[:, j].copy())
                if scale is not None:
                    self.scale.append(scale[j])

    def copy(self):
        o = Model(self.plan)
        o.n, o.cols, o.ln, o.rows, o.scale = self.n, list(self.cols), list(self.ln), list(self.rows), list(self.scale)
        return o


def args_of(plan, b, mt, l, scale):
    """The batch in the forms that the forward tasks hand over."""
    n = b['k'] + b['extra']
    if b['form'] == 'empty' or b['k'] == 0:
        # what ForwardTask returns for an all-zero batch
        return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': n}, np.zeros((mt.shape[0], 0)), \
            np.zeros((plan['rows'], 0)), None
    if b['form'] == 'lnpdf':
        p = LnPDF(l.copy())
    elif b['form'] == 'matrix':
        p = np.matrix(l.copy())
    else:
        p = l.copy()
    if plan['events'] > 1 and b['dseed'] % 2:
        m = [np.array(mt[6 * e:6 * e + 6]) for e in range(plan['events'])]
        if b['dseed'] % 4 == 1:
            m = [np.matrix(x) for x in m]
        if not isinstance(p, LnPDF):
            p = LnPDF(p)
    else:
        m = np.matrix(mt.copy())
    out = {'moment_tensors': m, 'ln_pdf': p, 'n': n}
    if scale is not None:
        out['scale_factor'] = scale.copy()
    return out, mt, l, scale


def batch_list(plan, ctx, model, cap):
    """Yield (index, batch, values) with sizes adapted so that some batches exactly fill the store."""
    for i, b in enumerate(plan['batches']):
        if b.get('fill') and b['form'] != 'empty':
            room = cap() - len(model.ln)
            if 0 < room <= 400:
                b = dict(b, k=room, zero=0)
                if b['form'] == 'none':
                    b['form'] = 'lnpdf'
                ctx.probe('batch exactly fills the storage')
        yield i, b, values(plan, b, True)


# ---- checking an output against the model

def compare(plan, ctx, model, out, where, normalise, n_samples, discard, failed=None):
    """`failed` is an alternative model, when an injected fault may or may not have kept the last batch."""
    problems = mismatch(plan, ctx, model, out, normalise, n_samples, discard)
    if problems and failed is not None:
        problems2 = mismatch(plan, ctx, failed, out, normalise, n_samples, discard)
        problems = [] if not problems2 else problems
    ctx.evaluations += 1
    if problems:
        ctx.fail(problems[0][0], '%s: %s' % (where, '; '.join(p[1] for p in problems[:3])))


def mismatch(plan, ctx, model, out, normalise, n_samples, discard):
    bad = []
    if not model.ln:
        p = out.get('probability', None)
        if p is None or np.size(p) != 0:
            bad.append(('all-zero', 'nothing was kept, but the output has probability %r' % (p,)))
        return bad
    ln = np.array(model.ln)
    mx = ln.max()
    lnz = mx + math.log(math.fsum(np.exp(ln - mx)))
    keep = np.ones(len(ln), bool)
    soft = np.zeros(len(ln), bool)
    if discard and n_samples:
        thr = mx - math.log(discard * n_samples)
        keep = ln > thr
        soft = np.abs(ln - thr) < 1e-9 * max(1.0, abs(mx))
    if 'ln_pdf' not in out:
        return [('lost-or-shifted-sample', 'nothing is left of %d samples' % len(ln))]
    got_p = np.asarray(out['probability'], dtype=float).flatten()
    got_l = np.asarray(out['ln_pdf'], dtype=float).flatten()
    ne = plan['events']
    if ne > 1:
        if any('moment_tensor_space_%d' % (e + 1) not in out for e in range(ne)):
            return [('lost-sample', 'the output lacks the moment tensors of some events: %s' % sorted(out))]
        got_m = np.concatenate([np.asarray(out['moment_tensor_space_%d' % (e + 1)]) for e in range(ne)], 0)
    else:
        got_m = np.asarray(out['moment_tensor_space'])
    cols = np.array(model.cols).T
    # which model sample is each output column?
    idx = []
    at = 0
    for j in range(got_m.shape[1]):
        while at < len(ln) and not np.array_equal(cols[:, at], got_m[:, j]):
            if keep[at] and not soft[at]:
                return [('lost-or-shifted-sample', 'sample %d of %d (ln p %.6g, discard threshold %s) is missing or out of order at output column %d of %d'
                         % (at, len(ln), ln[at], 'none' if not (discard and n_samples) else '%.6g' % (mx - math.log(discard * n_samples)), j, got_m.shape[1]))]
            at += 1
        if at == len(ln):
            return [('foreign-sample', 'output column %d of %d is not a stored sample in order (duplicated or never appended)' % (j, got_m.shape[1]))]
        idx.append(at)
        at += 1
    for i in range(at, len(ln)):
        if keep[i] and not soft[i]:
            return [('lost-or-shifted-sample', 'sample %d of %d is missing from the end of the output (%d columns)' % (i, len(ln), got_m.shape[1]))]
    for i in idx:
        if not keep[i] and not soft[i]:
            bad.append(('not-discarded', 'sample %d is below the stated fraction of the maximum but was kept' % i))
    if len(got_p) != len(idx) or len(got_l) != len(idx):
        return bad + [('misaligned', '%d moment tensors, %d probabilities, %d log-probabilities' % (len(idx), len(got_p), len(got_l)))]
    want_l = ln[idx]
    err = np.abs(got_l - want_l)
    tol = 1e-9 * np.maximum(1.0, np.abs(want_l))
    if (err > tol).any():
        j = int(np.argmax(err - tol))
        bad.append(('wrong-ln-pdf', 'column %d: ln_pdf %.12g, its own is %.12g' % (j, got_l[j], want_l[j])))
    want_p = np.exp(want_l - lnz) if normalise else np.exp(np.minimum(want_l, 800.0))
    if normalise or mx < 700:
        err = np.abs(got_p - want_p)
        tol = 1e-9 * np.abs(want_p) * max(1.0, abs(mx) * 1e-3) + 1e-300
        ok = (err <= tol)
        if not ok.all():
            j = int(np.argmax(~ok))
            bad.append(('wrong-probability', 'column %d: probability %.12g, stored value normalised to unit total is %.12g' % (j, got_p[j], want_p[j])))
    if plan['scale']:
        sf = out.get('scale_factors')
        if sf is None or len(sf) != len(idx):
            bad.append(('misaligned', '%d samples but %s scale factors' % (len(idx), None if sf is None else len(sf))))
        else:
            for j, i in enumerate(idx):
                w = model.scale[i]
                g = sf[j]
                if not isinstance(g, dict) or set(g) != set(w) or any(not np.array_equal(np.squeeze(np.asarray(g[x])), np.squeeze(w[x])) for x in w):
                    bad.append(('wrong-scale-factor', 'column %d carries the scale factor of another sample' % j))
                    break
    return bad


def digest(ctx, out, store):
    parts = [str(int(np.asarray(store)))]
    for k in sorted(out):
        if k.startswith('moment') or k in ('probability', 'ln_pdf'):
            parts.append('%s %s %016x' % (k, np.shape(out[k]), core.h64(np.asarray(out[k], dtype=float).tobytes())))
    ctx.trace('output ' + ' '.join(parts))


# ---- runs

def run(plan, ctx):
    plan = dict(plan, inc=max(1, plan['inc']), events=max(1, plan['events']), rows=max(1, plan['rows']))
    seams.seed_all(core.derive('c09', plan['batches'][0]['dseed'] if plan['batches'] else 0))
    seams.CLOCK.now = 1.6e9
    absent = seams.ALL_EXT if plan['ext'] == 'py' else set()
    if absent:
        ctx.fault('compiled extensions absent')
    import warnings
    with seams.extensions(absent), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        {'sample': run_sample, 'algo': run_algo, 'file': run_file}[plan['kind']](plan, ctx)


def note(ctx, plan, b, store, model, cap):
    ctx.steps += 1
    fill = len(model.ln)
    ctx.state(plan['kind'], plan['inc'], plan['events'], plan['rows'], min(cap // plan['inc'], 40), fill % plan['inc'], min(b['k'], 3 * plan['inc']),
              b['form'], b['zero'], plan['ext'], plan['scale'])
    ctx.trace('batch of %d (%s) -> %d tried, %d kept' % (b['k'], b['form'], model.n, fill))


def guarded(ctx, what, f, *a, **k):
    try:
        return f(*a, **k)
    except seams.Crash:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.fail('error', '%s raised %s: %s (%s:%d)' % (what, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        raise


def final(plan, ctx, model, s, failed=None):
    n_samples = model.n if plan['n_samples'] else 0
    out, text = guarded(ctx, 'output()', s.output, plan['normalise'], plan['convert'], n_samples, plan['discard'])
    digest(ctx, out, s.n)
    compare(plan, ctx, model, out, 'output', plan['normalise'], n_samples, plan['discard'], failed)
    if plan['discard'] and n_samples:
        ctx.probe('output with discard')
    if not model.ln:
        ctx.probe('all-zero history')
    ctx.probe('samples kept', len(model.ln))


def run_sample(plan, ctx):
    s = Sample(initial_sample_size=plan['inc'], number_events=plan['events'])
    model = Model(plan)
    extension = []

    def cap():
        return s.moment_tensors.shape[1]
    for i, b, (mt, l, scale) in batch_list(plan, ctx, model, cap):
        args, mt, l, scale = args_of(plan, b, mt, l, scale)
        before = cap()
        named = None
        if scale is not None and b['dseed'] % 3:
            # an extension's scale factors, by the name of its data type
            named = np.array([{'mu': float(j) + 1000 * i} for j in range(l.shape[1])], dtype=object)
            args['extensions_scale_factor'] = {'ext': named.copy()}
        guarded(ctx, 'append() of batch %d' % i, s.append, **args)
        model.add(mt, l, scale, args['n'])
        if named is not None:
            live = [j for j, v in enumerate(marginal(l)) if v > ZERO]
            extension += [named[j]['mu'] for j in live]
            got = getattr(s, 'extensions_scale_factor', {}).get('ext', [])
            ctx.check([g['mu'] for g in got] == extension, 'wrong-scale-factor',
                      lambda: 'after batch %d the store has the extension scale factors %s, those of its samples are %s' % (
                          i, [g['mu'] for g in got][-6:], extension[-6:]))
        if cap() > before:
            ctx.probe('storage grew')
        ctx.check(len(s) == model.n, 'tried-count', lambda: 'after batch %d %d samples were tried, the store says %r' % (i, model.n, len(s)))
        note(ctx, plan, b, s, model, cap())
        if plan['peek'] and i % 3 == 1:
            out, _ = guarded(ctx, 'output() after batch %d' % i, s.output, plan['normalise'], False, 0, 0)
            compare(plan, ctx, model, out, 'output after batch %d' % i, plan['normalise'], 0, 0)
    final(plan, ctx, model, s)
    if plan['peek']:
        out, _ = guarded(ctx, 'second output()', s.output, True, False, 0, 0)
        compare(plan, ctx, model, out, 'second output', True, 0, 0)
        ctx.check(len(s) == model.n, 'tried-count', 'output changed the tried count')


def run_algo(plan, ctx):
    cls = MC.IterationSample if plan['limit'] == 'samples' else MC.TimeSample
    model = Model(plan)
    kw = {'number_events': plan['events'], 'number_samples': 3}
    limit = plan['max']
    sizes = [b['k'] + b['extra'] for b in plan['batches']]
    if plan['exact'] >= 0:
        limit = max(1, sum(sizes[:plan['exact'] + 1]))
        ctx.probe('limit is an exact batch total')
    if cls is MC.IterationSample:
        alg = cls(max_samples=limit, **kw)
    else:
        limit = sum(plan['dur']) * 0.6 + 0.1
        alg = cls(max_time=limit, **kw)
    alg.pdf_sample = Sample(initial_sample_size=plan['inc'], number_events=plan['events'], prior=alg._prior)
    s = alg.pdf_sample
    start = seams.CLOCK.now
    guarded(ctx, 'initialise()', alg.initialise)
    fault = seams.AllocFault(plan['alloc'], ctx)
    failed = None
    for i, b, (mt, l, scale) in batch_list(dict(plan, batches=[dict(b, fill=False) for b in plan['batches']]), ctx, model, lambda: 0):
        args, mt, l, scale = args_of(plan, b, mt, l, scale)
        seams.CLOCK.now += plan['dur'][i % len(plan['dur'])] if plan['dur'] else 1.0
        fired = fault.fired
        before = model.copy()
        with seams.alloc_faults((sampling, probability), fault):
            fault.on = True
            try:
                task, end = guarded(ctx, 'iterate() with batch %d' % i, alg.iterate, args)
            finally:
                fault.on = False
        model.add(mt, l, scale, args['n'])
        note(ctx, plan, b, s, model, s.moment_tensors.shape[1])
        if fault.fired > fired:
            # documented: a MemoryError ends the iteration; the batch may be lost, nothing else may be
            ctx.check(end, 'limit', 'a MemoryError did not end the sampling')
            failed = before
            failed.n = model.n
            ctx.check(len(s) in (model.n, before.n - 0, model.n - args['n']), 'tried-count',
                      lambda: 'after a MemoryError %r tried, expected %d or %d' % (len(s), model.n, model.n - args['n']))
            model.n = failed.n = int(len(s))
            break
        ctx.check(len(s) == model.n and alg.total_number_samples == model.n, 'tried-count',
                  lambda: 'after batch %d %d samples were tried, the algorithm says %r' % (i, model.n, alg.total_number_samples))
        should = (model.n >= limit) if cls is MC.IterationSample else (seams.CLOCK.now - start >= limit)
        ctx.check(bool(end) == should, 'limit', lambda: 'after batch %d: %d samples tried (%s limit %s), end is %r'
                  % (i, model.n, plan['limit'], limit, end))
        if end:
            ctx.probe('stopped at the limit')
            break
    n_samples = model.n
    out, text = guarded(ctx, 'algorithm.output()', alg.output, plan['normalise'], plan['convert'], plan['discard'])
    ctx.check(out.get('total_number_samples') == model.n, 'tried-count', lambda: 'output reports %r tried samples, %d were'
              % (out.get('total_number_samples'), model.n))
    digest(ctx, out, s.n)
    compare(plan, ctx, model, out, 'algorithm output', plan['normalise'], n_samples, plan['discard'], failed)
    ctx.probe('samples kept', len(model.ln))
    if not model.ln:
        ctx.probe('all-zero history')


class Disk(object):
    """Counts the file operations of an append and kills the process at one of them."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.at = None
        self.count = 0

    def arm(self, spec):
        self.at, self.mode, self.frac = spec
        self.count = 0

    def disarm(self):
        self.at = None

    def op(self, name, target, f):
        if self.at is None:
            return f()
        self.count += 1
        if self.count < self.at:
            return f()
        self.at = None
        self.ctx.fault('crash %s %s' % (self.mode, name))
        if self.mode == 'before':
            raise seams.Crash()
        r = f()
        del r
        if self.mode == 'torn' and name != 'rename' and target and os.path.exists(target):
            size = os.path.getsize(target)
            with open(target, 'r+b') as fh:
                fh.truncate(int(size * self.frac))
        raise seams.Crash()


def run_file(plan, ctx):
    d = os.path.join(os.getcwd(), 'fs')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    disk = Disk(ctx)
    real = {'savemat': hdf5storage.savemat, 'copy': shutil.copy, 'copyfile': shutil.copyfile, 'copy2': shutil.copy2, 'move': shutil.move,
            'rename': os.rename, 'replace': os.replace}

    def savemat(fname, *a, **k):
        return disk.op('savemat', fname, lambda: real['savemat'](fname, *a, **k))

    def wrap(name):
        def f(src, dst, *a, **k):
            def go():
                at, disk.at = disk.at, None      # nested operations belong to this one
                try:
                    return real[name](src, dst, *a, **k)
                finally:
                    disk.at = at
            if disk.at is not None and not os.path.exists(src):
                return real[name](src, dst, *a, **k)
            return disk.op('rename' if name in ('move', 'rename', 'replace') else 'copy', dst, go)
        return f
    with seams.patched(hdf5storage, savemat=savemat), \
            seams.patched(shutil, copy=wrap('copy'), copyfile=real['copyfile'], copy2=wrap('copy2'), move=wrap('move')), \
            seams.patched(os, rename=wrap('rename'), replace=wrap('replace')):
        _run_file(plan, ctx, disk, os.path.join(d, 'run'))
    shutil.rmtree(d, ignore_errors=True)


def _run_file(plan, ctx, disk, fname):
    def make():
        return FileSample(fname, plan.get('safe', True), number_events=plan['events'], initial_sample_size=plan['inc'])
    s = make()
    model = Model(plan)
    for i, b, (mt, l, scale) in batch_list(dict(plan, batches=[dict(b, fill=False) for b in plan['batches']]), ctx, model, lambda: 0):
        args, mt, l, scale = args_of(plan, b, mt, l, scale)
        if b.get('restart'):
            ctx.fault('restart between batches')
            s = guarded(ctx, 'restart before batch %d' % i, make)
            ctx.check(int(np.asarray(s.n)) == model.n, 'tried-count', lambda: 'restarted with %r tried samples, %d were' % (s.n, model.n))
        before = model.copy()
        crash = b.get('crash') if plan.get('safe', True) else None
        if crash:
            disk.arm(crash)
        try:
            guarded(ctx, 'append() of batch %d' % i, s.append, **args)
            model.add(mt, l, scale, args['n'])
        except seams.Crash:
            disk.disarm()
            ctx.trace('crash in batch %d' % i)
            s = guarded(ctx, 'restart after a crash in batch %d' % i, make)
            after = before.copy()
            after.add(mt, l, scale, args['n'])
            got = (int(np.asarray(s.n)), int(np.asarray(s.non_zero_samples)))
            ctx.check(got in ((before.n, len(before.ln)), (after.n, len(after.ln))), 'crash-consistency',
                      lambda: 'after a crash in batch %d the store restarts with %s (tried, kept), neither %s before nor %s after the batch'
                      % (i, got, (before.n, len(before.ln)), (after.n, len(after.ln))))
            model = after if got == (after.n, len(after.ln)) else before
        finally:
            disk.disarm()
        ctx.check(int(np.asarray(s.n)) == model.n, 'tried-count', lambda: 'after batch %d %d samples were tried, the store says %r' % (i, model.n, s.n))
        note(ctx, plan, b, s, model, plan['inc'])
    if not os.path.exists(fname + '_in_progress.mat'):
        return      # no batch was ever appended: there is no store to output
    final(plan, ctx, model, s)
