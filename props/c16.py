"""C16: the job pool delivers every submitted task's result exactly once, on every schedule."""
import json

from sim import core, mp

LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 300000}
CAP_S = {'quick': 75, 'thorough': 700}
RUN_WALL_S = 60
RULE = ('a case is a worker count, an interleaved list of submit / result / all_results / close operations with task durations, '
        'payload sizes, raising and status-code tasks, and a scheduler seed; it is non-trivial when at least two tasks were '
        'submitted and at least one scheduling choice among two or more candidates was made')
REAL = ['MTfit.utilities.multiprocessing_helper (Worker.run, JobPool, rebuild_ln_pdf)', 'MTfit.probability.LnPDF',
        'pickle of every task and result (ForkingPickler)']
STUB = ['multiprocessing.Queue/Process/cpu_count (sim/mp.py: feeders, bounded pipes, read and write locks, join at exit)',
        'time.sleep/time.time (virtual clock)', 'gc.collect (no-op)', 'the operating system scheduler']
STATE_MEASURE = ('hash of (outstanding tasks by kind, worker states, complete messages and bytes bucket of both queues) '
                 'sampled after every driver operation')
ASSUMPTIONS = ['workers are not killed from outside and processes do not run out of memory',
               'single_life=False (the documented exception is the single-task-per-worker mode)',
               'a task whose exception or result cannot cross a process boundary may be reported as any exception',
               'results equal to a reserved status code may be skipped or returned by collection, as documented']
SHRINK_SKIP = ('workers',)

CODES = (10, 20)


def setup(scratch):
    mp.install()
    global np, LnPDF, JobPool
    import numpy as np
    from MTfit.probability import LnPDF
    from MTfit.utilities.multiprocessing_helper import JobPool


# ---- tasks (pickled by reference to this module, as user tasks are)

class Unloadable(Exception):
    """Pickles, but its constructor does not accept what pickle calls it with."""

    def __init__(self, uid, reason):
        super(Unloadable, self).__init__('task %s: %s' % (uid, reason))
        self.uid = uid


class Opaque(Exception):
    """Cannot be pickled."""

    def __init__(self, uid):
        super(Opaque, self).__init__(uid)
        self.handle = lambda: uid


class Carrying(Exception):
    """An ordinary exception with state."""

    def __init__(self, uid, pad=''):
        super(Carrying, self).__init__(uid, pad)
        self.uid = uid


EXC = {'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'MemoryError': MemoryError, 'OSError': OSError,
       'Carrying': Carrying, 'Opaque': Opaque, 'StopIteration': StopIteration, 'AttributeError': AttributeError,
       'AssertionError': AssertionError, 'EOFError': EOFError, 'Exception': Exception, 'RuntimeError': RuntimeError}

LOADABLE = ('ValueError', 'TypeError', 'KeyError', 'Carrying', 'AttributeError', 'RuntimeError')


class Task(object):
    def __init__(self, uid, spec):
        self.uid = uid
        self.spec = spec

    def __call__(self):
        import time
        s = self.spec
        if s['dur']:
            time.sleep(s['dur'] / 1000.)
        if s['kind'] == 'raise':
            if s['exc'] == 'Unloadable':
                raise Unloadable(self.uid, 'x')
            raise EXC[s['exc']](self.uid)
        if s['kind'] == 'code':
            return s['code']
        if s['kind'] == 'none':
            return ('none', self.uid, None)
        if s['kind'] == 'opaque':
            return {'uid': self.uid, 'f': lambda: 0}
        return build(self.uid, s)


class BadLoad(Task):
    """A task that fails while the worker is reading it."""

    def __setstate__(self, d):
        raise EXC[d['spec']['exc']](d['uid'])


def ln_values(uid, k, s):
    """The array and volume element of the k-th log-PDF of a task; a function of the plan alone."""
    n = s['n']
    r = core.rng_for('ln', uid, k, n, s['sub'])
    vals = [r.choice([0.0, -float('inf'), -1e-300, -745.5, 700.25, r.uniform(-50, 5)]) if r.random() < 0.3 else r.uniform(-50, 5)
            for _ in range(n)]
    a = np.array(vals)
    if s['sub'] % 2:
        a = np.array([vals, [v - 1.0 for v in vals]])
    return a, r.choice([1, 1.0, 0.5, r.uniform(1e-6, 10), 1e-12])


def build(uid, s):
    pad = 'p' * s['size']
    if s['kind'] == 'ok':
        shape = s['sub'] % 4
        if shape == 0:
            return {'uid': uid, 'pad': pad}
        if shape == 1:
            return [uid, pad]
        if shape == 2:
            return (uid, pad)
        return {'uid': uid, 'a': {'b': [1, {'c': pad}]}}

    def ln(k):
        a, dv = ln_values(uid, k, s)
        return LnPDF(a, dV=dv)
    shape = s['shape']
    if shape == 'dict':
        return {'uid': uid, 'ln_pdf': ln(0), 'pad': pad}
    if shape == 'two':
        return {'uid': uid, 'ln_pdf': ln(0), 'scale': ln(1), 'pad': pad}
    if shape == 'nested':
        return {'uid': uid, 'r': {'ln_pdf': ln(0), 'deep': {'ln_pdf': ln(1)}}, 'pad': pad}
    if shape == 'alone':
        return {'uid': uid, 'r': {'ln_pdf_only': ln(0)}}
    if shape == 'list':
        return [uid, {'ln_pdf': ln(0), 'pad': pad}, ln(1)]
    if shape == 'dictlist':
        return {'uid': uid, 'r': [ln(0), {'x': ln(1)}], 'pad': pad}
    return (uid, ln(0))        # 'tuple'


def uid_of(r):
    if isinstance(r, dict):
        return r.get('uid')
    if isinstance(r, tuple) and r and r[0] == 'none':
        return r[1]
    if isinstance(r, (list, tuple)) and r:
        return r[0]
    if isinstance(r, BaseException):
        u = getattr(r, 'uid', None)
        if u is None and r.args:
            u = r.args[0]
        return u
    return None


def same(a, b, path, bad):
    if isinstance(b, LnPDF):
        if not isinstance(a, LnPDF):
            bad.append('%s arrived as %s, not as a log-PDF' % (path, type(a).__name__))
            return
        x, y = np.asarray(a._ln_pdf, dtype=float), np.asarray(b._ln_pdf, dtype=float)
        if x.size != y.size or not np.array_equal(x.flatten(), y.flatten(), equal_nan=True):
            bad.append('%s: log-PDF values changed in transit' % path)
        elif x.squeeze().shape != y.squeeze().shape:
            bad.append('%s: log-PDF shape changed in transit: %s to %s' % (path, y.shape, x.shape))
        if not (a.dV == b.dV):
            bad.append('%s: volume element %r arrived as %r' % (path, b.dV, a.dV))
        return
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            bad.append('%s: %s arrived as %s' % (path, sorted(b), sorted(a) if isinstance(a, dict) else type(a).__name__))
            return
        for k in sorted(b):
            same(a[k], b[k], path + '.' + k, bad)
    elif isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            bad.append('%s: sequence changed' % path)
            return
        for i, y in enumerate(b):
            same(a[i], y, '%s[%d]' % (path, i), bad)
    elif type(a) is not type(b) or a != b:
        bad.append('%s: %r arrived as %r' % (path, str(b)[:60], str(a)[:60]))


# ---- plans

def gen_task(rng, mix):
    r = rng.random()
    dur = 0 if rng.random() < mix['zero_dur'] else rng.choice([0, 1, 5, rng.randint(0, 20), rng.random() * 20])
    size = 0
    if rng.random() < mix['big']:
        size = rng.choice([4000, 30000, 65000, 70000, 200000, 600000])
    if r < mix['raise']:
        exc = rng.choice(sorted(EXC) + ['Unloadable', 'Carrying'])
        return {'kind': 'raise', 'exc': exc, 'dur': dur, 'load': rng.random() < 0.06 and exc in LOADABLE}
    r -= mix['raise']
    if r < mix['code']:
        return {'kind': 'code', 'code': rng.choice(CODES), 'dur': dur}
    r -= mix['code']
    if r < mix['ln']:
        n = rng.choice([1, 1, 2, 3, 7, 50])
        return {'kind': 'ln', 'shape': rng.choice(['dict', 'dict', 'two', 'nested', 'alone', 'list', 'dictlist', 'tuple']), 'n': n,
                'sub': rng.randint(0, 3), 'size': size, 'dur': dur}
    r -= mix['ln']
    if r < mix['opaque']:
        return {'kind': 'opaque', 'dur': dur}
    if rng.random() < 0.1:
        return {'kind': 'none', 'dur': dur}
    return {'kind': 'ok', 'sub': rng.randint(0, 3), 'size': size, 'dur': dur}


def gen(rng, tier, index):
    mix = {'raise': rng.choice([0, 0, 0.1, 0.3, 0.7]), 'code': rng.choice([0, 0, 0.1, 0.3, 0.8]),
           'ln': rng.choice([0, 0.2, 0.5]), 'opaque': rng.choice([0, 0, 0, 0.08]), 'big': rng.choice([0, 0, 0.1, 0.5]),
           'zero_dur': rng.choice([0, 0.5, 1])}
    while mix['raise'] + mix['code'] + mix['ln'] > 0.95:
        for k in ('raise', 'code', 'ln'):
            mix[k] /= 2
    workers = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 12, 16])
    top = rng.choice([3, 8, 8, 20, 40, 200 if tier == 'thorough' or rng.random() < 0.2 else 30])
    ops = []
    n = rng.randint(0, top)
    style = rng.choice(['burst', 'mixed', 'mixed', 'lockstep', 'rounds'])
    if style == 'burst':
        ops = [['submit', gen_task(rng, mix)] for _ in range(n)]
    elif style == 'lockstep':
        for _ in range(n):
            ops += [['submit', gen_task(rng, mix)], ['result']]
    elif style == 'rounds':
        left = n
        while left > 0:
            k = rng.randint(1, max(1, left))
            ops += [['submit', gen_task(rng, mix)] for _ in range(k)] + [['all']]
            left -= k
    else:
        p = rng.choice([0.2, 0.5, 0.7])
        for _ in range(n):
            ops.append(['submit', gen_task(rng, mix)])
            while rng.random() < p:
                ops.append(['result'] if rng.random() < 0.9 else ['pause', rng.randint(1, 30)])
    if rng.random() < 0.1:
        ops.insert(rng.randint(0, len(ops)), ['all'])
    tail = rng.choice(['all', 'all', 'all', 'close', 'results'])
    return {'workers': workers, 'explicit': rng.random() < 0.85, 'ops': ops, 'tail': tail, 'twice': rng.random() < 0.15,
            'after': rng.random() < 0.4, 'late': rng.random() < 0.3,
            'capacity': rng.choice([65536, 65536, 4096, 1 << 20]),
            'policy': rng.choice(['random', 'random', 'pct', 'pct', 'sticky']), 'sched_seed': rng.getrandbits(48)}


def concretise(plan, ctx):
    return dict(plan, choices=list(ctx.choices))


def nontrivial(plan, ctx):
    return ctx.probes.get('tasks submitted', 0) >= 2 and bool(ctx.choices)


def unreportable(spec):
    return spec['kind'] == 'opaque' or (spec['kind'] == 'raise' and spec['exc'] in ('Opaque', 'Unloadable'))


# ---- runs

def run(plan, ctx):
    from MTfit.utilities import multiprocessing_helper as M
    workers = max(1, int(plan['workers']))
    s = None
    where = ['initialising']
    try:
        with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=max(1024, plan['capacity']),
                        cpus=workers) as s:
            drive(plan, ctx, s, M, workers, where)
    except mp.SimDeadlock as e:
        ctx.fail('deadlock', 'the pool hangs while %s: %s' % (where[0], e))
    except mp.SimNoProgress as e:
        ctx.fail('livelock', 'the pool makes no progress while %s: %s' % (where[0], e))
    finally:
        if s is not None:
            ctx.choices = s.picks
            ctx.probe('context switches', s.switches)
            ctx.probe('choices among two or more', len(s.picks))


def drive(plan, ctx, s, M, workers, where):
    specs = {}
    pending = {}            # uid -> spec, tasks with an identifiable result
    codes = [0]             # status-code tasks that may still be delivered
    anon = [0]              # tasks whose result may arrive as any exception

    pool = JobPool(workers if plan['explicit'] else 0, task=Task)
    ctx.check(len(pool) == workers, 'worker-count', 'asked for %d workers, got %d' % (workers, len(pool)))

    def outstanding():
        return len(pending) + codes[0] + anon[0]

    def snap(op):
        ctx.state(op, len(pending), codes[0], anon[0], tuple(sorted((p.state, p.why) for p in s.procs[1:])),
                  tuple((len(q.messages), min(q.used // 16384, 5)) for q in s.queues))

    def number(where_):
        n = getattr(pool, 'number_jobs', None)
        if n is not None:
            ctx.check(len(pending) + anon[0] <= n <= outstanding(), 'number-jobs',
                      lambda: 'after %s number_jobs is %r with %d identifiable, %d unreportable and at most %d status-code tasks outstanding'
                      % (where_, n, len(pending), anon[0], codes[0]))
            codes[0] = min(codes[0], n - len(pending) - anon[0])

    def accept(r, op):
        """One delivered result: attribute it to exactly one outstanding task."""
        u = uid_of(r)
        if type(r) is int and r in CODES:
            ctx.check(codes[0] > 0, 'duplicated-result', '%s delivered status code %r, but no such task is outstanding' % (op, r))
            codes[0] -= 1
            return
        if isinstance(u, int) and u in specs and not unreportable(specs[u]):
            sp = specs[u]
            ctx.check(u in pending, 'duplicated-result', lambda: '%s delivered the result of task %d (%s) a second time' % (op, u, sp['kind']))
            del pending[u]
            if sp['kind'] == 'raise':
                ok = isinstance(r, EXC.get(sp['exc'], Exception)) and type(r) is EXC.get(sp['exc'], type(r))
                ctx.check(ok and r.args[:1] == (u,), 'wrong-exception', lambda: 'task %d raised %s, delivered %r' % (u, sp['exc'], r))
            else:
                want = ('none', u, None) if sp['kind'] == 'none' else build(u, sp)
                bad = []
                same(r, want, 'result', bad)
                ctx.check(not bad, 'changed-result', lambda: 'task %d: %s' % (u, '; '.join(bad)))
            return
        if isinstance(r, Exception) and anon[0] > 0:
            anon[0] -= 1
            return
        ctx.fail('foreign-result', '%s delivered %r, which is the result of no outstanding task' % (op, str(r)[:200]))

    def submit(spec, custom):
        u = len(specs)
        specs[u] = spec
        where[0] = 'submitting task %d' % u
        if spec.get('load'):
            pool.custom_task(BadLoad, u, spec)
            ctx.fault('task cannot be read by the worker')
        elif custom:
            pool.custom_task(Task, u, spec)
        else:
            pool.task(u, spec)
        ctx.probe('tasks submitted')
        if spec['kind'] == 'code':
            codes[0] += 1
            ctx.fault('task returns a status code')
        elif unreportable(spec):
            anon[0] += 1
            ctx.fault('task result or exception cannot be transported')
        else:
            pending[u] = spec
            if spec['kind'] == 'raise':
                ctx.fault('task raises')
            if spec.get('size', 0) > plan['capacity']:
                ctx.fault('result larger than the pipe')

    def result():
        where[0] = 'collecting one result with %d tasks outstanding' % outstanding()
        try:
            r = pool.result()
        except Exception as e:
            ctx.fail('result-raised', 'result() raised %r instead of returning a result' % e)
            raise
        accept(r, 'result()')
        number('result()')

    def everything():
        where[0] = 'collecting all results with %d tasks outstanding' % outstanding()
        try:
            rs = pool.all_results()
        except Exception as e:
            ctx.fail('result-raised', 'all_results() raised %r instead of returning the results' % e)
            raise
        rs = list(rs)
        for r in rs:
            accept(r, 'all_results()')
        ctx.check(not pending and not anon[0], 'lost-result',
                  lambda: 'all_results() returned with tasks %s (%d more unreportable) undelivered'
                  % (sorted((u, pending[u]['kind']) for u in pending)[:8], anon[0]))
        n = getattr(pool, 'number_jobs', 0)
        ctx.check(n == 0, 'number-jobs', lambda: 'all_results() returned and number_jobs is %r' % n)
        codes[0] = 0

    for i, op in enumerate(plan['ops']):
        if op[0] == 'submit':
            submit(op[1], i % 3 == 2)
        elif op[0] == 'result':
            if outstanding():
                result()
                ctx.probe('single results collected')
        elif op[0] == 'all':
            everything()
        elif op[0] == 'pause':
            where[0] = 'pausing'
            mp.sim_sleep(op[1] / 1000.)
        snap(op[0])
    if plan['tail'] == 'all':
        everything()
        snap('all')
        if plan['after']:
            # the pool keeps serving
            for _ in range(min(3, workers + 1)):
                submit({'kind': 'ok', 'sub': 0, 'size': 0, 'dur': 1}, False)
            everything()
            ctx.probe('served again after everything was collected')
    elif plan['tail'] == 'results':
        guard = outstanding()
        while outstanding() and guard >= 0:
            result()
            guard -= 1
    left = outstanding()
    where[0] = 'closing with %d results uncollected' % left
    if left:
        ctx.fault('close with uncollected results')
    pool.close()
    snap('close')
    alive = s.alive()
    ctx.check(not alive, 'worker-survives-close', lambda: 'after close() still alive: %s' % s.describe())
    if plan['twice']:
        where[0] = 'closing a second time'
        pool.close()
        ctx.check(not s.alive(), 'worker-survives-close', lambda: 'after a second close() still alive: %s' % s.describe())
    elif left and plan['late']:
        # uncollected results are not lost by closing
        ctx.probe('collected after close')
        everything()
        ctx.check(not s.alive(), 'worker-survives-close', lambda: 'collecting after close() restarted workers: %s' % s.describe())


def shrink(plan):
    seen = core.shrink_candidates(plan, SHRINK_SKIP)
    for w in (1, 2, 3):
        if w < plan['workers']:
            yield dict(plan, workers=w)
    for c in seen:
        try:
            if all(isinstance(o, list) and o and (o[0] != 'submit' or valid(o[1])) for o in c['ops']):
                yield c
        except (TypeError, IndexError, KeyError):
            continue


def valid(s):
    return json.dumps(s) and set(s) >= {'kind', 'dur'} and (s['kind'] != 'ln' or s['n'] >= 1)
