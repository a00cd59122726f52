"""C18: reading, writing and binning location samples conserves records and probability mass."""
import math
import os
import shutil

from sim import disk, mp, seams

LEVEL = 'exploration'
RUNS = {'quick': 16000, 'thorough': 200000}
CAP_S = {'quick': 110, 'thorough': 700}
RUN_WALL_S = 60
RULE = ('a case is one or more angle-scatter files (samples, stations and their order in each block, weights, angles in clusters around '
        'multiples of half a bin, line endings, end of file), what is done with them (read, write and read again, bin, the binning command '
        'with serial, simulated parallel or MPI workers, the reader of an inversion), a sub-sampling size and seed, the compiled code '
        'present or absent, and disk faults; non-trivial when records were read back and compared')
REAL = ['MTfit.extensions.scatangle: parse_scatangle, _output_scatangle, bin_scatangle, BinScatangleTask, bin_scatangle_files, pre_inversion; '
        'cscatangle (compiled) and the Python binning', 'MTfit.inversion.Inversion._read_location', 'MTfit.utilities.file_io.read_scatangle_output',
        'JobPool and worker processes (simulated scheduling)', 'the file system (a scratch directory), through a raw layer that can fail']
STUB = ['multiprocessing (simulated processes and queues)', 'disk errors, short transfers and crashes at chosen bytes (sim/disk.py)',
        'the MPI communicator (ranks run one after another)', 'random seeds', 'clock']
STATE_MEASURE = 'hash of (mode, sizes by bucket, bin class, sub-sampling, line ending, ending, station order, compiled, bins by bucket, fault struck)'
ASSUMPTIONS = ['blocks follow the documented format: a weight line, then station lines, then a blank line', 'a station is named once per block',
               'samples that name different stations are not within half a bin of each other',
               'after a disk error the code may raise anything, but it may not return a wrong result as if it had succeeded']


def setup(scratch):
    global np, scatangle, inversion, file_io, SCRATCH
    mp.install()
    import numpy as np
    from MTfit import inversion
    from MTfit.extensions import scatangle
    from MTfit.utilities import file_io
    SCRATCH = scratch


def gen(rng, tier, index):
    mode = rng.choice(['read', 'read', 'round', 'bin', 'bin', 'bin', 'bin', 'command', 'command', 'location'])
    files = []
    for i in range(rng.choice([1, 2, 3, 5]) if mode == 'command' else 1):
        n = rng.choice([1, 1, 2, 3, 5, 8, 12, 20, 50]) if rng.random() < 0.93 else rng.randint(51, 200)
        files.append({'n': n, 'stations': rng.choice([1, 1, 2, 3, 5, 10, 30]), 'seed': rng.getrandbits(32),
                      'weights': rng.choice(['bits', 'bits', 'any', 'any', 'wide', 'one', 'int']),
                      'order': rng.choice(['same'] * 6 + ['shuffled', 'rotated', 'sets']),
                      'clusters': rng.choice([1, 1, 2, 3, n]), 'spread': rng.choice([0, 1, 2, 2, 3, 4]),
                      'angles': rng.choice(['dyadic', 'dyadic', 'dyadic', 'tenths', 'free', 'free']), 'dup': rng.random() < 0.2,
                      'eol': rng.choice(['\n', '\n', '\r\n']), 'end': rng.choice(['blank', 'blank', 'line', 'none']),
                      'sep': rng.choice(['\t', '\t', ' ', '    ']), 'names': rng.choice(['plain', 'plain', 'digits', 'prefix'])})
    nmax = max(f['n'] for f in files)
    plan = {'mode': mode, 'files': files, 'bin': rng.choice([0, 0.25, 1, 1.0, 1.0, 2.0, 2, 5.0, 0.5, 7.3, 90.0, 400.0]),
            'sub': 0 if rng.random() < 0.6 else rng.choice([1, 2, nmax - 1 or 1, nmax, nmax + 3, rng.randint(1, nmax)]),
            'seed': rng.getrandbits(32), 'c': rng.random() < 0.5, 'reader': rng.choice(['parse', 'parse', 'file_io']),
            'cpus': rng.choice([1, 2, 3, 4]), 'how': rng.choice(['serial', 'parallel', 'parallel', 'mpi', 'pre']),
            'policy': rng.choice(['random', 'random', 'pct', 'sticky']), 'short': rng.choice([0, 0, 0, 1, 7, 100]), 'faults': []}
    if mode == 'read' and rng.random() < 0.7:
        plan['bin'] = 0
    if rng.random() < 0.2:
        op = rng.choice(['read', 'read', 'write', 'write', 'open', 'close'])
        plan['faults'] = [{'op': op, 'at': rng.choice([1, 2, 3]) if op in ('open', 'close') else rng.choice([0, 0, 3, 20, 90, 400, 2000]),
                           'err': rng.choice({'read': ['EIO'], 'write': ['ENOSPC', 'ENOSPC', 'EIO', 'crash'], 'open': ['EMFILE', 'EACCES'],
                                              'close': ['EIO', 'crash']}[op]), 'persist': rng.random() < 0.5}]
        if mode == 'command':
            plan['faults'] = [f for f in plan['faults'] if f['err'] != 'crash' or plan['how'] in ('serial', 'mpi')]
    return plan


def nontrivial(plan, ctx):
    return ctx.probes.get('records compared', 0) > 0


# ---- the files

def records(f, binsize):
    """The blocks of one file: [(names, azimuths, take-off angles, weight)], in order."""
    r = np.random.RandomState(f['seed'])
    b = binsize or 1.0
    ns, n = f['stations'], f['n']
    name = {'plain': 'S%03d', 'digits': '%d', 'prefix': 'ST%s'}[f['names']]
    names = [name % ('A' * i if f['names'] == 'prefix' else i + 1) for i in range(ns)]
    unit = b / 4.0 if f['angles'] == 'dyadic' else 0.1 if f['angles'] == 'tenths' else b * 0.4999
    base = np.round(r.uniform(0, 180, (f['clusters'], 2, ns)) / unit) * unit
    out = []
    for i in range(n):
        step = r.randint(-f['spread'], f['spread'] + 1, (2, ns)) if f['spread'] else np.zeros((2, ns))
        if r.rand() < 0.5:
            # a single angle away from the centre, wherever it is in the block
            keep = np.zeros((2, ns))
            keep[r.randint(2), r.randint(ns)] = 1
            step = step * keep
        if f['angles'] == 'free':
            step = step * r.uniform(0.5, 1, (2, ns))
        ang = base[r.randint(f['clusters'])] + step * unit
        if f['angles'] == 'tenths':
            ang = np.round(ang, 1)
        order = list(range(ns))
        if f['order'] == 'shuffled':
            r.shuffle(order)
        elif f['order'] == 'rotated':
            k = r.randint(ns)
            order = order[k:] + order[:k]
        elif f['order'] == 'sets' and r.rand() < 0.5:
            order = sorted(r.permutation(ns)[:r.randint(1, ns + 1)].tolist())
        w = {'bits': 2.0 ** min(i, 49), 'any': float(np.round(r.uniform(0.1, 900), r.randint(0, 12))) or 0.5, 'wide': float(10.0 ** r.uniform(-300, 200)),
             'one': 1.0, 'int': float(r.randint(1, 50))}[f['weights']]
        if f['weights'] == 'any' and r.rand() < 0.1:
            w = float(r.uniform(0, 1e-4))
        if f['dup'] and out and r.rand() < 0.4:
            o = out[r.randint(len(out))]
            out.append((list(o[0]), list(o[1]), list(o[2]), w))
        else:
            out.append(([names[j] for j in order], [float(ang[0, j]) for j in order], [float(ang[1, j]) for j in order], w))
    return out


def text(f, recs):
    blocks = []
    for names, az, toa, w in recs:
        lines = ['%d' % w if f['weights'] == 'int' else repr(w)]
        for s in zip(names, az, toa):
            lines.append('%s%s%r%s%r' % (s[0], f['sep'], s[1], f['sep'], s[2]))
        blocks.append(f['eol'].join(lines))
    return (2 * f['eol']).join(blocks) + {'blank': 2 * f['eol'], 'line': f['eol'], 'none': ''}[f['end']]


def write(fn, f, recs):
    with disk._open(fn, 'w', newline='') as h:
        h.write(text(f, recs))


# ---- the oracle

def plain(ctx, rec):
    """A record returned by the code as (names, azimuths, take-off angles)."""
    az, toa = np.asarray(rec['Azimuth']), np.asarray(rec['TakeOffAngle'])
    n = len(rec['Name'])
    ctx.check(az.shape == (n, 1) and toa.shape == (n, 1), 'shape', lambda: 'angles of %d stations have shapes %s and %s' % (n, az.shape, toa.shape))
    return (tuple(str(x) for x in rec['Name']), tuple(az[:, 0].tolist()), tuple(toa[:, 0].tolist()))


def near(a, b, half, strict):
    """Do two records differ by less than half a bin at every station; strict: certainly so, rather than possibly."""
    if set(a[0]) != set(b[0]):
        return False
    slack = 0 if all((x * 64) % 1 == 0 for r in (a, b) for x in r[1] + r[2]) and (half * 64) % 1 == 0 else 1e-9
    ia, ib = {n: i for i, n in enumerate(a[0])}, {n: i for i, n in enumerate(b[0])}
    for n in ia:
        d = abs(a[2][ia[n]] - b[2][ib[n]])
        e = abs(a[1][ia[n]] - b[1][ib[n]])
        if not strict:
            e = min(e, abs(360 - e))
        for x in (d, e):
            if not (x < half - slack if strict else x < half + slack):
                return False
    return True


def judge(ctx, what, out, recs, binsize, sub):
    got, weights = out
    weights = [float(w) for w in weights]
    ctx.check(len(got) == len(weights), 'count', lambda: '%s: %d records but %d weights' % (what, len(got), len(weights)))
    got = [plain(ctx, g) for g in got]
    ctx.trace('%s %d -> %d %r' % (what, len(recs), len(got), math.fsum(weights)))
    ctx.probe('records compared', len(got))
    ctx.evaluations += len(got)
    ctx.steps += 1
    orig = [(tuple(n), tuple(a), tuple(t)) for n, a, t, _ in recs]
    ws = [w for _, _, _, w in recs]
    subbed = bool(sub) and sub < len(recs)
    where = {}
    for i, o in enumerate(orig):
        where.setdefault(o, []).append(i)
    if not binsize:
        if not subbed:
            ctx.check(len(got) == len(recs), 'blocks', lambda: '%s: %d records of %d blocks' % (what, len(got), len(recs)))
            for i, (g, w) in enumerate(zip(got, weights)):
                ctx.check(g == orig[i], 'record', lambda: '%s: record %d is %r, its block %r' % (what, i, g, orig[i]))
                ctx.check(w == ws[i], 'weight', lambda: '%s: record %d has weight %r, its block %r' % (what, i, w, ws[i]))
            return
        ctx.check(len(got) == sub, 'sub-sample', lambda: '%s: %d records for a sub-sample of %d' % (what, len(got), sub))
        left = {}
        for o, w in zip(orig, ws):
            left[o, w] = left.get((o, w), 0) + 1
        for g, w in zip(got, weights):
            ctx.check(left.get((g, w), 0) > 0, 'sub-sample', lambda: '%s: record %r with weight %r is not another block of the file' % (what, g, w))
            left[g, w] -= 1
        return
    # binned
    half = binsize / 2.0
    for g in got:
        ctx.check(g in where, 'record', lambda: '%s: binned record %r is not one of the file' % (what, g))
    for g in set(got):
        ctx.check(got.count(g) <= len(where[g]), 'record', lambda: '%s: record %r is kept more often than it is in the file' % (what, g))
    for w in weights:
        ctx.check(w > 0, 'weight', lambda: '%s: bin weight %r' % (what, w))
    total = math.fsum(weights)
    if not subbed:
        true = math.fsum(ws)
        ctx.maximum('relative error of the total weight', abs(total - true) / true)
        ctx.check(abs(total - true) <= 1e-12 * true, 'mass', lambda: '%s: the bins weigh %r, the samples %r' % (what, total, true))
    for i in range(len(got)):
        for j in range(i):
            ctx.check(not near(got[i], got[j], half, True), 'bin', lambda: '%s: two records of one bin are kept: %r and %r' % (what, got[j], got[i]))
    exact = len(recs) <= 50 and all(w == 2.0 ** i for i, w in enumerate(ws))
    if exact:
        seen = 0
        for g, w in zip(got, weights):
            ctx.check(w == int(w) and int(w) < 2 ** len(recs), 'mass', lambda: '%s: bin weight %r is not a sum of sample weights' % (what, w))
            bits = int(w)
            ctx.check(not bits & seen, 'mass', lambda: '%s: a sample is counted in two bins' % what)
            seen |= bits
            ctx.check(any(bits >> i & 1 for i in where[g]), 'bin', lambda: '%s: the weight %r does not include the sample kept, %s' % (what, w, where[g]))
            for i in range(len(recs)):
                if bits >> i & 1:
                    ctx.check(near(orig[i], g, half, False), 'bin', lambda: '%s: sample %d %r was merged into %r (bin %r)' % (what, i, orig[i], g, binsize))
        n = bin(seen).count('1')
        ctx.check(n == (sub if subbed else len(recs)), 'mass', lambda: '%s: %d of %d samples are counted' % (what, n, sub if subbed else len(recs)))
        ctx.probe('bins decoded', len(got))
    elif not subbed:
        for g, w in zip(got, weights):
            lo = min(ws[i] for i in where[g])
            hi = math.fsum(ws[i] for i in range(len(recs)) if near(orig[i], g, half, False))
            ctx.check(lo * (1 - 1e-12) <= w <= hi * (1 + 1e-12), 'bin', lambda: '%s: bin weight %r outside %r .. %r' % (what, w, lo, hi))


# ---- modes

class Struck(Exception):
    pass


def guarded(ctx, d, f, *args, **kwargs):
    """Run under disk faults: an error after a fault was injected is an acceptable outcome."""
    try:
        return f(*args, **kwargs)
    except seams.Crash:
        ctx.trace('crashed')
        raise Struck()
    except Exception as e:
        if d.struck:
            ctx.trace('error after a disk fault: %s' % type(e).__name__)
            raise Struck()
        raise


def parse(plan, fn):
    use = plan['c'] and scatangle.cscatangle is not None
    if plan['reader'] == 'file_io' and use:
        out = file_io.read_scatangle_output(fn, number_location_samples=plan['sub'], bin_size=plan['bin'])
        return ([{'Name': x['names'], 'Azimuth': x['azimuth'], 'TakeOffAngle': x['takeoff_angle']} for x in out['distribution']], out['probability'])
    return scatangle.parse_scatangle(fn, plan['sub'], plan['bin'], _use_c=use)


def attempt(plan, ctx, d, fns, recs):
    mode = plan['mode']
    if mode in ('read', 'bin'):
        judge(ctx, mode, guarded(ctx, d, parse, plan, fns[0]), recs[0], plan['bin'], plan['sub'])
    elif mode == 'round':
        out = guarded(ctx, d, scatangle.parse_scatangle, fns[0])
        judge(ctx, 'read', out, recs[0], 0, 0)
        fn = fns[0] + '.again'
        for k in range(2):
            guarded(ctx, d, scatangle._output_scatangle, fn, *out)
            out = guarded(ctx, d, scatangle.parse_scatangle, fn)
            judge(ctx, 'written and read', out, recs[0], 0, 0)
    elif mode == 'location':
        inv = object.__new__(inversion.Inversion)
        out = guarded(ctx, d, inv._read_location, fns[0])
        if out is False and d.struck:
            raise Struck()
        judge(ctx, 'location', out, recs[0], 0, 0)
    else:
        names = guarded(ctx, d, command, plan, ctx, fns)
        ctx.recheck()
        d.faults = []
        ctx.check(len(names) == len(fns), 'files', lambda: '%d names returned for %d files' % (len(names), len(fns)))
        left = False
        for fn, new, rec in zip(fns, names, recs):
            if d.struck and new == fn:
                # reported (logged) as not binned
                left = True
                continue
            ctx.check(new != fn and os.path.isfile(new), 'files', lambda: 'the binned file of %s is %r' % (os.path.basename(fn), new))
            judge(ctx, 'input', scatangle.parse_scatangle(fn), rec, 0, 0)
            judge(ctx, 'command', scatangle.parse_scatangle(new), rec, plan['bin'], plan['sub'])
        if left:
            raise Struck()


class Comm(object):

    def __init__(self, rank, n):
        self.rank, self.n = rank, n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.n

    def gather(self, x, root=0):
        return [x] * self.n if self.rank == root else None


def command(plan, ctx, fns):
    opts = {'number_location_samples': plan['sub'], 'bin_scatangle_size': plan['bin']}
    fns = list(fns)
    if plan['how'] == 'mpi':
        import mpi4py.MPI
        names = list(fns)
        for rank in range(plan['cpus']):
            with seams.patched(mpi4py.MPI, COMM_WORLD=Comm(rank, plan['cpus'])):
                for i, new in enumerate(scatangle.bin_scatangle_files(list(fns), mpi=True, **opts)):
                    if new != fns[i]:
                        ctx.check(names[i] == fns[i], 'files', lambda: '%s was binned by two processes' % fns[i])
                        names[i] = new
        return names
    parallel = plan['how'] != 'serial' and plan['cpus'] > 0
    with mp.Session(plan['seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
        try:
            if plan['how'] == 'pre':
                return scatangle.pre_inversion(bin_scatangle=True, location_pdf_file_path=fns, parallel=parallel, mpi=False, **opts)['location_pdf_file_path']
            return scatangle.bin_scatangle_files(fns, parallel=parallel, **opts)
        finally:
            ctx.steps += s.steps if hasattr(s, 'steps') else 0


def valid(plan):
    return bool(plan['files']) and all(f['n'] > 0 and f['stations'] > 0 and f['clusters'] > 0 and f['spread'] >= 0 and f['end'] in ('blank', 'line', 'none')
                                       and f['eol'] in ('\n', '\r\n') and f['sep'] and not f['sep'].strip() for f in plan['files']) \
        and plan['sub'] >= 0 and plan['bin'] >= 0 and plan['cpus'] > 0


def run(plan, ctx):
    if not valid(plan):
        return
    folder = os.path.join(SCRATCH, 'c18_%010d' % os.getpid())
    os.makedirs(folder, exist_ok=True)
    here = os.getcwd()
    os.chdir(folder)
    try:
        recs = [records(f, plan['bin']) for f in plan['files']]
        fns = ['f%d.scatangle' % i for i in range(len(recs))]
        for fn, f, rec in zip(fns, plan['files'], recs):
            write(fn, f, rec)
        seams.seed_all(plan['seed'])
        ext = seams.ALL_EXT if plan['c'] else ()
        with seams.extensions(ext):
            struck = False
            with disk.Disk(folder, ctx, plan['faults'], plan['short']) as d:
                try:
                    attempt(plan, ctx, d, fns, recs)
                except Struck:
                    struck = True
                if plan['short']:
                    ctx.fault('short transfers', d.reads + d.writes)
            ctx.state(plan['mode'], plan['how'] if plan['mode'] == 'command' else '', plan['reader'], plan['c'], min(plan['files'][0]['n'], 4), min(plan['files'][0]['stations'], 3),
                      plan['files'][0]['order'], plan['files'][0]['eol'], plan['files'][0]['end'], bool(plan['bin']), (plan['sub'] > 0) + (plan['sub'] >= plan['files'][0]['n']), struck)
            if struck:
                # faults are over: the same work succeeds
                with disk.Disk(folder, ctx) as d:
                    attempt(plan, ctx, d, fns, recs)
                ctx.probe('repeated after a fault')
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)
