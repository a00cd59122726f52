"""C17: input files and binary result files give back the data they carry."""
import copy
import os
import pickle
import shutil

from sim import disk, mp, seams

LEVEL = 'exploration'
RUNS = {'quick': 9000, 'thorough': 150000}
CAP_S = {'quick': 120, 'thorough': 750}
RUN_WALL_S = 60
RULE = ('a case is a CSV file (events, data types, stations, order of the columns of each type, one- or two-valued fields, UIDs, separators, '
        'line endings), a NonLinLoc hypocentre file (events, phases, polarities), or result dictionaries (0 to many samples, one to three '
        'events or concatenated records, converted or not, scale factors, made up, stored by the real sample store or sampled by a real '
        'inversion) written directly or by the output functions (with or without a simulated worker pool), with disk faults; non-trivial '
        'when rows or samples were read back and compared')
REAL = ['MTfit.utilities.file_io: parse_csv, csv2inv, PickleOutputTask, parse_hyp, _convert_mt_space_to_struct, hyp_output_dicts, hyp_output, '
        'HypOutputTask, read_binary_output, read_sf_output, read_hyp_output', 'MTfit.inversion.Inversion._load and Inversion.output',
        'MTfit.sampling.Sample.output and conversion', 'JobPool and worker processes (simulated scheduling)',
        'the file system (a scratch directory), through a raw layer that can fail']
STUB = ['multiprocessing (simulated processes and queues)', 'disk errors, short transfers and crashes at chosen bytes (sim/disk.py)', 'random seeds', 'clock']
STATE_MEASURE = 'hash of (mode, numbers of events, types, rows or samples by bucket, column order, layout flags, writer, fault struck)'
ASSUMPTIONS = ['every CSV data type has its header line', 'station names and UIDs hold no commas or surrounding blanks',
               'an off-diagonal component may change by one rounding (it is stored divided by the square root of two)',
               'after a disk error the code may raise anything or log the error; what it then reads back may not differ from what was written']
KEYS = ['PPolarity', 'SHPolarity', 'SVPolarity', 'P/SHRMSAmplitudeRatio', 'P/SVAmplitudeRatio', 'SH/SVQRMSAmplitudeRatio', 'PPolarityProbability',
        'PAmplitude', 'SHRMSAmplitude', 'P/SHAmplitude_Ratio']
COLUMNS = ['Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error']
CONVERTED = ['g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2']


def setup(scratch):
    global np, c01, events, file_io, inversion, sampling, LnPDF, JobPool, SCRATCH
    from props import c01
    c01.setup(scratch)
    import numpy as np
    from sim import events
    from MTfit import inversion, sampling
    from MTfit.probability import LnPDF
    from MTfit.utilities import file_io
    from MTfit.utilities.multiprocessing_helper import JobPool
    SCRATCH = scratch


# ---- plans

def gen(rng, tier, index):
    mode = rng.choice(['csv', 'csv', 'csv', 'csv', 'hyp', 'hyp', 'binary', 'binary', 'binary', 'binary', 'store', 'store'])
    if index % 40 == 0:
        mode = 'inversion'
    plan = {'mode': mode, 'seed': rng.getrandbits(32), 'short': rng.choice([0, 0, 0, 0, 1, 5, 33, 1000]), 'faults': [],
            'eol': rng.choice(['\n', '\n', '\r\n']), 'file': rng.choice(['data', 'data', 'run.1', 'a b'])}
    if mode == 'csv':
        evs = []
        for i in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
            if evs and rng.random() < 0.2:
                e = copy.deepcopy(rng.choice(evs))
                e['uid'] = rng.choice(['', e['uid']])
            else:
                keys = rng.sample(KEYS, rng.choice([1, 1, 2, 3, 4]))
                two = [rng.choice([(1, 1), (1, 1), (2, 2), (2, 1), (1, 2)]) for k in keys]
                perms = [rng.sample(range(5), 5) if rng.random() < 0.6 else [0, 1, 2, 3, 4] for k in keys]
                e = {'uid': rng.choice(['', '', '123', '7', '20140101T120000.5', 'event-1', 'big one', 'GUID7', 'a=b']), 'seed': rng.getrandbits(32),
                     'types': [{'key': k, 'n': rng.choice([1, 1, 2, 3, 5, 9, 20]), 'two': t, 'columns': p} for k, t, p in zip(keys, two, perms)]}
            evs.append(e)
        plan.update(events=evs, between=[rng.choice(['commas', 'commas', 'commas', 'blank', 'spaces', 'two']) for e in evs],
                    last=rng.choice(['newline', 'newline', 'none', 'commas', 'blank']), numbers=rng.choice(['repr', 'repr', 'short', 'exp', 'int']),
                    uidform=rng.choice(['=', '=', '= ']), pad=rng.choice(['commas', 'commas', 'none']), tail=rng.random() < 0.2,
                    reader=rng.choice(['parse', 'csv2inv', 'csv2inv', 'load']))
    elif mode == 'hyp':
        plan['events'] = [{'seed': rng.getrandbits(32), 'phases': rng.choice([0, 1, 1, 2, 3, 8, 20, 40]), 'stations': rng.choice([1, 2, 5, 20]),
                           'silent': rng.choice([0, 0.3, 0.5, 1])} for i in range(rng.choice([1, 1, 2, 3, 5]))]
        plan.update(prior=rng.random() < 0.3, reader=rng.choice(['parse', 'load']), blank=rng.choice([0, 1, 2]), last=rng.choice(['newline', 'none']),
                    kinds=rng.choice([['P'], ['P', 'S'], ['P', 'S', 'SH'], ['Pg', 'Sn', 'P']]))
    else:
        ne = rng.choice([1, 1, 1, 2, 3, 4])
        multi = ne > 1
        plan.update(events=ne, converted=rng.random() < 0.5, scales=multi and rng.random() < 0.5, records=1 if mode != 'binary' else rng.choice([1, 1, 2, 3]),
                    n=[rng.choice([0, 1, 1, 2, 3, 7, 50]) if rng.random() < 0.95 else 700 for i in range(3)],
                    ndim=rng.choice([1, 1, 2]), lnndim=rng.choice([1, 2, 2]), evidence=rng.random() < 0.6, dkl=rng.random() < 0.6,
                    values=rng.choice(['unit', 'unit', 'any', 'extreme']), total=rng.choice([0, 1, 12345, 2 ** 31, 2 ** 40 + 1, 2 ** 63]),
                    writer=rng.choice(['struct', 'struct', 'hyp', 'hyp', 'pool']), fid=rng.choice(['out.hyp', 'out.hyp', 'run.1.hyp', 'out.mat', 'out', 'x.hyp.d/out.hyp', 'a.hyp.hyp']),
                    data=events_plan(rng, ne), cpus=rng.choice([1, 2, 3]), policy=rng.choice(['random', 'random', 'pct', 'sticky']),
                    sched_seed=rng.getrandbits(32))
        if mode == 'store':
            plan['batches'] = [rng.choice([0, 1, 1, 2, 5, 30]) for i in range(rng.choice([1, 2, 3]))]
            plan['discard'] = rng.choice([0, 0, 10, 10000])
            plan['normalise'] = rng.random() < 0.5
        if mode == 'inversion':
            plan['writer'] = rng.choice(['hyp', 'pool'])
            plan['size'] = rng.choice([1, 5, 40])
            plan['tasks'] = rng.choice([1, 2])
            plan['records'] = rng.choice([1, 1, 2])
            plan['relative'] = rng.random() < 0.6
            plan['algorithm'] = rng.choice(['iterate', 'iterate', 'mcmc']) if ne == 1 else 'iterate'
            plan['chain'] = rng.choice([3, 10])
            plan['faults'] = []
    if rng.random() < 0.18:
        op = rng.choice(['read', 'read', 'write', 'write', 'open', 'close'])
        plan['faults'] = [{'op': op, 'at': rng.choice([1, 1, 2, 3]) if op in ('open', 'close') else rng.choice([0, 0, 8, 40, 41, 105, 300, 2000]),
                           'err': rng.choice({'read': ['EIO'], 'write': ['ENOSPC', 'ENOSPC', 'EIO', 'crash'], 'open': ['EMFILE', 'EACCES'],
                                              'close': ['EIO', 'crash']}[op]), 'persist': rng.random() < 0.5}]
        if plan.get('writer') == 'pool' or mode == 'inversion':
            plan['faults'] = [f for f in plan['faults'] if f['err'] != 'crash']
    return plan


def events_plan(rng, ne):
    from sim import events as ev
    out = [ev.gen_event(rng, 'e%d' % i, locations=False) for i in range(ne)]
    for e in out:
        for t in e['types']:
            t['error'] = 'large'
            t['mispick'] = None
    return out


def nontrivial(plan, ctx):
    return ctx.probes.get('rows compared', 0) + ctx.probes.get('samples compared', 0) > 0


# ---- helpers

class Struck(Exception):
    pass


def guarded(ctx, d, f, *args, **kwargs):
    try:
        return f(*args, **kwargs)
    except seams.Crash:
        ctx.trace('crashed')
        raise Struck()
    except Exception as e:
        if d.struck:
            ctx.trace('error after a disk fault: %s' % type(e).__name__)
            raise Struck()
        raise


def put(fn, text, eol='\n'):
    with disk._open(fn, 'w', newline='') as f:
        f.write(text.replace('\n', eol))


def column(ctx, what, got, want):
    got = np.asarray(got)
    ctx.check(got.shape == np.shape(want), 'shape', lambda: '%s has shape %s for rows %s' % (what, got.shape, np.shape(want)))
    ctx.check(np.array_equal(got.astype(float), np.asarray(want, float)), 'rows', lambda: '%s is %s, the file says %s' % (what, got.tolist(), want))


# ---- CSV

def number(r, kind, how):
    if kind == 'polarity':
        v = float(r.choice([-1, 1]))
    elif kind == 'angle':
        v = r.uniform(0, 360)
    else:
        v = 10.0 ** r.uniform(-6, 4) * (r.choice([-1, 1]) if kind == 'any' else 1)
    s = {'repr': repr(v), 'short': '%.4g' % v, 'exp': '%.6e' % v, 'int': '%d' % round(v)}[how]
    return s, float(s)


def csv_event(plan, e):
    """The table of one event: [(key, rows of text cells by column name, names, azimuths, take-off angles, measured, errors)]."""
    r = np.random.RandomState(e['seed'])
    out = []
    for t in e['types']:
        pol = 'Polarity' in t['key'] and 'Prob' not in t['key']
        rows, cols = [], ([], [], [], [], [])
        for i in range(t['n']):
            name = '%s%03d' % (r.choice(['S', 'ST_', 'x', '']), r.randint(1000)) + (str(i) if r.rand() < 0.8 else '')
            az, toa = number(r, 'angle', plan['numbers']), number(r, 'angle', plan['numbers'])
            m = [number(r, 'polarity' if pol else 'any', plan['numbers']) for k in range(t['two'][0])]
            er = [number(r, 'positive', plan['numbers']) for k in range(t['two'][1])]
            rows.append({'Name': name, 'Azimuth': az[0], 'TakeOffAngle': toa[0], 'Measured': ' '.join(x[0] for x in m), 'Error': ' '.join(x[0] for x in er)})
            for c, v in zip(cols, (name, [az[1]], [toa[1]], [x[1] for x in m], [x[1] for x in er])):
                c.append(v)
        out.append((t['key'], rows, cols))
    return out


def csv_text(plan, tables):
    lines = []
    pad = ',,,,' if plan['pad'] == 'commas' else ''
    for i, (e, tab) in enumerate(zip(plan['events'], tables)):
        if i:
            lines += {'commas': [',,,,'], 'blank': [''], 'spaces': ['  '], 'two': [',,,,', ',,,,']}[plan['between'][i]]
        if e['uid']:
            lines.append('UID%s%s%s' % (plan['uidform'], e['uid'], pad))
        for t, (key, rows, _) in zip(e['types'], tab):
            cols = [COLUMNS[c] for c in t['columns']]
            lines.append(key + (' ' if plan['tail'] else '') + pad)
            lines.append(','.join(cols))
            lines += [','.join(row[c] for c in cols) for row in rows]
    return '\n'.join(lines) + {'newline': '\n', 'none': '', 'commas': '\n,,,,\n', 'blank': '\n\n'}[plan['last']]


def check_csv(ctx, plan, tables, got):
    ctx.check(isinstance(got, list) and len(got) == len(tables), 'events', lambda: '%s events of %d' % (len(got) if isinstance(got, list) else got, len(tables)))
    for i, (e, tab, g) in enumerate(zip(plan['events'], tables, got)):
        ctx.check(g.get('UID') == (e['uid'] or str(i + 1)), 'uid', lambda: 'event %d has UID %r, its file %r' % (i + 1, g.get('UID'), e['uid']))
        ctx.check(set(g) - {'UID'} == {k for k, _, _ in tab}, 'types', lambda: 'event %d has %s of %s' % (i + 1, sorted(g), sorted(k for k, _, _ in tab)))
        for key, rows, (names, az, toa, m, er) in tab:
            d = g[key]
            what = 'event %d %s ' % (i + 1, key)
            ctx.check(list(d['Stations']['Name']) == names, 'rows', lambda: '%snames are %s, the file says %s' % (what, d['Stations']['Name'], names))
            column(ctx, what + 'Azimuth', d['Stations']['Azimuth'], az)
            column(ctx, what + 'TakeOffAngle', d['Stations']['TakeOffAngle'], toa)
            column(ctx, what + 'Measured', d['Measured'], m)
            column(ctx, what + 'Error', d['Error'], er)
            ctx.probe('rows compared', len(rows))
    ctx.trace('csv %s' % [(g['UID'], sorted(g)) for g in got])
    ctx.evaluations += len(got)


def run_csv(plan, ctx, d):
    tables = [csv_event(plan, e) for e in plan['events']]
    fn = plan['file'] + '.csv'
    put(fn, csv_text(plan, tables), plan['eol'])
    load = object.__new__(inversion.Inversion)._load
    if plan['reader'] == 'parse':
        check_csv(ctx, plan, tables, guarded(ctx, d, file_io.parse_csv, fn))
    elif plan['reader'] == 'load':
        got = guarded(ctx, d, load, fn)
        if d.struck:
            raise Struck()
        check_csv(ctx, plan, tables, got)
    else:
        inv = plan['file'] + '.inv'
        guarded(ctx, d, file_io.csv2inv, fn)
        struck = d.struck
        try:
            with disk._open(inv, 'rb') as f:
                got = pickle.load(f)
        except Exception as e:
            if not struck:
                ctx.fail('file', 'the file written from %s does not load: %r' % (fn, e))
            raise Struck()
        check_csv(ctx, plan, tables, got)
        if not struck:
            got = guarded(ctx, d, load, inv)
            if not d.struck:
                check_csv(ctx, plan, tables, got)
    ctx.steps += 1


# ---- hypocentre files

HEAD = '''NLLOC "./loc/x.2015.grid0" "LOCATED" "Location completed."
SIGNATURE "   run" "x"
COMMENT "a comment"
GRID  20 20 20  -10 -10 0  1 1 1 PROB_DENSITY
SEARCH OCTREE nInitial 4000 nEvaluated 10000
HYPOCENTER  x -1.36 y 1.44 z 9.39  OT %(sec)s  ix -1 iy -1 iz -1
GEOGRAPHIC  OT 2015 01 26  22 %(min)02d %(sec)s  Lat 64.3 Long -17.2 Depth 9.39
QUALITY  Pmax 1.5 MFmin 8 MFmax 10 RMS 0.06 Nphs 44 Gap 80 Dist 1.1 Mamp -9.9 0 Mdur -9.9 0
VPVSRATIO  VpVsRatio 1.77  Npair 22  Diff 1.3
STATISTICS  ExpectX -1.3 Y 1.4 Z 9.4  CovXX 0.01 XY 0 XZ 0 YY 0.01 YZ 0 ZZ 0.02 EllAz1  3 Dip1  4 Len1  0.1 Az2  9 Dip2  1 Len2  0.1 Len3  2.8
TRANSFORM  SIMPLE LatOrig 64.3 LongOrig -17.2 RotCW 0.0
'''
PHASE = 'PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  %s>   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr\n'


def hyp_event(plan, e):
    r = np.random.RandomState(e['seed'])
    text = HEAD % {'sec': '%.4f' % r.uniform(0, 59), 'min': r.randint(60)} + PHASE % ('PriorWt  ' if plan['prior'] else '')
    picks = {}
    for i in range(e['phases']):
        name = 'S%03d' % r.randint(e['stations'])
        kind = plan['kinds'][r.randint(len(plan['kinds']))]
        fm = '?' if r.rand() < e['silent'] else str(r.choice(['U', 'D', '+', '-', 'C', 'u', 'd', '.', 'P', 'N', 'c']))
        err, az, toa = float('%.2e' % 10 ** r.uniform(-3, 0)), round(r.uniform(0, 360), 1), round(r.uniform(0, 180), 1)
        text += '%-6s %-4s %-4s %-4s %-6s %s 20150126 22%02d  %8.4f GAU %9.2e %9.2e %9.2e %9.2e %s> %9.4f %9.4f %9.4f %9.4f %9.4f %9.4f %8.4f %6.2f %5.1f %5.1f %2d %9.4f\n' % (
            name, '?', '?', '?', kind, fm, r.randint(60), r.uniform(0, 60), err, -1, r.uniform(0, 5), -1, '%9.4f ' % 1 if plan['prior'] else '',
            r.uniform(0, 9), r.uniform(-1, 1), r.uniform(0, 2), r.uniform(-9, 9), r.uniform(-9, 9), 0, r.uniform(0, 9), r.uniform(0, 360), az, toa, r.randint(0, 10), 0)
        sign = {'u': 1, '+': 1, 'c': 1, 'p': 1, 'd': -1, '-': -1, 'n': -1}.get(fm.lower(), 0)
        if sign:
            picks.setdefault(kind + 'Polarity', []).append((name, sign, [az], [toa], err))
    return text + 'END_PHASE\nEND_NLLOC\n', picks


def run_hyp(plan, ctx, d):
    made = [hyp_event(plan, e) for e in plan['events']]
    text = ('\n' * plan['blank']).join(t for t, _ in made)
    fn = plan['file'] + '.hyp'
    put(fn, text if plan['last'] == 'newline' else text.rstrip('\n'), plan['eol'])
    if plan['reader'] == 'parse':
        got = guarded(ctx, d, file_io.parse_hyp, fn)
    else:
        got = guarded(ctx, d, object.__new__(inversion.Inversion)._load, fn)
        if d.struck:
            raise Struck()
    ctx.check(isinstance(got, list), 'events', lambda: 'read as %r' % (got,))
    if len(got) != len(made):
        # an event without picks need not be returned
        made = [m for m in made if m[1]]
    ctx.check(len(got) == len(made), 'events', lambda: '%d events of %d' % (len(got), len(made)))
    for i, (g, (_, picks)) in enumerate(zip(got, made)):
        keys = {k for k in g if k not in ('UID', 'hyp_file')}
        ctx.check(keys == set(picks), 'types', lambda: 'event %d has %s of %s' % (i + 1, sorted(keys), sorted(picks)))
        for k, rows in picks.items():
            what = 'event %d %s ' % (i + 1, k)
            st = g[k]['Stations']
            ctx.check(list(st['Name']) == [x[0] for x in rows], 'rows', lambda: '%snames are %s, the file says %s' % (what, st['Name'], [x[0] for x in rows]))
            column(ctx, what + 'Measured', g[k]['Measured'], [[x[1]] for x in rows])
            column(ctx, what + 'Azimuth', st['Azimuth'], [x[2] for x in rows])
            column(ctx, what + 'TakeOffAngle', st['TakeOffAngle'], [x[3] for x in rows])
            er = np.asarray(g[k]['Error'], float).reshape(-1)
            ctx.check(er.shape == (len(rows),), 'shape', lambda: '%s%d errors for %d rows' % (what, er.size, len(rows)))
            ratio = er / np.array([x[4] for x in rows])
            ctx.check(ratio.min() > 0 and ratio.max() < ratio.min() * (1 + 1e-9), 'rows', lambda: '%serrors are %s for uncertainties %s' % (what, er, [x[4] for x in rows]))
            ctx.probe('rows compared', len(rows))
    ctx.trace('hyp %s' % [sorted(g) for g in got])
    ctx.evaluations += len(got)
    ctx.steps += 1


# ---- binary results

def made_up(plan, r, n):
    ne = plan['events']
    out = {'total_number_samples': plan['total'], 'dV': 1.0}

    def values(shape):
        if plan['values'] == 'unit':
            return r.normal(size=shape)
        v = r.normal(size=shape) * 10.0 ** r.uniform(-9, 9, shape)
        if plan['values'] == 'extreme':
            pick = r.integers(0, 9, shape)
            for i, x in enumerate((0.0, -0.0, 1e-300, -1e300, 5e-324)):
                v = np.where(pick == i, x, v)
        return v
    p, ln = np.abs(values(n)), values(n)
    if plan['values'] == 'extreme' and n:
        ln[r.random(n) < 0.2] = -np.inf
    out['probability'] = np.matrix(p) if plan['ndim'] == 2 else p
    out['ln_pdf'] = np.matrix(ln) if plan['lnndim'] == 2 else ln
    if plan['evidence']:
        out['ln_bayesian_evidence'] = float(values(1)[0])
    if plan['dkl']:
        out['dkl'] = float(values(1)[0])
    for e in range(ne):
        end = '_%d' % (e + 1) if ne > 1 else ''
        out['moment_tensor_space' + end] = np.matrix(values((6, n)))
        if plan['converted']:
            for k in CONVERTED:
                out[k + end] = values(n)
    if plan['scales']:
        out['scale_factors'] = [{'mu': np.triu(values((ne, ne)), 1), 'sigma': np.triu(np.abs(values((ne, ne))), 1)} for i in range(n)]
    return out


def stored(plan, r):
    ne = plan['events']
    s = sampling.Sample(initial_sample_size=r.integers(1, 60), number_events=ne)
    total = 0
    for n in plan['batches']:
        m = r.normal(size=(ne, 6, n))
        m /= np.sqrt((m ** 2).sum(1, keepdims=True)) if n else 1
        ln = -10.0 ** r.uniform(-3, 2.5, (1, n))
        ln[:, r.random(n) < 0.2] = -np.inf
        sf = [{'mu': np.triu(r.uniform(0.1, 9, (ne, ne)), 1), 'sigma': np.triu(r.uniform(0.1, 9, (ne, ne)), 1)} for i in range(n)]
        args = [np.matrix(m.reshape(6 * ne, n)), LnPDF(np.matrix(ln)), n]
        if not n:
            continue
        s.append(*(args + [np.array(sf, dtype=object)] if plan['scales'] else args))
        total += n
    out, _ = s.output(plan['normalise'], convert=plan['converted'], n_samples=total, discard=plan['discard'])
    if not len(out['probability']):
        return None
    out['total_number_samples'] = total
    return out


def expected(out, ne):
    """The records one result dictionary is written as: one for every event."""
    recs = []
    for e in range(ne):
        end = '' if 'moment_tensor_space' in out else '_%d' % (e + 1)
        rec = {'m': np.array(out['moment_tensor_space' + end], float), 'p': c01.arr(out['probability']).reshape(-1).copy(), 'ln': c01.arr(out['ln_pdf']).reshape(-1).copy(),
               'n': int(out['total_number_samples']), 'dkl': out.get('dkl'), 'ev': out.get('ln_bayesian_evidence'), 'conv': None}
        if all(k + end in out for k in CONVERTED):
            rec['conv'] = {k: np.array(out[k + end], float).reshape(-1) for k in CONVERTED}
        recs.append(rec)
    return recs


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def check_records(ctx, what, got, want):
    ctx.check(len(got) == len(want), 'records', lambda: '%s: %d records of %d' % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        at = '%s: record %d: ' % (what, i)
        n = w['m'].shape[1]
        m = np.asarray(g['moment_tensor_space'], float)
        ctx.check(m.shape == (6, n), 'shape', lambda: '%stensors of shape %s, written %s' % (at, m.shape, w['m'].shape))
        tol = 1e-15 * np.abs(w['m']) + 1e-322
        tol[:3] = 0
        bad = ~(np.abs(m - w['m']) <= tol)
        ctx.check(not bad.any(), 'tensors', lambda: '%stensors %s, written %s' % (at, m[bad][:3], w['m'][bad][:3]))
        ctx.check(same(np.asarray(g['probability']).reshape(-1), w['p']), 'probability', lambda: '%sprobabilities %s, written %s' % (at, np.asarray(g['probability']).reshape(-1)[:4], w['p'][:4]))
        ctx.check(same(np.asarray(g['ln_pdf']).reshape(-1), w['ln']), 'ln_pdf', lambda: '%slog-probabilities %s, written %s' % (at, np.asarray(g['ln_pdf']).reshape(-1)[:4], w['ln'][:4]))
        ctx.check(int(g['total_number_samples']) == w['n'], 'count', lambda: '%s%s samples in total, written %s' % (at, g['total_number_samples'], w['n']))
        if w['dkl'] is not None and 'dkl' in g:
            ctx.check(same(g['dkl'], w['dkl']), 'dkl', lambda: '%sdkl %s, written %s' % (at, g['dkl'], w['dkl']))
        if w['ev'] is not None and g.get('ln_bayesian_evidence') is not None:
            ctx.check(same(g['ln_bayesian_evidence'], w['ev']), 'evidence', lambda: '%sevidence %s, written %s' % (at, g['ln_bayesian_evidence'], w['ev']))
        ctx.check((w['conv'] is not None) == all(k in g for k in CONVERTED), 'converted', lambda: '%sconverted parameters read: %s, written: %s' % (at, sorted(g), w['conv'] is not None))
        if w['conv']:
            for k in CONVERTED:
                ctx.check(same(np.asarray(g[k]).reshape(-1), w['conv'][k]), 'converted', lambda: '%s%s is %s, written %s' % (at, k, np.asarray(g[k]).reshape(-1)[:4], w['conv'][k][:4]))
        ctx.probe('samples compared', n)
        if not n:
            ctx.probe('empty records')
    ctx.trace('%s %s' % (what, [np.asarray(g['moment_tensor_space']).shape[1] for g in got]))
    ctx.evaluations += len(want)


def check_scales(ctx, what, got, outs, ne):
    """Every event of a result writes the scale factors of all."""
    want = [o for o in outs for e in range(ne)]
    ctx.check(len(got) == len(want), 'records', lambda: '%s: %d scale factor records of %d' % (what, len(got), len(want)))
    pairs = [(i, j) for i in range(ne) for j in range(i + 1, ne)]
    for g, o in zip(got, want):
        sf = o['scale_factors']
        if not sf:
            continue
        for key, name in (('scale_factors', 'mu'), ('sigma', 'sigma')):
            w = np.array([[float(s[name][i, j]) for s in sf] for i, j in pairs]).reshape(len(pairs), len(sf))
            ctx.check(same(np.asarray(g[key]), w), 'scale', lambda: '%s: scale factor %s %s, written %s' % (what, name, g[key], w))
        ctx.check(same(np.asarray(g['ln_pdf']).reshape(-1), c01.arr(o['ln_pdf']).reshape(-1)), 'scale', '%s: log-probabilities of the scale factors differ' % what)
        ctx.check(int(g['total_number_samples']) == int(o['total_number_samples']), 'scale', '%s: total of the scale factors differs' % what)
        ctx.probe('scale factors compared', len(sf))


def base(fid):
    return os.path.splitext(fid)[0]


def run_binary(plan, ctx, d):
    r = events.pcg(plan['seed'])
    ne = plan['events']
    if plan['mode'] == 'store':
        outs = [stored(plan, r)]
        if outs[0] is None:
            ctx.trace('nothing stored')
            return
    else:
        outs = [made_up(plan, r, plan['n'][i]) for i in range(plan['records'])]
    want = [rec for o in outs for rec in expected(o, ne)]
    outs_in = copy.deepcopy(outs)
    if plan['writer'] == 'struct':
        def write():
            done = [file_io._convert_mt_space_to_struct(o, e + 1 if ne > 1 else False) for o in outs_in for e in range(ne)]
            for ext, k in (('.mt', 0), ('.sf', 1)):
                with open('out' + ext, 'wb') as f:
                    f.write(b''.join(x[k] for x in done))
        guarded(ctx, d, write)
        readers = [('read', lambda: file_io.read_binary_output('out.mt'))]
        finish(plan, ctx, d, readers, 'out', want, outs, ne)
        return
    data = [events.make_event(e)[0] for e in plan['data']]
    fids = [plan['fid'] if len(outs) == 1 else '%d%s' % (i, plan['fid']) for i in range(len(outs))]
    for f in fids:
        if os.path.dirname(f):
            os.makedirs(os.path.dirname(f), exist_ok=True)
    texts = [guarded(ctx, d, file_io.hyp_output_dicts, copy.deepcopy(data if ne > 1 else data[0]), False, o, multiple_events=ne > 1) for o in outs_in]
    if plan['writer'] == 'pool':
        with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
            pool = JobPool(plan['cpus'])
            done = [guarded(ctx, d, file_io.hyp_output, t, f, pool) for t, f in zip(texts, fids)]
            guarded(ctx, d, pool.all_results)
            pool.close()
        ctx.choices = s.picks
        ctx.probe('context switches', s.switches)
    else:
        done = [guarded(ctx, d, file_io.hyp_output, t, f) for t, f in zip(texts, fids)]
    if plan['short'] or not d.struck:
        pass
    for i, (f, (_, fid)) in enumerate(zip(fids, done)):
        ctx.check(os.path.isfile(fid) or d.struck, 'file', lambda: '%s was not written' % fid)
        if os.path.isfile(fid) and not d.struck:
            with disk._open(fid) as h:
                text = h.read()
            ctx.check(text == texts[i][0], 'file', lambda: 'the text file %s does not hold the text (%r ...)' % (fid, text[:40]))
        readers = [('read_hyp_output', lambda: file_io.read_hyp_output(fid)[0]), ('read', lambda: file_io.read_binary_output(base(fid) + '.mt'))]
        finish(plan, ctx, d, readers, base(fid), want[i * ne:(i + 1) * ne], outs[i:i + 1], ne)


def finish(plan, ctx, d, readers, stem, want, outs, ne):
    torn = d.struck
    for what, read in readers:
        try:
            got = guarded(ctx, d, read)
        except Struck:
            raise
        except Exception as e:
            if torn:
                raise Struck()
            ctx.fail('file', '%s of the written file: %r' % (what, e))
        if torn and len(got) < len(want):
            # a write that failed between records
            check_records(ctx, what + ' of a torn file', got, want[:len(got)])
            raise Struck()
        check_records(ctx, what, got, want)
    if plan['scales'] and want[0]['m'].shape[1]:
        try:
            got = guarded(ctx, d, file_io.read_sf_output, stem + '.sf')
        except Struck:
            raise
        except Exception as e:
            if torn:
                raise Struck()
            ctx.fail('file', 'read_sf_output of the written file: %r' % (e,))
        if torn and len(got) < len(outs) * ne:
            raise Struck()
        check_scales(ctx, 'read_sf_output', got, outs, ne)
    ctx.steps += 1


def run_inversion(plan, ctx, d):
    ne = plan['events']
    multi = ne > 1
    plans = plan['data'] if multi else [dict(plan['data'][0], uid='e%d' % i) for i in range(plan['records'])]
    data = [events.make_event(e)[0] for e in plans]
    if multi and plan['relative']:
        r = events.pcg(plan['seed'])
        n = 4
        for e in data:
            e['PAmplitude'] = {'Stations': {'Name': ['R%d' % i for i in range(n)], 'Azimuth': np.matrix(r.uniform(0, 360, (n, 1))), 'TakeOffAngle': np.matrix(r.uniform(0, 180, (n, 1)))},
                               'Measured': np.matrix(r.uniform(0.5, 2, (n, 1))), 'Error': np.matrix(np.full((n, 1), 0.4))}
    seen = []
    write = file_io.hyp_output

    def record(data, fid='MTfitOutput.hyp', *a, **k):
        res = write(data, fid, *a, **k)
        seen.append((data, res[1]))
        return res
    dicts = file_io.hyp_output_dicts
    outs = []

    def keep(event_data, options=False, output_data=False, *a, **k):
        outs.append(copy.deepcopy(output_data))
        return dicts(event_data, options, output_data, *a, **k)
    real_ext = inversion.get_extensions

    def ext(group, defaults=None):
        if group == 'MTfit.output_formats':
            return ['hyp'], {'hyp': record}
        if group == 'MTfit.output_data_formats':
            return ['hyp'], {'hyp': keep}
        return real_ext(group, defaults) if defaults is not None else real_ext(group)
    real_update = inversion.Inversion._update_samples

    def update(self, *a, **k):
        real_update(self, *a, **k)
        self.number_samples = plan['size']
        if hasattr(self, 'kwargs'):
            self.kwargs['number_samples'] = plan['size']
    kw = dict(data=copy.deepcopy(data), algorithm=plan['algorithm'], path='.', convert=plan['converted'], multiple_events=multi,
              relative_amplitude=multi and plan['relative'], output_format='hyp', results_format='hyp', fid='out.hyp' if multi else False)
    if plan['algorithm'] == 'mcmc':
        kw.update(chain_length=plan['chain'], learning_length=4, mode='metropolis_hastings')
    else:
        kw['max_samples'] = plan['size'] * plan['tasks']
    seams.seed_all(plan['seed'])
    with seams.patched(inversion, get_extensions=ext), seams.patched(inversion.Inversion, _update_samples=update):
        if plan['writer'] == 'pool':
            with mp.Session(plan['sched_seed'], plan['policy'], plan.get('choices'), ctx, capacity=1 << 16, cpus=plan['cpus']) as s:
                inversion.Inversion(parallel=True, n=plan['cpus'], **kw).forward()
            ctx.choices = s.picks
            ctx.probe('context switches', s.switches)
        else:
            inversion.Inversion(parallel=False, **kw).forward()
    ctx.check(len(outs) == len(seen), 'file', lambda: '%d results were made and %d written' % (len(outs), len(seen)))
    ctx.probe('inversion results written', len(seen))
    for o, (_, fid) in zip(outs, seen):
        if plan['converted'] and not any(k in o for k in ('g', 'g_1')):
            ctx.fail('converted', 'the result of an inversion was not converted')
        sub = dict(plan, scales='scale_factors' in o)
        readers = [('inversion', lambda: file_io.read_hyp_output(fid)[0])]
        finish(sub, ctx, d, readers, base(fid), expected(o, ne), [o], ne)


def valid(plan):
    mode = plan['mode']
    if not plan['file'].strip() or plan['eol'] not in ('\n', '\r\n'):
        return False
    if mode == 'csv':
        return bool(plan['events']) and len(plan['between']) >= len(plan['events']) and plan['uidform'] in ('=', '= ') and all(
            e['types'] and len({t['key'] for t in e['types']}) == len(e['types']) and ',' not in e['uid'] and e['uid'] == e['uid'].strip()
            and all(t['key'] in KEYS and t['n'] > 0 and len(t['two']) == 2 and min(t['two']) > 0 and sorted(t['columns']) == [0, 1, 2, 3, 4] for t in e['types'])
            for e in plan['events'])
    if mode == 'hyp':
        return bool(plan['events']) and bool(plan['kinds']) and all(k and k == k.strip() for k in plan['kinds']) and all(e['stations'] > 0 and e['phases'] >= 0 for e in plan['events'])
    ok = plan['events'] > 0 and len(plan['data']) >= plan['events'] and plan['records'] > 0 and len(plan['n']) >= plan['records'] and plan['cpus'] > 0 and base(plan['fid']) \
        and 0 <= plan['total'] <= 2 ** 63 and not (plan['scales'] and plan['events'] < 2) and plan['ndim'] in (1, 2) and plan['lnndim'] in (1, 2) \
        and all(e['types'] and e['n'] and all(t['stations'] and max(t['stations']) < e['n'] and len(set(t['stations'])) == len(t['stations']) for t in e['types']) for e in plan['data'])
    if mode == 'store':
        return ok and bool(plan['batches'])
    if mode == 'inversion':
        return ok and plan['size'] > 0 and plan['tasks'] > 0 and plan['chain'] > 0
    return ok


def run(plan, ctx):
    if not valid(plan):
        return
    folder = os.path.join(SCRATCH, 'c17_%010d' % os.getpid())
    os.makedirs(folder, exist_ok=True)
    here = os.getcwd()
    os.chdir(folder)
    go = {'csv': run_csv, 'hyp': run_hyp, 'binary': run_binary, 'store': run_binary, 'inversion': run_inversion}[plan['mode']]
    try:
        seams.seed_all(plan['seed'])
        struck = False
        with disk.Disk(folder, ctx, plan['faults'], plan['short']) as d:
            try:
                go(plan, ctx, d)
            except Struck:
                struck = True
            if plan['short']:
                ctx.fault('short transfers', d.reads + d.writes)
        ctx.recheck()
        note(plan, ctx, struck)
        if struck:
            with disk.Disk(folder, ctx) as d:
                go(plan, ctx, d)
            ctx.recheck()
            ctx.probe('repeated after a fault')
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)


def note(plan, ctx, struck):
    if plan['mode'] == 'csv':
        ctx.state('csv', len(plan['events']), tuple(sorted(len(e['types']) for e in plan['events'])), any(t['columns'] != [0, 1, 2, 3, 4] for e in plan['events'] for t in e['types']),
                  tuple(sorted({tuple(t['two']) for e in plan['events'] for t in e['types']})), plan['last'], plan['eol'], plan['reader'], struck)
    elif plan['mode'] == 'hyp':
        ctx.state('hyp', len(plan['events']), tuple(plan['kinds']), plan['prior'], plan['eol'], plan['last'], plan['reader'], struck)
    else:
        ctx.state(plan['mode'], plan['events'], plan['records'], plan['converted'], plan['scales'], tuple(min(n, 3) for n in plan['n'][:plan['records']]), plan['ndim'], plan['lnndim'],
                  plan['writer'], plan['fid'] if plan['writer'] != 'struct' else '', plan['evidence'], plan['dkl'], struck)
