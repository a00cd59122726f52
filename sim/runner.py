"""Worker process: executes runs of one property and writes JSON records."""
import argparse
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import time as _time
import traceback

REAL_TIME = _time.time
REAL_MONO = _time.monotonic


class WallTimeout(BaseException):
    pass


def under_test(e, scratch):
    """The innermost MTfit frame, when the exception left MTfit code that the harness had called, else None."""
    src = os.path.join(os.path.realpath(scratch), 'src') + os.sep
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    where = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name.startswith(src) or f.filename.endswith('.pyx'):
            where = '%s:%d' % (f.filename.replace(src, ''), f.lineno)
        elif name.startswith(here):
            where = None
    return where


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--known', default='[]')
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--part', type=int, default=0)
    ap.add_argument('--parts', type=int, default=1)
    ap.add_argument('--cap', type=float, default=100)
    ap.add_argument('--only')
    ap.add_argument('--out')
    ap.add_argument('--meta', action='store_true')
    ap.add_argument('--minimise')
    ap.add_argument('--vclass')
    ap.add_argument('--run', type=int, default=0)
    ap.add_argument('--replay')
    a = ap.parse_args()
    mod = importlib.import_module('props.' + a.prop.lower())
    if a.meta:
        print(json.dumps({'runs': mod.RUNS, 'cap_s': mod.CAP_S, 'level': mod.LEVEL, 'rule': mod.RULE, 'real': mod.REAL,
                          'stub': mod.STUB, 'assumptions': mod.ASSUMPTIONS, 'state_measure': mod.STATE_MEASURE,
                          'determinism_sample': getattr(mod, 'DET_SAMPLE', 40)}))
        return
    from sim import core
    out = open(a.out, 'a')

    def emit(rec):
        out.write(json.dumps(rec, default=_json) + '\n')
        out.flush()
    sys.stdout = io.StringIO()
    scratch = os.environ['VERIF_SCRATCH']
    sys.path.insert(0, os.path.join(scratch, 'src'))
    work = os.path.join(scratch, 'work.%010d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    mod.setup(scratch)
    import MTfit
    assert MTfit.__file__.startswith(scratch), MTfit.__file__
    known = json.loads(a.known)
    wall = getattr(mod, 'RUN_WALL_S', 120)

    def alarm(*_):
        raise WallTimeout()
    # The limit is on processor time, a loaded machine must not turn a slow run into an alarm; the clock only ends a blocked run
    signal.signal(signal.SIGALRM, alarm)
    signal.signal(signal.SIGPROF, alarm)

    def one(plan, keep=False):
        ctx = core.Ctx(known, keep)
        sys.stdout.seek(0)
        sys.stdout.truncate()
        signal.setitimer(signal.ITIMER_PROF, wall)
        signal.alarm(int(wall + 200))
        try:
            mod.run(plan, ctx)
            return ctx, None, None
        except core.Violation as v:
            return ctx, v, None
        except WallTimeout as e:
            where = under_test(e, scratch)
            if where:
                return ctx, core.Violation('no-progress', 'the code under test was still running after %s s of processor time in %s' % (wall, where)), None
            return ctx, None, 'run exceeded %s s of processor time' % wall
        except Exception as e:
            where = under_test(e, scratch)
            if where and not isinstance(e, core.HarnessError):
                return ctx, core.Violation('error', '%s: %s (from %s)' % (type(e).__name__, e, where)), None
            return ctx, None, traceback.format_exc()
        except BaseException:
            return ctx, None, traceback.format_exc()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)

    if a.minimise:
        t_end = REAL_MONO() + a.cap

        def fails(p):
            ctx, v, err = one(p)
            return v is not None and v.vclass == a.vclass
        plan = json.loads(a.minimise)
        skip = getattr(mod, 'SHRINK_SKIP', ())
        cands = getattr(mod, 'shrink', None) or (lambda p: core.shrink_candidates(p, skip))
        tried = 0
        conc = getattr(mod, 'concretise', None)
        if conc:
            ctx, v, err = one(plan)
            if v is not None:
                cand = conc(plan, ctx)
                if fails(cand):
                    plan = cand
        if fails(plan):
            plan, tried = core.minimise(plan, fails, 4000, cands, lambda: REAL_MONO() > t_end)
            ctx, v, err = one(plan, True)
            emit({'t': 'minimised', 'plan': plan, 'vclass': v.vclass, 'msg': v.msg, 'trace': ctx.lines[-400:], 'tried': tried})
        return
    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        ctx, v, err = one(doc['plan'], True)
        if err:
            emit({'t': 'error', 'run': doc['run'], 'msg': err})
        elif v:
            emit({'t': 'violation', 'run': doc['run'], 'vclass': v.vclass, 'msg': v.msg, 'trace': ctx.lines[-400:]})
        else:
            emit({'t': 'ok', 'run': doc['run'], 'msg': ''})
        return
    idx = [int(x) for x in a.only.split(',')] if a.only else range(a.part, a.runs, a.parts)
    agg = {'t': 'summary', 'n': 0, 'steps': 0, 'evals': 0, 'sim_time': 0.0, 'nontrivial': 0, 'faults': {}, 'probes': {},
           'known_hits': {}, 'maxima': {}, 'samples': []}
    states, plans = set(), set()
    t_end = REAL_MONO() + a.cap
    for i in idx:
        if REAL_MONO() > t_end:
            break
        rng = core.rng_for(a.prop, a.seed, i)
        plan = mod.gen(rng, a.tier, i)
        plan = json.loads(json.dumps(plan))
        ctx, v, err = one(plan)
        if err:
            emit({'t': 'error', 'run': i, 'msg': err + '\nplan: ' + json.dumps(plan)[:1500]})
            break
        if v:
            emit({'t': 'violation', 'run': i, 'vclass': v.vclass, 'msg': v.msg, 'plan': plan})
            break
        if a.only or i % a.stride == 0:
            emit({'t': 'digest', 'run': i, 'd': ctx.digest()})
        agg['n'] += 1
        agg['steps'] += ctx.steps
        agg['evals'] += ctx.evaluations
        agg['sim_time'] += ctx.sim_time
        for name in ('faults', 'probes', 'known_hits'):
            for k, n in getattr(ctx, name).items():
                agg[name][k] = agg[name].get(k, 0) + n
        for k, x in ctx.maxima.items():
            agg['maxima'][k] = max(x, agg['maxima'].get(k, x))
        if len(states) < 100000:
            states |= ctx.states
        if mod.nontrivial(plan, ctx):
            agg['nontrivial'] += 1
            plans.add(int.from_bytes(hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).digest(), 'big'))
        if len(agg['samples']) < 1 and i >= a.part + a.parts:
            agg['samples'].append(plan)
    agg['states'] = list(states)
    agg['plans'] = list(plans)
    emit(agg)


def _json(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return repr(o)


if __name__ == '__main__':
    main()
    sys.stderr.flush()
    os._exit(0)
