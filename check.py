#!/opt/venv/bin/python
"""Run the deterministic simulation of one property.

  check.py run Cxx [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
  check.py replay FILE          re-execute a replay file; exit 1 and the VIOLATION line if it reproduces
  check.py determinism Cxx ...  run a sample of seeds again and again and compare their event logs
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import boot  # noqa: E402

OUT = os.path.join(HERE, 'out')


def load_known():
    path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def spawn(scratch, args, out, hashseed='0', timeout=None):
    env = boot.child_env(scratch, hashseed)
    return subprocess.Popen([boot.PY, '-W', 'ignore', '-m', 'sim.runner', '--out', out] + args, cwd=scratch, env=env,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=open(out + '.err', 'w'))


def read(out):
    recs = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    return recs


def wait(procs, deadline):
    late = []
    for p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            late.append(p)
    return late


def meta(prop, scratch):
    env = boot.child_env(scratch)
    r = subprocess.run([boot.PY, '-W', 'ignore', '-m', 'sim.runner', '--meta', '--prop', prop], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError('meta failed: ' + r.stderr[-2000:])
    return json.loads(r.stdout.strip().splitlines()[-1])


def run(a):
    t0 = time.time()
    tier = a.tier
    prop = a.prop
    scratch = boot.stage()
    try:
        return _run(a, prop, tier, scratch, t0)
    finally:
        boot.cleanup(scratch)


def _run(a, prop, tier, scratch, t0):
    m = meta(prop, scratch)
    runs = a.runs or m['runs'][tier]
    jobs = a.jobs
    cap = float(os.environ.get('VERIF_BUDGET_S', m['cap_s'][tier]))
    known = [k for k in load_known() if k['property'] == prop and k['status'] == 'known']
    stride = max(1, runs // m['determinism_sample'])
    base = ['--prop', prop, '--seed', str(a.seed), '--tier', tier, '--known', json.dumps([k['key'] for k in known]),
            '--stride', str(stride)]
    outs, procs = [], []
    for k in range(jobs):
        o = os.path.join(scratch, 'out.%d' % k)
        outs.append(o)
        procs.append(spawn(scratch, base + ['--runs', str(runs), '--part', str(k), '--parts', str(jobs), '--cap', str(cap)], o))
    late = wait(procs, time.time() + cap + 180)
    recs = [r for o in outs for r in read(o)]
    errors = [r for r in recs if r['t'] == 'error']
    for o, p in zip(outs, procs):
        if p in late:
            errors.append({'t': 'error', 'run': -1, 'msg': 'worker exceeded its wall time: ' + o})
        elif p.returncode:
            with open(o + '.err') as f:
                errors.append({'t': 'error', 'run': -1, 'msg': 'worker died (%s): %s' % (p.returncode, f.read()[-3000:])})
    viol = sorted((r for r in recs if r['t'] == 'violation'), key=lambda r: r['run'])
    done = [r for r in recs if r['t'] == 'summary']
    digests = {}
    for r in recs:
        if r['t'] == 'digest':
            digests[r['run']] = r['d']
    # the same runs again, in fresh processes, under another hash seed and another partition
    mismatches, compared = [], 0
    if not viol and not errors and not a.no_det and digests:
        outs2, procs2 = [], []
        dj = max(1, min(jobs - 1, len(digests), 5 if jobs > 1 else 1))
        idx = sorted(digests)
        for k in range(dj):
            o = os.path.join(scratch, 'det.%d' % k)
            outs2.append(o)
            procs2.append(spawn(scratch, base + ['--only', ','.join(map(str, idx[k::dj][::-1])), '--cap', str(cap)], o,
                                hashseed=str(1000 + k)))
        late2 = wait(procs2, time.time() + cap + 180)
        for o, p in zip(outs2, procs2):
            if p in late2 or p.returncode:
                with open(o + '.err') as f:
                    errors.append({'t': 'error', 'run': -1, 'msg': 'determinism worker failed: ' + f.read()[-2000:]})
        for o in outs2:
            for r in read(o):
                if r['t'] == 'digest':
                    compared += 1
                    if r['d'] != digests.get(r['run']):
                        mismatches.append(r['run'])
                elif r['t'] in ('error', 'violation'):
                    errors.append({'t': 'error', 'run': r['run'], 'msg': 'determinism rerun: ' + r['msg']})
    agg = {'faults': {}, 'probes': {}, 'known_hits': {}, 'maxima': {}}
    n = steps = evals = nontriv = 0
    simt = 0.0
    states, shapes = set(), set()
    samples = []
    for r in done:
        n += r['n']
        steps += r['steps']
        evals += r['evals']
        simt += r['sim_time']
        nontriv += r['nontrivial']
        for c in ('faults', 'probes', 'known_hits'):
            for k, v in r[c].items():
                agg[c][k] = agg[c].get(k, 0) + v
        for k, v in r['maxima'].items():
            agg['maxima'][k] = max(v, agg['maxima'].get(k, v))
        states.update(r['states'])
        shapes.update(r['plans'])
        samples += r['samples']
    wall = time.time() - t0
    status = 0
    lines = []
    replay = None
    if viol:
        v = viol[0]
        replay = confirm(a, prop, tier, scratch, v, base, lines)
        status = 1 if replay else 2
        if not replay:
            errors.append({'t': 'error', 'run': v['run'], 'msg': 'violation did not reproduce in a fresh process: %s %s' % (v['vclass'], v['msg'])})
    elif errors:
        status = 2
    elif mismatches:
        status = 3
    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': m['level'],
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(shapes),
            'rule': m['rule'],
            'samples': samples[:4],
            'oracle_checks': evals,
            'runs_per_hour': int(n / max(wall, 1e-9) * 3600),
            'scheduler_steps': steps,
            'simulated_seconds': round(simt, 3),
            'faults_fired': agg['faults'],
            'probes': agg['probes'],
            'distinct_states': len(states),
            'state_measure': m['state_measure'],
            'margins': agg['maxima'],
            'known_finding_hits': agg['known_hits'],
            'determinism': {'runs_compared': compared, 'mismatches': len(mismatches),
                            'how': 'fresh interpreters, other PYTHONHASHSEED, other partition over processes, reverse order'},
            'real_components': m['real'], 'stubbed_components': m['stub'],
            'extensions': open(os.path.join(scratch, 'STAGED')).read(),
            'runs_planned': runs, 'processes': jobs, 'harness_errors': len(errors),
        },
        'assumptions': m['assumptions'],
        'wall_s': round(wall, 2),
        'violations': 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s seed=%d: %d runs (%d oracle checks, %d distinct plans, %d states), %.0f simulated s, %.1f s wall'
          % (prop, tier, a.seed, n, evals, len(shapes), len(states), simt, wall))
    print('  faults: ' + (', '.join('%s=%d' % kv for kv in sorted(agg['faults'].items())) or 'none'))
    print('  probes: ' + (', '.join('%s=%d' % kv for kv in sorted(agg['probes'].items())) or 'none'))
    if agg['maxima']:
        print('  margins: ' + ', '.join('%s=%.3g' % kv for kv in sorted(agg['maxima'].items())))
    print('  determinism: %d runs executed twice, %d mismatches' % (compared, len(mismatches)))
    for k in known:
        print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (prop, k['what'], agg['known_hits'].get(k['key'], 0)))
    for e in errors[:8]:
        print('HARNESS ERROR run=%s %s' % (e['run'], e['msg'][-3000:]))
    if mismatches:
        print('HARNESS ERROR nondeterministic runs: %s' % mismatches[:10])
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return status


def confirm(a, prop, tier, scratch, v, base, lines):
    """Minimise in a fresh process, write the replay file, reproduce it in another fresh process."""
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-seed%d-run%d.json' % (prop, a.seed, v['run']))
    o = os.path.join(scratch, 'min')
    p = spawn(scratch, base + ['--minimise', json.dumps(v['plan']), '--vclass', v['vclass'], '--run', str(v['run']),
                               '--cap', str(a.min_cap)], o)
    wait([p], time.time() + a.min_cap + 120)
    got = [r for r in read(o) if r['t'] == 'minimised']
    attempts = ([got[-1]] if got else []) + [{'plan': v['plan'], 'vclass': v['vclass'], 'msg': v['msg'], 'trace': [], 'tried': 0}]
    for g in attempts:
        doc = {'property': prop, 'seed': a.seed, 'run': v['run'], 'tier': tier, 'violation': g['vclass'], 'message': g['msg'],
               'plan': g['plan'], 'original_plan': v['plan'], 'minimiser_runs': g['tried'], 'trace': g['trace'],
               'replay': '/verif/check.py replay ' + path}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, sort_keys=True)
            f.write('\n')
        r = replay_once(path, scratch, base)
        if r and r['t'] == 'violation' and r['vclass'] == g['vclass']:
            lines.append('  violated: %s' % r['vclass'])
            lines.append('  %s' % r['msg'][:1500])
            lines.append('  plan (minimised): %s' % json.dumps(g['plan'], sort_keys=True)[:1500])
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            return path
    return None


def replay_once(path, scratch, base):
    with open(path) as f:
        doc = json.load(f)
    o = os.path.join(scratch, 'replay.%010d' % os.getpid())
    if os.path.exists(o):
        os.unlink(o)
    p = spawn(scratch, base + ['--replay', path, '--cap', '300'], o, hashseed='77')
    wait([p], time.time() + 420)
    got = [r for r in read(o) if r['t'] in ('violation', 'ok', 'error')]
    del doc
    return got[-1] if got else None


def replay(a):
    with open(a.file) as f:
        doc = json.load(f)
    scratch = boot.stage()
    try:
        known = [k['key'] for k in load_known() if k['property'] == doc['property'] and k['status'] == 'known']
        base = ['--prop', doc['property'], '--seed', str(doc['seed']), '--tier', doc['tier'], '--known', json.dumps(known)]
        r = replay_once(os.path.abspath(a.file), scratch, base)
    finally:
        boot.cleanup(scratch)
    if r is None or r['t'] == 'error':
        print('HARNESS ERROR %s' % (r and r['msg']))
        return 2
    if r['t'] == 'ok':
        print('not reproduced: the property held on this replay file')
        return 0
    for ln in r.get('trace', [])[-60:]:
        print('  ' + ln)
    print('  violated: %s\n  %s' % (r['vclass'], r['msg'][:3000]))
    if r['vclass'] != doc['violation']:
        print('  (recorded as %s)' % doc['violation'])
    print('VIOLATION property=%s replay=%s' % (doc['property'], a.file))
    return 1


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    r = sub.add_parser('run')
    r.add_argument('prop')
    r.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    r.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    r.add_argument('--runs', type=int, default=0)
    r.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    r.add_argument('--min-cap', type=int, default=60)
    r.add_argument('--no-det', action='store_true')
    p = sub.add_parser('replay')
    p.add_argument('file')
    a = ap.parse_args()
    try:
        st = run(a) if a.cmd == 'run' else replay(a)
    except Exception:
        import traceback
        traceback.print_exc()
        st = 2
    sys.exit(st)


if __name__ == '__main__':
    main()
