#!/usr/bin/env python3
"""Regenerate MANIFEST.json from this table (run by hand after a property is added)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation: seeded search over schedules and injected faults, '
CLAIMED = {
    'C01': (T + 'simulated inversions, tasks and failing accelerators against an interval reference of the posterior',
            'Sampled events, location samples, configurations, schedules and failures; every returned value is compared with an independent '
            'interval reference. No proof.'),
    'C05': (T + 'acceptance decisions of the real chains under a scripted acceptance draw against a reference of detailed balance',
            'Sampled states, widths, likelihoods and configurations; every decision is compared just above and below the reference probability. No proof.'),
    'C06': (T + 'proposals of the real chains under seeded and scripted draws and adaptation histories',
            'Sampled states, widths, draw scripts and window-rate histories; the distribution of proposals is tested statistically with thresholds '
            'far beyond chance. No proof.'),
    'C07': (T + 'histories of accepted and rejected batches, simulated inversions and long chains against a counting model, recomputed '
            'likelihoods and independently integrated moments',
            'Sampled histories, configurations, failures and schedules; the distribution of a chain is compared through moments at six standard '
            'errors, confirmed on a second chain. No proof.'),
    'C08': (T + 'simulated entropy: seeded and scripted random draws, structural and statistical oracles',
            'Sampled seeds and draw scripts; distributional claims are statistical, with thresholds far beyond chance. No proof.'),
    'C09': (T + 'simulated batch histories, crashes and allocation failures against a reference store',
            'Sampled histories of the real Sample/FileSample and Monte Carlo algorithms; crashes are at file-operation boundaries or torn '
            'within one operation. No proof.'),
    'C15': (T + 'simulated joint inversions, chains and tasks with failing accelerators against an interval reference of the joint posterior',
            'Sampled event sets, overlaps, configurations, schedules and failures; every joint log-probability and scale factor is compared with an '
            'independent interval reference. No proof.'),
    'C16': (T + 'simulated multiprocessing with an exactly-once delivery model',
            'Sampled schedules of the real Worker/JobPool code on a simulated multiprocessing layer; trusts that sim/mp.py '
            'behaves as CPython queues and processes do. No proof.'),
    'C17': (T + 'simulated disk faults and worker schedules over generated input files and results, written and read back',
            'Sampled CSV and hypocentre files in every layout of the quantifier, and result dictionaries made up, stored by the real sample store or '
            'produced by real inversions, written by the real writers (with a simulated pool or not) and read back, under disk errors, short '
            'transfers and crashes; compared with the table or dictionary they were made from.'),
    'C18': (T + 'simulated disk faults and worker schedules with exact decoding of the bins from the sample weights',
            'Reads, re-written files, bins, the binning command (serial, simulated parallel, MPI ranks) and the reader of an inversion, compiled and '
            'Python, under disk errors, short transfers and crashes; the oracle is the property itself (bins are decoded from weights that are powers '
            'of two, so that every merged sample is known), not a copy of the greedy algorithm.'),
    'C20': (T + 'two simulated installations (complete; extensions missing, broken at import or failing at chosen calls) run the same workload in '
            'one process',
            'Sampled likelihood calls, tasks, inversions, reductions, conversions, binnings, acceptance and proposal sequences; values are compared up '
            'to the effect of rounding (interval arithmetic, or moving the inputs by rounding where a conversion is discontinuous), generators by '
            'two-sample tests at 1e-9. No proof.'),
}
NA = {
    'C02': 'a pure function of (coefficients, source, noise): no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide; only input generation would be left',
    'C03': 'a pure density evaluation: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C04': 'pure array algebra (log-domain sums): no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C10': 'closed-form identities of pure functions on a finished sample: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C11': 'pure functions of angles and of the data dictionary: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C12': 'pure coordinate conversions: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C13': 'pure coordinate conversions: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C14': 'pure coordinate conversions: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
    'C19': 'pure post-processing of a finished sample: no schedule, clock, I/O, randomness, history or fault exists for a simulator to decide',
}
PENDING = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        if p in CLAIMED:
            tech, note = CLAIMED[p]
            checks.append({'property': p, 'quick_cmd': './check.py run %s --tier quick' % p,
                           'thorough_cmd': './check.py run %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'exploration', 'level_note': note})
        else:
            na.append({'property': p, 'reason': NA.get(p) or PENDING.get(p, 'not claimed yet: the check is under construction')})
    doc = {'version': 1, 'setup_cmd': './setup.sh',
           'hooks': {'guard': 'MTFIT_SIM', 'enable': 'no hooks are needed: every seam is installed from /verif by replacing '
                     'module attributes before MTfit is imported', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. check.py replay FILE re-executes a replay file.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
