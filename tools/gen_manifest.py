#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
NOTES = {
 'C01': ('seeded histories of updates, re-timings and queries on shared solvers, every answer compared with a freshly built simulation',
         'Random histories of bounded length over small systems (dim <= 4, <= 4 steps); numeric comparison with tolerance 1e-9; no exhaustive claim.'),
 'C02': ('exceptions injected at seeded passages of user callbacks and numerical routines within random histories, later answers compared with a fresh simulation',
         'Faults hit calls of user functions and numerical routines (not arbitrary byte codes); random histories of bounded length.'),
 'C03': ('seeded query orders, faults and redraws over scripted noise, every answer at a point matched against one recorded draw',
         'Random histories; reference propagators by an independent matrix exponential, costs by a fresh solver with the fixed draw.'),
 'C04': ('simulated worker pool with seeded task schedules and injected worker, start and transport failures, compared with the serial computation',
         'Pool is simulated in one process (arguments and results pickled); sudden death of a real worker process is outside the model.'),
 'C05': ('simulated worker pool with seeded schedules and failures, compared with sequential runs on a virtual clock',
         'Pool and clock are simulated; restricted to simulations that do not use a global random source.'),
 'C06': ('virtual clocks with seeded durations, stalls and wall-clock jumps, scripted and real scipy drivers, exact oracle for the abort instant',
         'Durations are exact binary fractions, so the oracle is exact; equality at the limit is accepted either way.'),
 'C07': ('scripted hostile drivers and real scipy methods with faults, record compared with an independent log at every step',
         'The driver is scripted in most runs; real scipy drivers in the rest.'),
 'C08': ('aborts at seeded instants of a virtual clock and captured driver outcomes, final report compared with an independent log',
         'Random evaluation sequences, including NaN and infinite costs.'),
 'C09': ('simulated disk with seeded crash points (process kill, power failure with torn unsynced data) and I/O errors at every file operation of a save',
         'Random choice among all counted operations of a save; the durability model is that of a journaling file system (ordered namespace operations).'),
 'C10': ('seeded histories over several collections with save, load and copy, compared with an executable list model, with I/O faults',
         'Random histories of bounded length; homogeneous cost labels for the analysis.'),
 'C11': ('seeded interleavings of several objects built from common inputs, with faults, compared with the solo behaviour of each object in a forked world',
         'Random interleavings of bounded length.'),
 'C12': ('seeded access histories on generators with controlled random streams, compared with a contract model',
         'Standard deviations of Monte Carlo modes are checked statistically with wide margins.'),
 'C13': ('adversarial and seeded random streams and cost failures under the annealer, every move and the report checked against the log',
         'Random streams are scripted per run.'),
 'C14': ('virtual clock with seeded exact durations of every cost, gradient and driver step, with failures; statistics must equal the durations',
         'Clock is not stepped backwards; durations are binary fractions, so comparisons are exact.'),
 'C15': ('seeded histories of re-timing, calls, gradients and failing calls, compared with a newly built transfer function',
         'Random nestings up to depth 3; custom transfer functions with explicit output times are excluded.'),
 'C16': ('programs repeated under changed clocks, process ids, hash seeds and unrelated activity with the same seed; results must agree',
         'Agreement up to 1e-9; a bounded set of programs.'),
 'C17': ('simulated noise environment and seeded histories with failures; at seeded moments all propagators and derivatives are compared with an independent solution of the equations of motion',
         'Random histories over small systems (dim <= 4); tolerance 1e-8 (looser for spectral methods with dissipation).'),
 'C18': ('seeded histories of operations in and out of place, element writes, malformed and failing requests on a population of operators, compared with an array model after every step',
         'Random histories of bounded length, dimensions up to 16; no schedule or clock is involved, the simulator decides the history and the failures.'),
 'C19': ('simulated noise environment that repeats the same noise, seeded histories with failures; at seeded moments gradients are compared with extrapolated central differences of the costs',
         'Random directions and points; 2e-6 relative; documented limits of the gradients (noise independent of the pulse) are respected.'),
 'C20': ('simulated noise environment and seeded histories with failures; at seeded moments each cost is compared with its definition evaluated on an independent solution',
         'Random histories over small systems; tolerance 1e-7; cost functions of the user are not judged.'),
 'C21': ('seeded histories of draws, failing draws, copies and changes executed once per consumed random number with a scripted random source, which gives the exact joint covariance of all drawn traces',
         'Exact for linear generators and traces of up to about 12 samples; generators that would use another random source fall back on estimated covariances.'),
 'C22': ('simulated noise environment with exact covariance behind the noise generator, seeded histories with failures, filter function and Monte Carlo compared at every moment',
         'Leading order in the noise strength: 3 % tolerance for costs, 5 % for gradients; independent noise operators.'),
 'C24': ('scripted and real minimisation drivers on a virtual clock over histories of optimisations; everything handed to the driver is compared with a newly built simulator and the user\'s settings',
         'Values to 1e-9; methods of scipy that get no settings are checked for their answers only.'),
 'C23': ('seeded interleavings of original and copies (deep copy, pickle, through optimizers and results, also in the middle of evaluations), every answer compared with a newly built simulation',
         'Noise generators that draw are copied in C12 only; a basis for filter functions supplied by the user is excluded.'),
}
NA = {
}


def main():
    checks = []
    for cid in sorted(NOTES):
        if not os.path.exists(os.path.join(HERE, 'sim', 'checks', cid.lower() + '.py')):
            continue
        tech, note = NOTES[cid]
        level = 'fault_enumeration' if cid in () else 'exploration'
        checks.append({
            'property': cid,
            'quick_cmd': 'bin/check %s --tier quick' % cid,
            'thorough_cmd': 'bin/check %s --tier thorough' % cid,
            'evidence_file': 'evidence/%s.json' % cid,
            'technique': T + tech, 'level': level, 'level_note': note})
    have = {c['property'] for c in checks}
    na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
    for k in sorted(NOTES):
        if k not in have:
            na.append({'property': k, 'reason': 'check under construction, not claimed yet'})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, scipy, filter_functions"',
         'checks': checks, 'not_applicable': na,
         'notes': 'All nondeterminism is controlled through seams outside /repo '
                  '(sim/seams.py); there are no hooks in /repo. Run i of a batch is '
                  'generated from VERIF_SEED and i alone. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
