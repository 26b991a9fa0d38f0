"""Writes MANIFEST.json from properties.jsonl and the property modules present in sim/props."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NA = {
 'N01': 'Pure array functions: no scheduling, time, I/O, process or fault behaviour for a simulation to control. Deciding it needs analytic or property-based checking of formulas, a different technique.',
 'N02': 'Pure array functions: nothing nondeterministic or faulty to simulate.',
 'N03': 'Pure array functions: nothing nondeterministic or faulty to simulate.',
 'N04': 'A theorem about the limit of the iteration; independent of schedules, clocks and faults, and not observable in finitely many simulated steps.',
 'N05': 'A pure data structure without concurrency, time or I/O (the part that matters to running solvers, options shared between solvers, is in P04).',
 'N06': 'Pure array functions: nothing nondeterministic or faulty to simulate.',
}
TECH = 'deterministic simulation with fault injection (seeded search, replayable)'
NOTE = {
 'P01': 'Seeded histories of stops and resumptions over all serial ADMM/PGM classes compared with the uninterrupted run of the same tree; samples the space, does not enumerate it.',
 'P02': 'As P01 for dictionary learning classes and method combinations; samples the space.',
 'P03': 'Seeded process losses between solve calls; the restoring process is a pristine image that has only imported the package; samples the space.',
 'P04': 'Seeded interleavings of several solvers, down to single bytecode operations for threads; samples the space.',
 'P05': 'Seeded schedules of simulated workers at bytecode granularity with simultaneous memory operations; samples schedules and configurations.',
 'P06': 'As P05 for consensus dictionary learning.',
 'P07': 'Seeded faults at chosen tasks and operations; samples the fault space. Operating-system kills of workers are outside.',
 'P08': 'Seeded worker schedules and grids against a sequential reference; samples.',
 'P09': 'Seeded rank schedules over a simulated communicator with deadlock and mismatch detection; samples.',
 'P10': 'Seeded fault scripts under the real urllib and http.client; samples byte positions and sequences.',
 'P11': 'Seeded operation sequences against an exact reference model under a simulated clock; samples.',
 'P12': 'Seeded clocks advancing inside documented phases; exact accounting against a ledger; samples.',
 'P13': 'Seeded observation points and query sets compared with the unobserved run; samples.',
 'P14': 'Seeded streams of batches compared with an independent reference implementation of the published update; samples.',
 'P15': 'Constraint invariant evaluated at every iteration boundary of seeded histories, schedules and failures; samples.',
 'P16': 'Seeded perturbations of the ambient state compared with the unperturbed run; samples.',
 'P17': 'Seeded directory trees and storage faults below the file interface; samples.',
 'P18': 'Seeded event sequences delivered to real figures on the Agg back end with the invariant checked after each event; samples.',
 'P19': 'Seeded export points compared with the original run; samples.',
 'P20': 'Seeded histories with every record compared, as it is made, with values recomputed from the iterate; samples.',
 'P22': 'Seeded environments (import failures, GPU software states, import orders) in pristine process images compared with the complete environment; samples.',
 'P23': 'Seeded interruptions between byte code instructions compared with a process in which the interrupted operation is not attempted; samples.',
 'P24': 'Seeded histories of iterations, data replacements and penalty changes compared with a new solver started from the same iterates; samples.',
 'P21': 'Seeded option settings and changes compared with the plain run, and the captured display with the records, with failing output; samples.',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'sim', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./run %s quick' % i, thorough_cmd='./run %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=TECH, level='exploration', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='none', enable='No hooks are needed in /repo: all seams (clock, process pool, shared memory, sockets, MPI communicator, files, event delivery) are '
                    'installed by /verif/sim before the package is imported.', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
