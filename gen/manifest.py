"""Writes /verif/MANIFEST.json from the property list."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
DS = 'deterministic simulation with fault injection: '
TECH = {
 'C01': 'seeded schedules of real threads at memory-access/instruction granularity, each call compared with itself alone in a fresh process',
 'C02': 'seeded re-entry at memory accesses, instructions and callbacks, each call compared with itself alone in a fresh process',
 'C03': 'seeded call histories with abandoned and panicking calls, leftovers, clock, randomness and environment simulated, each call compared with itself alone in a fresh process',
 'C04': 'guarded, read-only and shared placements with neighbour updates injected at seeded points',
 'C05': 'seeded control modes, exits and callback panics, control state compared at return, unwind and in callbacks',
 'C06': 'all other threads suspended for ever at seeded points, progress within a step budget',
 'C07': 'simulated point streams (false hints, late deliveries, panics, stalls, re-entry) against a reference run and an enclosure model',
 'C08': 'simulated sinks failing or panicking at seeded writes and bytes against the full text',
 'C09': 'simulated heap refusing seeded allocations, results compared with the reference run',
 'C10': 'simulated crash at every switch point of seeded stores, destination checked component by component',
 'C11': 'seeded I/O faults and downloader outcomes around the real tool, against a model of its report',
 'C12': 'seeded truncations and I/O faults around the real tool, against a model of its output, termination bounded',
 'C13': 'caller objects followed to their drop under seeded failures and panics, heap counted over repeated rounds and threads, process state compared',
 'C14': 'calls run on a simulated small stack with seeded arguments, stream lengths and panics'}
NOTE = {
 'lib': 'Seeded search, not exhaustive. Real library code in ten backend configurations (instrumented) and three optimised ones; scheduler, heap, clock, callbacks simulated. Trusts the simulator in sim/, sequentially consistent interleavings, and that the call alone in a fresh process is the specification. Every failure is replayable from its file.',
 'tool': 'Seeded search, not exhaustive. The real tool binary runs; its file, output and subprocess operations are simulated. Trusts the shim, the stand-in for curl and the model in tools/toolsim.py.'}
checks = [dict(property=c, quick_cmd='python3 check.py run %s quick' % c, thorough_cmd='python3 check.py run %s thorough' % c, technique=DS + t, level='exploration', level_note=NOTE['tool' if c in ('C11', 'C12') else 'lib']) for c, t in TECH.items()]
na = [dict(property=x['id'], reason='A pure function of its argument values%s: no thread, clock, I/O, callback, fault or history takes part, so there is no nondeterminism for a simulator to control; deciding it means checking values over inputs, which is another technique.' % (' (or of the build configuration)' if x['id'] in ('C35', 'C20') else '')) for x in props if x['id'] not in TECH]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na, notes='No hooks in /repo: every seam is outside it (see DESIGN.md). fix: commits in /repo repair genuine defects, listed in known_findings.txt.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
