#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': 'seeded simulation of concurrent callers, preempted at memory-access granularity, against solo runs',
 'C02': 'seeded simulation of call histories with memory-content faults, against fresh-process runs',
 'C03': 'seeded simulation with calls cut off at arbitrary steps, later calls against fresh-process runs',
 'C04': 'seeded simulation with nested (signal-handler) calls at arbitrary steps, against solo runs',
 'C05': 'seeded simulation with every load/store checked against the running call\'s argument objects',
 'C06': 'seeded simulation of concurrent random() callers against a per-thread stream model; build/process digests',
 'C07': 'seeded simulation of concurrent gresid() callers against a per-thread stream model; build/process digests',
 'C08': 'discrete-event simulation of time with EINTR, late wake-ups and clock steps; deadline bounds',
 'C09': 'seeded simulation of interleaved walks with preemption, abandonment, crash-restart; enumeration model',
 'C10': 'seeded simulation of interleaved walks with preemption, abandonment, crash-restart; enumeration model',
 'C11': 'seeded simulation of concurrent catalogue use from first touch; catalogue model; pointer re-reads',
 'C12': 'seeded fault injection into every runtime/OS request made by library code, against fault-free runs',
 'C13': 'seeded perturbation of simulated clock, entropy, environment, locale, errno, FP flags; effect recording',
 'C14': 'seeded simulation of multi-call computations moved, interleaved, abandoned, crash-restarted; undisturbed model',
 'C15': 'seeded simulation with threads suspended inside calls; bounded progress of the others',
 'C16': 'seeded simulation of whole process lives (calls between initialisers, after exit handlers, in forked children), against solo runs',
}
NOTE = ('Evidence from seeded sampling of schedules, faults and arguments over the real sources (all API functions in turn), not proof. '
        'Assumes sequential consistency at the granularity of instrumented accesses, clang builds (-O0, -O2) standing for the shipped gcc build, and the seams listed in DESIGN.md.')
na = {}
for i in range(20, 34): na['C%d' % i] = 'Pure function of its input: no schedule, clock, fault, history or shared state enters the property, so there is nothing for a simulator to decide; deciding it needs input generation or proof, a different technique.'
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 build.py',
     'hooks': {'guard': 'SLALIB_THREAD_SAFE', 'enable': 'compile /repo/src with -DSLALIB_THREAD_SAFE=1 (multi-threaded configuration) or =0 (default); build.py does both', 'source_commits': ['85d39f8']},
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                 'technique': 'deterministic simulation with fault injection: ' + T[p], 'level': 'exploration', 'level_note': NOTE} for p in props if p in T],
     'not_applicable': [{'property': p, 'reason': na[p]} for p in props if p not in T],
     'notes': 'See DESIGN.md. Replay a violation with: python3 check.py --replay <file>.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
