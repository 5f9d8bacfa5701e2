#!/usr/bin/env python3
"""Same seeds executed twice: once by 1 worker, once split over 5 (other processes, other neighbours, other order), with address-space
randomisation as the system gives it. The per-run trace hashes (arguments, schedule, faults, results) must agree line for line."""
import subprocess, sys, os, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build as B
exes, dct = B.build()
N = int(sys.argv[1]) if len(sys.argv) > 1 else 600
def run(v, prop, seed, frm, stride, cnt):
    with tempfile.TemporaryDirectory() as t:
        r = subprocess.run([exes[v], '--prop', prop, '--seed', str(seed), '--from', str(frm), '--stride', str(stride), '--count', str(cnt), '--time', '600', '--dict', dct, '--ts', v[2], '--trace', '1', '--out', t + '/o'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return r.returncode, sorted(l for l in (r.stdout + r.stderr).splitlines() if len(l.split()) == 4 and l[0].isdigit())
bad = tot = 0
with cf.ThreadPoolExecutor(8) as ex:
    jobs = []
    for prop in ['C%02d' % k for k in range(1, 17)]:
        for v in ('ts1-O0', 'ts0-O2', 'ts1-O2'):
            if prop in ('C01', 'C15') and v[2] == '0': continue
            for seed in (1, 20, 333):
                jobs.append((prop, v, seed, ex.submit(run, v, prop, seed, 200, 1, N), [ex.submit(run, v, prop, seed, 200 + i, 5, N // 5) for i in range(5)]))
    for prop, v, seed, a, bs in jobs:
        x = a.result()[1]; y = sorted(sum((b.result()[1] for b in bs), []))
        tot += len(x)
        if x != y or not x: bad += 1; print('DIFFERS', prop, v, seed, len(x), len(y), [(p, q) for p, q in zip(x, y) if p != q][:1])
print('%d runs executed twice, %d groups differ' % (tot, bad))
sys.exit(1 if bad else 0)
