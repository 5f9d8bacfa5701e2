#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]   decide one property by seeded simulation of the library built from /repo's working tree
check.py --replay FILE         re-execute a recorded violation (exit 1: reproduced, 0: it does not occur)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not be carried out."""
import os, sys, json, time, struct, subprocess, shutil, tempfile, signal
import build as B
HERE = os.path.dirname(os.path.abspath(__file__))
NW = 8
# runs per worker: quick, thorough
RUNS = {'C01': (96000, 1200000), 'C02': (56000, 700000), 'C03': (80000, 1000000), 'C04': (104000, 1300000), 'C05': (64000, 800000),
        'C06': (15000, 150000), 'C07': (15000, 150000), 'C08': (160000, 1500000), 'C09': (48000, 500000), 'C10': (64000, 700000),
        'C11': (80000, 800000), 'C12': (120000, 1500000), 'C13': (80000, 1000000), 'C14': (32000, 400000), 'C15': (96000, 1200000), 'C16': (120000, 1500000)}
CAP = {'quick': 240, 'thorough': 3600}
MIX_TS1 = ['ts1-O0', 'ts1-O2'] * 4
MIX_ALL = ['ts1-O0', 'ts0-O0', 'ts1-O2', 'ts1-O0', 'ts0-O2', 'ts1-O0', 'ts0-O0', 'ts1-O2']
RULES = {
 'C01': ('2-36 (now and then up to 290) simulated threads call a pool of functions drawn around one target (all functions in turn), switching at loads, stores and branches of library code as the seeded scheduler decides; each call is compared bit for bit with the same call alone in a fresh process', 'at least one switch happened inside a library call'),
 'C02': ('a history of up to 1200 calls, or of one function up to 1300000 calls (repeats, near-repeats, rejected arguments, other functions) with random garbage in output objects and dead stack memory; each call is compared with the first call of a fresh process', 'the history has at least two calls'),
 'C03': ('calls (now and then up to 3000 in one process) are abandoned at chosen steps (thread death / longjmp out of a handler), further calls follow on the same and other threads and are compared with a fresh process', 'an abandonment actually fired inside a call'),
 'C04': ('signal-handler calls are delivered at chosen steps of other calls (nesting up to 3, in some runs chains of up to 70); host and handler calls are compared with calls alone', 'a handler call actually ran inside another call'),
 'C05': ('every load and store executed by library code is classified against the argument objects of the running call (red zones, read-only shared inputs, recycled objects of earlier calls), under preemption', 'every run with at least one completed call'),
 'C06': ('threads draw from random() under preemption at every access, mixed with other calls; each value is compared with the stream of that thread\'s first seed in a fresh process; seed pairs; long-run statistics', 'at least one switch (several threads), or more than one call (one thread), or a seed pair / statistics run'),
 'C07': ('threads draw from gresid() with varying standard deviations under preemption at every access, mixed with random() and other calls; each value is compared with the fixed deviate stream', 'at least one switch (several threads), or more than one call (one thread), or a statistics run'),
 'C08': ('threads wait in simulated time while signals interrupt their sleeps, wake-ups come late and the wall clock is stepped; elapsed simulated monotonic time is bounded on both sides; other threads\' calls must not be delayed', 'at least one wait of a second or more completed'),
 'C09': ('several walks interleaved over threads, with preemption, steps abandoned and redone, and process restarts that keep only the caller\'s arrays; walks are checked against the enumeration model, each step against the undisturbed walk', 'a switch, abandonment or restart happened'),
 'C10': ('several walks interleaved over threads, with preemption, steps abandoned and redone, and process restarts that keep only the caller\'s list; walks are checked against the enumeration model, each step against the undisturbed walk', 'a switch, abandonment or restart happened'),
 'C11': ('threads enumerate and look up stations from a fresh process under preemption (first use included); records are compared with the catalogue model, texts handed out are re-read after every later call', 'at least two calls completed'),
 'C12': ('resource requests made by library code (memory, files, environment, entropy, clocks) fail by a per-call mask and sleeps are interrupted; results are compared with fault-free ones, later calls too', 'a call ran with failures armed'),
 'C13': ('clock values, entropy, environment, decimal-point locale, errno, floating-point flags (per call) and the caller\'s rounding mode, subnormal handling and traps (per run) are changed; results are compared with the unperturbed ones and process-wide settings compared before and after', 'a call ran in a perturbed environment'),
 'C14': ('several multi-call computations (plate models, SVD, refraction, precession, calendars, random chains) are spread over threads with preemption, steps abandoned and redone, and process restarts that keep only caller objects; each step is compared with the undisturbed computation', 'a switch, abandonment or restart happened'),
 'C16': ('calls are made before main() between the library\'s own initialisers, during thread end and process end after its destructors and exit handlers, and in children forked while other threads are inside calls; each is compared with the same call in the middle of a fresh process\'s life', 'every run (each begins before the library\'s initialisers) with at least one completed call'),
 'C15': ('threads are suspended at chosen steps inside calls; the calls of all other threads must complete within a step bound with normal results before the suspended ones are resumed (random-number calls included)', 'a suspension actually fired inside a call'),
}
REAL = ['all of /repo/src/*.cc, unmodified, compiled with the hook SLALIB_THREAD_SAFE=%s (real code; every load, store, branch and thread-local access observed)']
STUB = ['threads (fibres switched by the seeded scheduler), thread-local storage (emulated, one set per simulated thread and process life)',
        'monotonic and wall clock, nanosleep/clock_nanosleep/usleep/select/poll (simulated time, EINTR, late wake-ups, clock steps)',
        'mutexes, once flags, C++ static-initialisation guards (simulated blocking)', 'malloc/getenv/fopen/open/getrandom and similar as seen by library code (may fail on demand; no real effect)',
        'process crash and restart (library data and thread-local storage reset to load-time contents)']

def known():
    """KNOWN_FINDINGS: lines 'finding: property=Cxx class=<class> <text>' suppress that class only; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if len(w) > 3 and w[0] == 'finding:' and w[1].startswith('property=') and w[2].startswith('class='):
                out.setdefault(w[1][9:], {})[w[2][6:]] = ' '.join(w[3:])
    return out

def die(msg):
    sys.stderr.write('check: ' + msg + '\n')
    sys.exit(2)

def sim(exe, dct, v, args, timeout=None):
    cmd = [exe, '--dict', dct, '--ts', v[2]] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'

def digest_violation(exes, dct, prop):
    """C06/C07: one seed, one stream in every process and both configurations"""
    fn = 'random' if prop == 'C06' else 'gresid'
    res = {}
    for v in exes:
        for k in range(2):
            rc, out, err = sim(exes[v], dct, v, ['--digest', '1', '--aslr', '1'], 120)
            if rc: return 'crash', v, 'stream computation ended with status %d' % rc, 0
            lines = [l for l in out.splitlines() if l.startswith(fn)]
            if (v, 0) in res and res[(v, 0)] != lines: return 'process', v, 'two processes get different %s() streams' % fn, 0
            res[(v, k)] = lines
    for o in ('O0', 'O2'):
        a, b = ('ts0-' + o, 0), ('ts1-' + o, 0)
        if a in res and b in res and res[a] != res[b]: return 'config', 'ts0-' + o, 'the two configurations give different %s() streams' % fn, 0
    return None, None, None, len(res)

def replay(path):
    exes, dct = B.build()
    head = {}
    for l in open(path):
        if l.startswith('#@ '):
            k, x = l[3:].split(None, 1); head[k] = x.strip()
    v = head.get('variant', 'ts1-O0')
    if head.get('kind') == 'digest':
        c, _, d, _ = digest_violation(exes, dct, head['prop'])
        print(d or 'does not occur'); return 1 if c else 0
    if head.get('kind') == 'seed':
        with tempfile.TemporaryDirectory() as t:
            rc, o, e = sim(exes[v], dct, v, ['--prop', head['prop'], '--seed', head['seed'], '--from', head['index'], '--stride', 1, '--count', 1, '--time', 300, '--out', os.path.join(t, 'o')], 400)
        print('simulated process ended with status %d' % rc)
        return 1 if (rc < 0 or rc == 1) else 0
    rc, o, e = sim(exes[v], dct, v, ['--replay', path], 300)
    sys.stdout.write(o); sys.stderr.write(e)
    return rc if rc >= 0 else 1

def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay': sys.exit(replay(os.path.abspath(sys.argv[2])))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    exes, dct = B.build()
    tb = time.time() - t0
    kn = known().get(prop, {})
    mix = MIX_TS1 if prop in ('C01', 'C15') else MIX_ALL
    runs = int(RUNS[prop][0 if tier == 'quick' else 1] * float(os.environ.get('SLASIM_SCALE', '1')))
    cap = CAP[tier]
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='slasim-')
    viol = None                              # (class, detail, replay path)
    errors = []
    ndig = 0
    procs = []
    try:
        if prop in ('C06', 'C07'):
            c, v, d, ndig = digest_violation(exes, dct, prop)
            if c:
                c2, _, _, _ = digest_violation(exes, dct, prop)
                if not c2: die('stream comparison is not repeatable: ' + d)
                rp = os.path.join(rdir, prop + '.replay')
                with open(rp, 'w') as f: f.write('#@ kind digest\n#@ prop %s\n#@ variant %s\n# %s\n' % (prop, v, d))
                viol = ('digest', d, rp)
        if not viol:
            for i in range(NW):
                v = mix[i]
                out = os.path.join(work, 'w%d' % i)
                cmd = [exes[v], '--prop', prop, '--seed', str(seed), '--from', str(i), '--stride', str(NW), '--count', str(runs), '--time', str(cap),
                       '--dict', dct, '--ts', v[2], '--out', out, '--known', ','.join(kn)]
                procs.append([subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w')), v, out, i, None])
            dead = time.time() + cap + 120
            while any(p[4] is None for p in procs) and not viol:
                time.sleep(0.05)
                for p in procs:
                    if p[4] is not None: continue
                    rc = p[0].poll()
                    if rc is None:
                        if time.time() < dead: continue
                        p[0].kill(); p[0].wait(); rc = -999
                    p[4] = rc
                    v, out = p[1], p[2]
                    if rc == 0: continue
                    if rc == 1:
                        s = json.loads(open(out, errors='replace').read())
                        rp = os.path.join(rdir, prop + '.replay')
                        with open(rp, 'w') as f: f.write('#@ variant %s\n' % v + open(s['replay'], errors='replace').read())
                        r2, o2, e2 = sim(exes[v], dct, v, ['--replay', rp], 300)
                        if r2 == 1 or r2 < 0: viol = (s['class'], s['detail'], rp)
                        else: errors.append('violation %s of seed %d does not replay in a fresh process (%d) %s' % (s['class'], seed, r2, o2))
                    elif rc < 0:             # the simulated process itself died or hung: repeat that one run alone
                        try: idx, ph = struct.unpack('<QQ', open(out + '.idx', 'rb').read(16))
                        except Exception: idx, ph = 0, 0
                        res = []
                        for k in range(2):
                            res.append(sim(exes[v], dct, v, ['--prop', prop, '--seed', seed, '--from', idx, '--stride', 1, '--count', 1, '--time', 200, '--out', os.path.join(work, 'x')], 120)[0])
                        if all(r < 0 for r in res) or all(r == 1 for r in res):
                            rp = os.path.join(rdir, prop + '.replay')
                            with open(rp, 'w') as f: f.write('#@ kind seed\n#@ prop %s\n#@ variant %s\n#@ seed %d\n#@ index %d\n# the simulated process died (status %d)\n' % (prop, v, seed, idx, res[0]))
                            viol = ('crash', 'the simulated process died (status %d) in run %d' % (res[0], idx), rp)
                        else: errors.append('worker %d ended with status %d in run %d (alone: %s)' % (p[3], rc, idx, res))
                    else: errors.append('worker %d: status %d: %s' % (p[3], rc, open(out + '.err').read()[-500:]))
            for p in procs:
                if p[0].poll() is None: p[0].kill(); p[0].wait()
        # ------------------------------------------------------------------ evidence
        st = []
        for p in procs:
            if p[4] in (0, 1) and os.path.exists(p[2]): st.append((p[1], p[2], json.loads(open(p[2], errors='replace').read())))
        hashes = set()
        for v, out, s in st:
            d = open(out + '.sched', 'rb').read()
            hashes.update(d[k:k + 8] for k in range(0, len(d), 8))
        tot = lambda k: sum(s[k] for _, _, s in st)
        def merge(k):
            m = {}
            for _, _, s in st:
                for a, b in s[k].items(): m[a] = m.get(a, 0) + b
            return m
        wall = time.time() - t0
        swall = max([s['wall'] for _, _, s in st] or [0.001])
        made, nontriv = RULES[prop]
        cov = {'evaluations': tot('runs'), 'distinct_nontrivial': len(hashes),
               'rule': 'A case is one simulated run: ' + made + '. Non-trivial: ' + nontriv + '. Distinct: by hash of arguments, results and the recorded schedule and fault events.',
               'samples': [x for _, _, s in st for x in s['samples']][:6],
               'seeds': tot('runs'), 'seeds_per_hour': int(tot('runs') / max(swall, .001) * 3600), 'library_calls': tot('ops'), 'solo_reference_calls': tot('solo'),
               'scheduling_points': tot('yields'), 'context_switches': tot('switches'), 'preemptions_inside_calls': tot('preemptions'),
               'simulated_seconds': round(tot('sim_seconds'), 3), 'faults_injected': merge('faults'), 'probes': merge('probes'),
               'distinct_interleavings_measure': 'distinct_nontrivial counts distinct (arguments, results, schedule, fault trace) hashes',
               'functions_called': max([s['functions'] for _, _, s in st] or [0]),
               'edges_hit_of_total': {v: '%d/%d' % (max(s['edges_hit'] for w, _, s in st if w == v), max(s['edges'] for w, _, s in st if w == v)) for v in sorted(set(w for w, _, _ in st))},
               'functions_found_to_keep_state': sorted(set(x for _, _, s in st for x in s['stateful'])),
               'repeatability_rechecks': tot('rechecks'), 'stream_digests_compared': ndig,
               'variants': mix, 'real_components': [REAL[0] % ('1' if mix is MIX_TS1 else '1 and 0')], 'stub_components': STUB, 'build_s': round(tb, 2)}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['sampling: a clean batch is evidence, not proof', 'preemption granularity is one instrumented load, store, branch edge or interposed library call under sequential consistency',
                              'comparison is bit for bit within one build (clang 18, -O0 and -O2); the shipped gcc build is not executed', 'arguments outside the documented domain that crash or loop even when called alone are discarded'],
              'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
        if viol: ev['coverage']['violation'] = {'class': viol[0], 'detail': viol[1], 'replay': viol[2]}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for c, text in kn.items():
            if any(c in s.get('known', {}) for _, _, s in st): print('KNOWN-FINDING: property=%s %s' % (prop, text))
        if viol:
            print('%s: %s' % (viol[0], viol[1][:2000]))
            print('VIOLATION property=%s replay=%s' % (prop, viol[2]))
            sys.exit(1)
        if errors: die('; '.join(errors))
        print('%s %s: held on %d runs (%d distinct non-trivial), %d calls, %d preemptions, faults %s, %.1f s' % (prop, tier, cov['evaluations'], cov['distinct_nontrivial'], cov['library_calls'], cov['preemptions_inside_calls'], cov['faults_injected'], wall))
    finally:
        for p in procs:
            if p[0].poll() is None: p[0].kill()
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    main()
