#!/usr/bin/env python3
"""Builds the simulator from /verif/sim and the library variants from /repo's working tree, into /verif/build.
Objects are cached by content (sources, headers, flags, compiler), so an unchanged tree costs a fraction of a second."""
import os, sys, hashlib, subprocess, glob, re, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SLASIM_REPO', '/repo')
BUILD = os.environ.get('SLASIM_BUILD', os.path.join(HERE, 'build'))
SIM = os.path.join(HERE, 'sim')
VARIANTS = {'ts1-O0': ('-O0', 1), 'ts1-O2': ('-O2', 1), 'ts0-O0': ('-O0', 0), 'ts0-O2': ('-O2', 0)}
INSTR = ['-fsanitize=thread', '-femulated-tls', '-mllvm', '-tsan-instrument-read-before-write=1',
         '-fsanitize-coverage=trace-pc-guard,no-prune', '-fno-omit-frame-pointer']
CXX = 'clang++'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def read(p):
    with open(p, 'rb') as f: return f.read()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('build failed: ' + ' '.join(cmd)[:300] + '\n' + r.stdout[-6000:] + '\n')
        raise SystemExit(2)

def obj(src, flags, deps, objdir):
    key = sha(read(src), deps, ' '.join(flags), os.path.basename(src))
    out = os.path.join(objdir, os.path.basename(src) + '.' + key + '.o')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run([CXX] + flags + ['-c', src, '-o', tmp])
        os.rename(tmp, out)
    return out

def literals(path):
    """numeric literals of a source file: a dictionary for the argument generator"""
    t = read(path).decode('utf-8', 'replace')
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    t = re.sub(r'//[^\n]*', ' ', t)
    t = re.sub(r'"(?:[^"\\]|\\.)*"', ' ', t)
    out = []
    for m in re.finditer(r'(?<![A-Za-z_0-9.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)', t):
        try: v = float(m.group(1))
        except ValueError: continue
        if v not in out: out.append(v)
    if len(out) > 200:                       # series tables: a spread-out sample
        out = out[::max(1, len(out) // 200)]
    return out

def build(variants=None, log=False):
    variants = variants or list(VARIANTS)
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    objdir = os.path.join(BUILD, 'obj')
    src = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))
    hdr = sorted(glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(os.path.join(REPO, 'src', '*.inc')) + glob.glob(os.path.join(REPO, 'src', '*.hpp')))
    hdeps = sha(*[os.path.basename(h).encode() + b'\0' + read(h) for h in hdr]) if hdr else ''
    gen = os.path.join(BUILD, 'gen'); os.makedirs(gen, exist_ok=True)
    run([sys.executable, os.path.join(SIM, 'genops.py'), os.path.join(SIM, 'ops.spec'), os.path.join(gen, 'ops_gen.inc')])
    with open(os.path.join(gen, 'dict.txt'), 'w') as f:
        for s in src:
            name = os.path.basename(s)[:-3]
            f.write(name + ' ' + ' '.join(repr(v) for v in literals(s)) + '\n')
    sdeps = sha(hdeps, read(os.path.join(SIM, 'sim.h')), read(os.path.join(gen, 'ops_gen.inc')), read(os.path.join(gen, 'ops_gen.h')))
    jobs = []
    ex = ThreadPoolExecutor(8)
    for f in ('ops', 'rt', 'props', 'main'):
        jobs.append(('sim', ex.submit(obj, os.path.join(SIM, f + '.cc'), ['-std=c++17', '-O2', '-g', '-I' + os.path.join(REPO, 'src'), '-I' + gen, '-I' + SIM], sdeps, objdir)))
    jobs.append(('sim', ex.submit(obj, os.path.join(SIM, 'libcstr.cc'), ['-std=c++17', '-O1', '-fno-builtin'], '', objdir)))
    jobs.append(('sim', ex.submit(obj, os.path.join(SIM, 'once.cc'), ['-std=c++17', '-O1', '-femulated-tls'], '', objdir)))
    dso = ex.submit(obj, os.path.join(SIM, 'dso.cc'), ['-std=c++17', '-O1', '-fPIC'], '', objdir)
    for v in variants:
        opt, ts = VARIANTS[v]
        fl = ['-std=c++17', opt, '-g', '-fPIC', '-w'] + INSTR + ['-DSLALIB_THREAD_SAFE=%d' % ts, '-I' + os.path.join(REPO, 'src')]
        probe = os.path.join(gen, 'probe%d.cc' % ts)
        with open(probe, 'w') as f:
            f.write('#include "slalib.h"\nstatic_assert(SLALIB_THREAD_SAFE == %d, "thread-safety setting not taken from the command line");\n' % ts)
        jobs.append((v, dso))
        for s in src + [probe]:
            jobs.append((v, ex.submit(obj, s, fl, hdeps, objdir)))
    objs = {}
    for k, j in jobs: objs.setdefault(k, []).append(j.result())
    exes = {}
    def link(v):
        d = os.path.join(BUILD, v); os.makedirs(d, exist_ok=True)
        key = sha(*(objs[v] + objs['sim']))
        exe = os.path.join(d, 'slasim'); stamp = os.path.join(d, 'stamp')
        if not (os.path.exists(exe) and os.path.exists(stamp) and read(stamp).decode() == key):
            so = os.path.join(d, 'libslasim_%s.so' % v)
            run([CXX, '-shared', '-nostdlib', '-Wl,-z,now', '-Wl,-z,norelro' if False else '-Wl,-z,relro', '-o', so + '.tmp'] + objs[v])
            os.rename(so + '.tmp', so)
            run([CXX, '-rdynamic', '-o', exe + '.tmp'] + objs['sim'] + [so, '-Wl,-rpath,' + d, '-Wl,-z,now', '-ldl', '-lpthread', '-lm'])
            os.rename(exe + '.tmp', exe)
            with open(stamp, 'w') as f: f.write(key)
        return exe
    for v, e in zip(variants, ex.map(link, variants)): exes[v] = e
    # keep the object cache small
    live = set(o for l in objs.values() for o in l)
    files = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(files) > 4000:
        for f in sorted(files, key=os.path.getmtime)[:len(files) - 2500]:
            if f not in live: os.unlink(f)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes, os.path.join(gen, 'dict.txt')

if __name__ == '__main__':
    import time
    t = time.time()
    e, d = build()
    print('built', ' '.join(e), 'in %.1f s' % (time.time() - t))
