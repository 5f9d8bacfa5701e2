#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the edits in bugs*.py; `bugs.py ID...` only those. `bugs.py --try ID...` also applies each one in a
scratch copy: builds, runs the stable tests, the demo with and without the change, and the property's check. No check reads this."""
import os, sys, json, shutil, subprocess, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, opt='-O2', ts=1, pre=''):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, opt=opt, ts=ts, pre=pre)
def write(id):
    b = BUGS[id]
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    t = '/tmp/mkbug'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.check_call('git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (t, t), shell=True)
    for f, old, new in b['edits']:
        p = os.path.join(t, 'src', f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
    assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(t)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    s = open(os.path.join(HERE, 'demolib', 'demo.sh')).read().replace('@TS@', str(b['ts'])).replace('-O2', b['opt'])
    open(os.path.join(d, 'demo.sh'), 'w').write(s); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(HERE, 'demolib', 'stepper.h'), d)
    open(os.path.join(d, 'demo.cc'), 'w').write('#include "slalib.h"\n#include "stepper.h"\n#include <cmath>\n' + b['pre'] + b['demo'] + '\n')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def attempt(id, w='/tmp/wt', props=None):
    b = BUGS[id]; d = os.path.join(V, 'seeded', id); res = {}
    sh('mkdir -p %s && rsync -a --delete --exclude .git --exclude _build /repo/ %s/ 2>/dev/null || (rm -rf %s; mkdir %s; git -C /repo archive HEAD | tar x -C %s)' % (w, w, w, w, w))
    demo = lambda: sh('cd %s && timeout 300 bash %s/demo.sh' % (w, d))
    r = demo(); res['demo clean'] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    r = sh('cd %s && git apply --unsafe-paths --directory= %s/patch.diff || patch -p1 < %s/patch.diff' % (w, d, d)); 
    if r.returncode: print('APPLY', r.stdout); return
    t = '/tmp/wt-test'; sh('rm -rf %s; mkdir %s' % (t, t))
    r = sh('cd %s && ls src/*.cc tests/*.cc | xargs -P 8 -I{} sh -c "g++ -std=c++17 -O2 -g -Isrc -c {} -o %s/\\$(basename {} .cc).o" && g++ %s/*.o -o %s/t -lpthread && %s/t' % (w, t, t, t, t))
    res['tests'] = 'pass' if r.returncode == 0 and 'PASSED' in r.stdout else r.stdout[-800:]
    r = demo(); res['demo bug'] = r.returncode; print(r.stdout[-200:].strip())
    sh('rm -rf ' + t)
    for p in (props or [b['prop']]):
        r = sh('cd %s && SLASIM_REPO=%s SLASIM_BUILD=/tmp/wtb timeout 900 python3 check.py %s quick' % (V, w, p))
        res[p] = (r.returncode, r.stdout.strip().splitlines()[-1][:260] if r.stdout.strip() else '')
    print(id, b['prop'], json.dumps(res), flush=True)
if __name__ == '__main__':
    sys.modules['bugs'] = sys.modules['__main__']
    sys.path.insert(0, HERE)
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs[0-9]*.py'))): __import__(os.path.basename(f)[:-3])
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    ids = [i for i in BUGS if not a or any(i.startswith(x) for x in a)]
    for i in ids: write(i)
    if '--try' in sys.argv:
        for i in ids: attempt(i)
    if '--all' in sys.argv:
        for i in ids: attempt(i, props=['C%02d' % k for k in range(1, 17)])
