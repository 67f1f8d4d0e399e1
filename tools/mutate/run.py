#!/usr/bin/env python3
"""tools/mutate/run.py [-n MAX] [-w WORKERS] [-f SUBSTR] [-s SEED] -- mutation sweep: random small changes of /repo's files that
compile and pass the baseline tests are put before the quick checks of the properties anchored in the
file; survivors are printed for a human to judge (equivalent change, or a gap)."""
import subprocess, sys, os, json, random, tempfile, threading, argparse, shutil, time
ap = argparse.ArgumentParser(); ap.add_argument('-n', type=int, default=100); ap.add_argument('-w', type=int, default=2)
ap.add_argument('-f', default=''); ap.add_argument('-s', type=int, default=1); ap.add_argument('-b', default='/verif/bin/gosym'); ap.add_argument('-o', default='/tmp/mutate.log'); ap.add_argument('-per', type=int, default=40); ap.add_argument('-l', default='')
a = ap.parse_args()
props = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    for x in p['anchors']['files'] if isinstance(p.get('anchors'), dict) else p.get('files', []):
        f = x if isinstance(x, str) else x.get('file', x.get('path'))
        f = f.split(':')[0]
        props.setdefault(f, []).append(p['id'])
random.seed(a.s)
jobs = []
for f in sorted(props):
    if not __import__('re').search(a.f, f) or not f.endswith('.go'): continue
    out = subprocess.run(['/tmp/mutate', '-i', '/repo/' + f], capture_output=True, text=True).stdout
    ms = [l.split('\t') for l in out.splitlines()]
    if a.l:
        lo, hi = map(int, a.l.split('-')); ms = [m for m in ms if lo <= int(m[1]) <= hi]
    random.shuffle(ms)
    for m in ms[:a.per]: jobs.append((f, *m))
random.shuffle(jobs); jobs = jobs[:a.n]
lock = threading.Lock(); log = open(a.o, 'a')
stat = {}
def say(*x):
    with lock:
        s = ' '.join(map(str, x)); print(s, flush=True); log.write(s + '\n'); log.flush()
def count(k): stat[k] = stat.get(k, 0) + 1
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def worker():
    w = tempfile.mkdtemp(prefix='mut_', dir='/tmp'); d = w + '/repo'
    shutil.copytree('/repo', d, symlinks=True)
    while True:
        with lock:
            if not jobs: break
            f, n, line, desc = jobs.pop()
        subprocess.run(['/tmp/mutate', '-i', '/repo/' + f, '-n', n, '-o', d + '/' + f])
        pk = './' + os.path.dirname(f)
        env = dict(os.environ)
        r = subprocess.run(['go', 'build', '-o', '/dev/null', pk], cwd=d, capture_output=True)
        if r.returncode: count('nocompile'); shutil.copy('/repo/' + f, d + '/' + f); continue
        try:
            r = subprocess.run(['go', 'test', '-json', '-vet=off', './common/...', './crypto/...', './event/...', './log/...'], cwd=d, capture_output=True, timeout=120)
            ok = set()
            for l in r.stdout.splitlines():
                try: j = json.loads(l)
                except Exception: continue
                if j.get('Action') == 'pass' and 'Test' in j: ok.add(j['Package'] + '/' + j['Test'])
            bad = not base <= ok
        except subprocess.TimeoutExpired: bad = 1
        if bad: count('tests'); shutil.copy('/repo/' + f, d + '/' + f); continue
        res = []
        killed = False
        for p in props[f]:
            t = time.time()
            env = dict(os.environ, GOSYM_REPO=d, GOSYM_FIRST='1')
            try:
                r = subprocess.run([a.b, 'check', '-prop', p, '-tier', 'quick'], env=env, capture_output=True, text=True, timeout=600)
                o = r.stdout + r.stderr
                rc = r.returncode
            except subprocess.TimeoutExpired: o = ''; rc = 'timeout'
            if 'VIOLATION' in o: killed = True; res.append(p); break
            inc = ' reduced' if 'reduced bound' in o else ''
            un = ' unconfirmed' if 'unconfirmed' in o else ''
            res.append(f'{p}:{rc}{inc}{un}:{time.time()-t:.0f}s')
        count('killed' if killed else 'SURVIVED')
        src = open('/repo/' + f).read().splitlines()[int(line) - 1].strip()
        say('killed  ' if killed else 'SURVIVED', f'{f}:{line} #{n} [{desc}]', ','.join(res), '' if killed else '| ' + src)
        shutil.copy('/repo/' + f, d + '/' + f)
    shutil.rmtree(w)
ts = [threading.Thread(target=worker) for _ in range(a.w)]
for t in ts: t.start()
for t in ts: t.join()
say('total', stat)
