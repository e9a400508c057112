#!/usr/bin/env python3
"""refactor_run.py [-j N] [--scale S] [--out F] [NAME...]: applies the behaviour-preserving rewrites of tools/refactors/*.diff one at a time to a
scratch copy of /repo/src and runs the checks their first line names (or --ids): all of them have to stay quiet. Prints what did not."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=2); ap.add_argument('--scale', default='0.3'); ap.add_argument('--ids', default=''); ap.add_argument('--seed', default='1')
ap.add_argument('--out', default='/tmp/refactors.json'); ap.add_argument('names', nargs='*'); a = ap.parse_args()
jobs = []; dirs = []
for f in sorted(glob.glob(V + '/tools/refactors/*.diff')):
    n = os.path.basename(f)[:-5]
    if a.names and n not in a.names: continue
    d = tempfile.mkdtemp(prefix='rf.'); dirs.append(d); shutil.copytree('/repo/src', d + '/src')
    r = subprocess.run(['patch', '-p1', '-s', '-i', f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(n, 'does not apply:', r.stdout); continue
    jobs += [(n, d, i) for i in (a.ids.split() or open(f).readline()[1:].split())]
res = {}
def go(job):
    n, d, i = job; t = time.time()
    r = subprocess.run(['python3', V + '/check.py', i, '--repo', d, '--scale', a.scale, '--cap', '600', '--evidence', d + '/ev', '--replays', d + '/rp.' + i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=a.seed))
    if r.returncode: print('ALARM' if r.returncode == 1 else 'NO ANSWER', n, i, r.stdout[-1500:], flush=True); os.path.isdir(d + '/rp.' + i) and shutil.copytree(d + '/rp.' + i, '/tmp/rf_alarms/' + n + '.' + i, dirs_exist_ok=True)
    else: print('quiet', n, i, '%.0fs' % (time.time() - t), flush=True)
    res[n + ' ' + i] = r.returncode; json.dump(res, open(a.out, 'w'), indent=0)
try:
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(go, jobs))
finally:
    for d in dirs: shutil.rmtree(d, ignore_errors=True)
print(len(res), 'runs,', sum(1 for v in res.values() if v), 'not quiet')
