#!/usr/bin/env python3
"""seeded_table.py [-j N] [--all] [--tier T] [ID...]: run the checks against every planted bug, in scratch copies of /repo's src,
and rewrite the table at the end of DESIGN.md. By default a bug is run against the check of its own property only."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=2); ap.add_argument('--all', action='store_true')
ap.add_argument('--tier', default='quick'); ap.add_argument('--no-write', action='store_true'); ap.add_argument('ids', nargs='*')
a = ap.parse_args()
S = os.path.join(V, 'seeded'); ids = a.ids or sorted(os.listdir(S))
checks = [c['property'] if 'property' in c else c.get('property_id') for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
def run(bug):
    meta = json.load(open(os.path.join(S, bug, 'meta.json')))
    W = tempfile.mkdtemp(prefix='seedt.', dir='/tmp'); out = []
    try:
        shutil.copytree('/repo/src', W + '/src')
        subprocess.check_call(['git', 'init', '-q'], cwd=W)
        subprocess.check_call(['git', 'apply', os.path.join(S, bug, 'patch.diff')], cwd=W)
        for p in (checks if a.all else [meta['property']]):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p, *(['--thorough'] if a.tier == 'thorough' else []), '--repo', W, '--evidence', W + '/ev', '--replays', W + '/rp'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=V)
            hit = r.returncode == 1 and any(l.startswith(f'VIOLATION property={p} ') for l in r.stdout.splitlines())
            if hit or r.returncode not in (0, 1): out.append(p if hit else f'{p}:rc{r.returncode}')
            print(f'{bug:45s} {p} {"CAUGHT" if hit else "missed rc=%d" % r.returncode} {time.time()-t:.0f}s', flush=True)
    finally: shutil.rmtree(W, ignore_errors=True)
    return bug, meta, out
with ThreadPoolExecutor(a.j) as ex: res = list(ex.map(run, ids))
path = os.path.join(V, 'seeded_results.json')
db = json.load(open(path)) if os.path.exists(path) else {}
for b, m, o in res: db[b] = sorted(set(o) if a.all else set(o) | (set(db.get(b, [])) - {m['property']}))
db = {b: o for b, o in db.items() if os.path.isdir(os.path.join(S, b))}
if a.no_write: sys.exit()
json.dump(db, open(path, 'w'), indent=1, sort_keys=True)
rows = ['| planted bug | what it needs | caught by |', '|---|---|---|']
for b in sorted(db):
    m = json.load(open(os.path.join(S, b, 'meta.json')))
    rows.append(f"| `{b}` | {m['needs']} | {', '.join(db[b]) or 'missed'} |")
D = os.path.join(V, 'DESIGN.md'); d = open(D).read(); mark = '<!-- seeded table -->'
d = d.split(mark)[0].rstrip('\n') + f'\n\n{mark}\n' + '\n'.join(rows) + '\n'
open(D, 'w').write(d)
