#!/usr/bin/env python3
"""Developer tool (no check uses it): run a property's check against every
planted change of seeded/ and write which were caught to work/sweep.json.
usage: sweep.py [id-prefix ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'work', 'sweep.json')
os.makedirs(os.path.dirname(out), exist_ok=True)
res = json.load(open(out)) if os.path.exists(out) else {}
for i in sorted(os.listdir(V + '/seeded')):
    if sys.argv[1:] and not any(i.startswith(p) for p in sys.argv[1:]):
        continue
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', f'{V}/seeded/{i}/patch.diff']).returncode:
        res[i] = 'patch does not apply'
        continue
    t = time.time()
    try:
        r = subprocess.run(['bash', V + '/check.sh', p], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    ok = r.returncode == 1 and any(f'property={p} ' in l for l in v)
    res[i] = {'property': p, 'caught': ok, 'rc': r.returncode, 's': round(time.time() - t, 1)}
    print(i, 'CAUGHT' if ok else 'MISSED', r.returncode, res[i]['s'], flush=True)
    if not ok:
        print(r.stdout[-600:], r.stderr[-600:])
    json.dump(res, open(out, 'w'), indent=1)
