#!/usr/bin/env python3
"""run_seeds.py [id...]: apply each planted bug to /repo, run its property's check, undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
bad = []
for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode:
        print(i, 'PATCH DOES NOT APPLY'); bad.append(i); continue
    t = time.time()
    try:
        p = subprocess.run(['python3', 'check.py', prop], cwd=V, env=env, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    caught = p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout
    print('%-28s %s %s rc=%d %.0fs %s' % (i, prop, 'caught' if caught else 'MISSED', p.returncode, time.time() - t,
          next((l for l in p.stdout.splitlines() if l.startswith('#')), p.stderr[-300:] if p.returncode > 1 else '')[:220]), flush=True)
    if not caught:
        bad.append(i)
print('missed:', bad)
