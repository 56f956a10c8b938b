#!/usr/bin/env python3
"""mutants.py FILE.py [id...]: quick planted changes without demonstrations.

FILE.py defines M = [(id, 'C01 C02', [(file, old, new)])]; each is applied to
/repo, built, tested, checked and undone. Run through tools/iso.sh."""
import os, runpy, subprocess, sys, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
M = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2:]
env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')

def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)

def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    got = set(json.load(open('/tmp/mut-out.json')).get('passed', []))
    return [n for n in names if n not in got]

for i, props, edits in M:
    if only and i not in only or edits[0][1] is None:
        continue
    sh('git -C /repo checkout -q -- .')
    bad = None
    for f, old, new in edits:
        p = os.path.join('/repo', f)
        s = open(p).read()
        if s.count(old) != 1:
            bad = '%d matches in %s for %r' % (s.count(old), f, old[:60])
            break
        open(p, 'w').write(s.replace(old, new))
    if not bad:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            bad = 'build: ' + (r.stdout + r.stderr)[-300:]
    if not bad:
        sh('bash /opt/vp/test.sh /tmp/mut-out.json')
        miss = stable()
        if miss:
            bad = 'tests: %s' % miss[:3]
    if bad:
        print(i, props, 'SKIP', bad, flush=True)
        continue
    for prop in props.split():
        t = time.time()
        p = subprocess.run(['python3', 'check.py', prop], cwd=V, env=env, capture_output=True, text=True)
        caught = p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout
        print('%-8s %s %s rc=%d %.0fs %s' % (i, prop, 'caught' if caught else 'MISSED', p.returncode, time.time() - t,
              next((l for l in p.stdout.splitlines() if l.startswith('#')), p.stderr[-300:] if p.returncode > 1 else '')[:160]), flush=True)
sh('git -C /repo checkout -q -- .')
