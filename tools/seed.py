#!/usr/bin/env python3
"""seed.py <id> : turn /verif/tools/seeds/<id>.py into /verif/seeded/<id>/.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Go
source of main) and optionally EXTRA = {name: content}.  The change is kept only
if it builds, passes the stable tests, and the demo passes without and fails with
it."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def stable(out):
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(out))
    names = base.get('stable') or base.get('passed') or base
    passed = set(got.get('passed', []))
    return [n for n in (names if isinstance(names, list) else names.keys()) if n not in passed]

def main(i):
    m = runpy.run_path(os.path.join(V, 'tools', 'seeds', i + '.py'))
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('repo not clean')
    d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(os.path.join(V, 'harness', 'codec.go'), d)
    for f in ('fake.go', 'demo.sh'):
        shutil.copy(os.path.join(V, 'tools', 'seedlib', f), d)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'main.go'), 'w').write(m['DEMO'])
    for k, v in m.get('EXTRA', {}).items():
        open(os.path.join(d, k), 'w').write(v)
    json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = False
    try:
        r = sh('bash /opt/vp/build.sh && bash ' + d + '/demo.sh', cwd='/repo')
        if r.returncode:
            sys.exit('%s: demo fails on the unchanged tree (%d)\n%s%s' % (i, r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
        for f, old, new in m['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches in %s for %r' % (i, s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        sh('gofmt -l .', cwd='/repo')
        diff = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r = sh('bash /opt/vp/build.sh', cwd='/repo')
        if r.returncode:
            sys.exit('%s: build fails\n%s' % (i, (r.stdout + r.stderr)[-2000:]))
        sh('bash /opt/vp/test.sh /tmp/seed-out.json', cwd='/repo')
        miss = stable('/tmp/seed-out.json')
        if miss:
            sys.exit('%s: tests fail: %s' % (i, miss[:5]))
        r = sh('bash ' + d + '/demo.sh', cwd='/repo')
        if r.returncode in (0, 3):
            sys.exit('%s: demo does not fail with the change (%d) %s' % (i, r.returncode, (r.stdout + r.stderr)[-800:]))
        print(i, 'ok:', (r.stdout.strip().splitlines() or r.stderr.strip().splitlines() or ['?'])[0][:200])
        ok = True
    finally:
        sh('git -C /repo checkout -- .')
        if not ok:
            shutil.rmtree(d, ignore_errors=True)

for x in sys.argv[1:]:
    main(x)
