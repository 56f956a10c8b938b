"""Recorded and replayed sessions: C25, judged by RecorderTrace.tla."""
import json
import os
import re
import shutil
import subprocess

from . import common
from .common import MachineryError, log, scratch, tlc

TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'
CONSTS = dict(Defects=set())


def execute(binary, family, seed, n, workers=16):
    d = os.path.join(scratch('rec'), '%s-%d' % (family, seed))
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, 'out.json')
    try:
        p = subprocess.run([binary, 'record', '-out', o, '-dir', d, '-family', family, '-seed', str(seed), '-n', str(n),
                            '-workers', str(workers)], capture_output=True, text=True, timeout=600, env=common.go_env())
    except subprocess.TimeoutExpired:
        raise MachineryError('harness took too long')
    if p.returncode == 3:
        raise MachineryError('harness: ' + p.stderr[-2000:])
    if p.returncode:
        return None, p.stderr[-4000:]
    trs = json.load(open(o))
    shutil.rmtree(d)
    for t in trs:
        if 'harness' in t:
            raise MachineryError('harness: ' + t['harness'])
    return trs, ''


def validate(traces):
    d = scratch('rec')
    nb = max(1, min(common.CORES, (len(traces) + 49) // 50))
    jobs = [(list(range(len(traces)))[k::nb], k) for k in range(nb)]

    def one(job):
        idx, k = job
        f = os.path.join(d, 'traces-%d.json' % k)
        json.dump([traces[i] for i in idx], open(f, 'w'))
        r = tlc('RecorderTrace', TRACE_CFG, CONSTS, env={'TRACES': f}, workers=1, heap='3g', stack='64m', name='RecorderTrace')
        os.unlink(f)
        if not r.ok and 'REJECTED' not in r.out:
            raise MachineryError('trace validation failed:\n' + r.out[-3000:])
        return {idx[int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)}, r.distinct
    bad, states = {}, 0
    for b, n in common.parallel(one, jobs):
        bad.update(b)
        states += n
    return bad, states


def describe(t, pos):
    ev = t['events'][pos - 1] if 0 < pos <= len(t['events']) else {}
    return 'a %s session: %s after %s' % (t['kind'], json.dumps(ev)[:300], json.dumps(t['events'][:max(0, pos - 1)])[-600:])


def check(chk, binary):
    quick = common.TIER != 'thorough'
    cfg = open(os.path.join(common.SPEC, 'BoltRecorderMC.cfg')).read()
    if not quick:
        cfg = cfg.replace('MaxItems = 4', 'MaxItems = 5')
    r = tlc('BoltRecorderMC', cfg, workers=common.CORES, heap='8g')
    if not r.ok:
        raise MachineryError('BoltRecorderMC: ' + r.out[-2000:])
    chk.count('states', r.distinct)
    chk.count('transitions', r.generated)
    for rnd in range(1 if quick else 20):
        for family, n in (('raw', 1500), ('driver', 500)):
            seed = common.SEED * 7919 + rnd * 31
            trs, err = execute(binary, family, seed, n)
            if trs is None:
                chk.violation('the process crashed: ' + err[-400:], {'kind': family, 'seed': seed, 'stderr': err})
                return
            bad, states = validate(trs)
            chk.count('scenarios_' + family, len(trs))
            chk.count('trace_states', states)
            chk.count('trace_events', sum(len(t['events']) for t in trs))
            chk.count('traces_validated_against_impl', len(trs) - len(bad))
            chk.count('sessions_not_saved', sum(1 for t in trs for e in t['events'] if e['e'] == 'unsaved'))
            chk.count('replayed_calls', sum(1 for t in trs for e in t['events'] if e['e'] in ('pread', 'pwrite')))
            chk.count('replayed_errors', sum(1 for t in trs for e in t['events'] if e['e'] in ('pread', 'pwrite') and e['err']))
            if rnd == 0:
                chk.samples += sorted(trs, key=lambda t: len(json.dumps(t)))[len(trs) // 3:][:1]
            if not bad:
                continue
            order = sorted(bad, key=lambda i: len(json.dumps(trs[i])))
            log('%d of %d %s traces rejected' % (len(bad), len(trs), family))
            for i in order[:3]:
                chk.violation(describe(trs[i], bad[i]), {'kind': family, 'trace': trs[i], 'rejected_at': bad[i]})
            return
    chk.assumptions += ['what was written is counted, not compared', 'sessions are sampled', 'an error is replayed as an error, its identity is not compared']
