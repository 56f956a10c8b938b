"""Parameters, rows and summaries: C21, C22, judged by DataTrace.tla."""
import json
import os
import re
import subprocess

from . import common
from .common import MachineryError, log, scratch, tlc

TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'
CONSTS = dict(LB=65536, Defects=set())


def execute(binary, mode, seed, n, workers=16):
    o = os.path.join(scratch('data'), 'out-%s-%d.json' % (mode, seed))
    try:
        p = subprocess.run([binary, 'data', '-out', o, '-family', mode, '-seed', str(seed), '-n', str(n), '-workers', str(workers)],
                           capture_output=True, text=True, timeout=800, env=common.go_env())
    except subprocess.TimeoutExpired:
        raise MachineryError('harness took too long')
    if p.returncode == 3:
        raise MachineryError('harness: ' + p.stderr[-2000:])
    if p.returncode:
        return None, p.stderr[-4000:]
    trs = json.load(open(o))
    os.unlink(o)
    for t in trs:
        if 'harness' in t:
            raise MachineryError('harness: ' + t['harness'])
    return trs, ''


def validate(traces):
    d = scratch('data')
    nb = max(1, min(common.CORES, (len(traces) + 19) // 20))
    jobs = [(list(range(len(traces)))[k::nb], k) for k in range(nb)]

    def one(job):
        idx, k = job
        f = os.path.join(d, 'traces-%d.json' % k)
        json.dump([traces[i] for i in idx], open(f, 'w'))
        r = tlc('DataTrace', TRACE_CFG, CONSTS, env={'TRACES': f}, workers=1, heap='3g', stack='256m', name='DataTrace')
        os.unlink(f)
        if not r.ok and 'REJECTED' not in r.out:
            raise MachineryError('trace validation failed:\n' + r.out[-3000:])
        return {idx[int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)}, r.distinct
    bad, states = {}, 0
    for b, n in common.parallel(one, jobs):
        bad.update(b)
        states += n
    return bad, states


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def describe(t, pos):
    ev = t['events'][pos - 1] if 0 < pos <= len(t['events']) else {}
    calls = [e for e in t['events'][:pos] if e['e'] == 'call']
    return '%s is not what the specification allows after %s' % (short(ev), short(calls[-1:], 300))


def check(chk, binary):
    prop = chk.prop
    quick = common.TIER != 'thorough'
    r = tlc('BoltDataMC', open(os.path.join(common.SPEC, 'BoltDataMC.cfg')).read(), workers=common.CORES, heap='4g')
    if not r.ok:
        raise MachineryError('BoltDataMC: ' + r.out[-2000:])
    chk.count('states', r.distinct)
    chk.count('transitions', r.generated)
    for rnd in range(1 if quick else 25):
        n = 700
        seed = common.SEED * 7919 + rnd * 31
        trs, err = execute(binary, prop, seed, n)
        if trs is None:
            chk.violation('the process crashed: ' + err[-400:], {'kind': 'data', 'seed': seed, 'stderr': err})
            return
        bad, states = validate(trs)
        chk.count('scenarios', len(trs))
        chk.count('trace_states', states)
        chk.count('trace_events', sum(len(t['events']) for t in trs))
        chk.count('traces_validated_against_impl', len(trs) - len(bad))
        for e in ('req', 'err', 'exec', 'rows', 'row', 'rowerr', 'all', 'set'):
            chk.count('events_' + e, sum(1 for t in trs for x in t['events'] if x['e'] == e))
        if rnd == 0:
            chk.samples += sorted(trs, key=lambda t: len(json.dumps(t)))[len(trs) // 4:][:1]
        if not bad:
            continue
        order = sorted(bad, key=lambda i: len(json.dumps(trs[i])))
        log('%d of %d traces rejected' % (len(bad), len(trs)))
        # the same scenarios again: what they do is settled by the seed
        t2, err = execute(binary, prop, seed, n)
        b2, _ = validate([t2[i] for i in order[:20]]) if t2 else ({}, 0)
        still = [i for k, i in enumerate(order[:20]) if k in b2]
        chk.count('unconfirmed_rejections', min(20, len(order)) - len(still))
        for i in still[:3]:
            chk.violation(describe(trs[i], bad[i]), {'kind': 'data', 'mode': prop, 'trace': trs[i], 'rejected_at': bad[i]})
        if chk.violations:
            return
    chk.assumptions += ['values and arguments are sampled; the meaning of argument bytes is that of PackStream.tla']
