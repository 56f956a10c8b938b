"""Encoder, decoder and framing: C13 - C17, judged by CodecTrace.tla."""
import json
import os
import re
import resource
import subprocess

from . import common
from .common import MachineryError, log

# tags of inputs whose failure is a recorded finding (known_findings.txt)
KNOWN = {
    ('C16', 'long-string'): 'a string longer than the configured chunk size makes a chunk longer than that size',
    ('C14', 'uint-wrap'): 'a uint beyond the signed maximum is sent as a negative integer',
}


def listed(prop, tag):
    try:
        text = open(common.KNOWN).read()
    except OSError:
        return False
    return re.search(r'^known: property=%s input=%s\b' % (prop, re.escape(tag)), text, re.M) is not None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def harness(binary, job, out, progress=None):
    cmd = [binary, 'codec', '-out', out]
    for k, v in job.items():
        cmd += ['-' + k, str(v)]
    if progress:
        cmd += ['-progress', progress]
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=800, preexec_fn=limits, env=common.go_env())
    except subprocess.TimeoutExpired:
        raise MachineryError('harness took too long: %r' % (job,))


def run_job(binary, prop, job, d):
    """one shard: run the code, let TLC judge; returns (#records, [(record, what)], error)"""
    name = '%s-%s-%d' % (prop, job['family'], job['part'])
    out = os.path.join(d, name + '.json')
    p = harness(binary, job, out)
    if p.returncode == 3:
        raise MachineryError('harness: ' + p.stderr[-2000:])
    if p.returncode:
        # the process died: a fatal error of the runtime or a hang
        at = ''
        prog = os.path.join(d, name + '.at')
        harness(binary, job, out, prog)
        if os.path.exists(prog):
            at = open(prog).read()
        return 0, [({'job': job, 'input': at, 'stderr': p.stderr[:3000]}, 'the driver crashed or hung: ' + p.stderr.strip().split('\n')[0][:200])], None, []
    recs = json.load(open(out))
    if not recs:
        os.unlink(out)
        return 0, [], None, []
    bad = [(r, r['what']) for r in recs if r['k'] == 'crash']
    r = common.tlc('CodecTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE', {'Prop': prop}, env={'TRACES': out},
                   workers=1, heap='3g', stack='256m', timeout=800, name=name)
    if not r.ok or r.distinct != len(recs) + 1:
        raise MachineryError('TLC failed on %s: %s' % (name, r.out[-3000:]))
    for m in re.finditer(r'<<"REJECTED", (\d+)>>', r.out):
        rec = recs[int(m.group(1)) - 1]
        bad.append((rec, '%s record refused by the specification' % rec['k']))
    os.unlink(out)
    return len(recs), bad, r, recs[len(recs) // 2:][:1]


PLAN = {
    # property: [(family, quick n per shard, thorough n per shard)]
    'C13': [('boundaries', 0, 0), ('seq', 450, 9000), ('live', 40, 600)],
    'C14': [('boundaries', 0, 0), ('seq', 450, 9000), ('live', 40, 600), ('findings', 0, 0)],
    'C15': [('exhaustive', 3, 4), ('bigdec', 0, 0), ('typed', 0, 0), ('dec', 2500, 50000), ('trunc', 40, 800)],
    'C16': [('boundaries', 0, 0), ('seq', 450, 9000), ('live', 80, 900), ('findings', 0, 0)],
    'C17': [('stream', 300, 5000), ('livestream', 60, 900), ('open', 8, 64)],
}


def short(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def check(chk, binary):
    prop = chk.prop
    quick = common.TIER != 'thorough'
    if prop in ('C13', 'C14', 'C15'):
        mc = open(os.path.join(common.SPEC, 'PackStreamMC.cfg')).read()
        r = common.tlc('PackStreamMC', mc, workers=common.CORES, heap='4g', stack='64m')
        if not r.ok:
            raise MachineryError('PackStreamMC: ' + r.out[-2000:])
        chk.count('states', r.distinct)
        chk.count('transitions', r.generated)
    jobs = []
    parts = common.CORES
    for fam, nq, nt in PLAN[prop]:
        n = nq if quick else nt
        rounds = 1 if quick or n <= 1000 else -(-n // 1000)
        if fam in ('boundaries', 'bigdec', 'typed', 'exhaustive', 'findings', 'open'):
            rounds = 1
        k = parts
        if fam == 'findings':
            k = 1
        if fam == 'exhaustive':
            k = parts if quick else parts * 24
        for q in range(rounds):
            for part in range(k):
                jobs.append({'family': fam, 'seed': common.SEED * 7919 + q * 104729 + PLAN_SEED[fam], 'n': n if rounds == 1 else 1000,
                             'part': part, 'parts': k, 'size': n if fam == 'exhaustive' else 3})
    d = common.scratch('codec')
    jobs.sort(key=lambda j: j['family'] not in ('boundaries', 'bigdec', 'exhaustive'))

    def one(job):
        if len(chk.violations) >= 5:
            return None
        return job, run_job(binary, prop, job, os.path.join(d))
    found = {}
    for res in common.parallel(one, [dict(j) for j in jobs]):
        if res is None:
            continue
        job, (n, bad, r, some) = res
        chk.count('records_' + job['family'], n)
        chk.count('traces_validated_against_impl', n)
        chk.count('states', r.distinct if r else 0)
        chk.count('transitions', r.generated if r else 0)
        if some and len(json.dumps(some[0])) < 3000 and job['part'] == 1:
            chk.samples.append(some[0])
        for rec, what in bad:
            tag = rec.get('tag', '')
            if tag and (prop, tag) not in KNOWN:
                continue
            if tag and listed(prop, tag):
                chk.known_finding('%s: %s' % (tag, KNOWN[(prop, tag)]))
                continue
            found.setdefault(job['family'], []).append((job, rec, what))
    for fam, l in found.items():
        # what is smallest says most
        l.sort(key=lambda x: len(json.dumps(x[1])))
        for job, rec, what in l[:2]:
            log('%s: %s (%d of this family)' % (what, short(rec), len(l)))
            chk.violation('%s: %s' % (what, short(rec, 600)), {'job': job, 'record': rec})
    chk.assumptions += [
        'byte strings and values beyond the enumerated alphabets and sizes are sampled',
        'the order of map entries is free; a message with a repeated map key or bytes after its value may be refused or not',
    ]


PLAN_SEED = {f: i for i, f in enumerate(['boundaries', 'seq', 'live', 'findings', 'exhaustive', 'bigdec', 'dec', 'trunc', 'stream', 'livestream', 'open', 'typed'])}
