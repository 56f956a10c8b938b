"""The connection pool: users of the real pool, one call after the other or
concurrently; what they and the server saw is checked against BoltPool by TLC."""
import json
import os
import re
import subprocess

from . import common
from .common import MachineryError, log, race_env, rng, scratch, tlc

ASK = ['exec', 'exec', 'slow', 'fail']
LOSSY = ['drop', 'junk', 'stall', 'resetfail', 'ackjunk']
OPENS = ['rows', 'pipe', 'pfail', 'prepq', 'prep']
STALE = ['exec', 'begin', 'commit', 'next', 'drain', 'finish', 'prep', 'rows']
BADINIT = ['refuse', 'version', 'other', 'drop', 'dropinit', 'junk', 'ignored', 'record']

TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'


def scripted(i, r, focus):
    """a scenario: calls one after the other (a blocked open is left waiting)"""
    m = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 9])
    users = min(6, r.randint(m + 1, m + 4))
    closable = focus == 'C12' or r.random() < 0.4
    steps, inits, rbs = [], [], []
    held, closed, waiting, nh = {}, [], [], 0   # h -> state
    busy = set()
    down = False
    pclosed = False

    def user():
        free = [u for u in range(1, users + 1) if u not in busy]
        return r.choice(free) if free else None

    def opened():
        nonlocal nh
        nh += 1
        held[nh] = {'tx': False, 'open': 'no', 'bad': False, 'small': False}

    def bad_init():
        p = {'C11': 0.35, 'C10': 0.3}.get(focus, 0.12)
        return r.random() < p

    def do_open():
        u = user()
        if u is None:
            return
        steps.append({'u': u, 'op': 'open'})
        if pclosed:
            return
        if len(held) < m:
            if m > 3:
                # tell at once which connection it is
                steps.append({'u': u, 'op': 'use', 'h': -1, 'k': 'exec'})
            if down:
                return
            x = r.choice(BADINIT) if bad_init() else 'ok'
            inits.append(x)
            if x == 'ok' or r.random() < 0.5:   # an idle connection needs no initialization
                opened()
        else:
            waiting.append(u)
            busy.add(u)

    def do_close(h, asyn=False):
        u = user()
        if u is None:
            return
        steps.append({'u': u, 'op': 'close', 'h': h, 'async': asyn})
        if h in held:
            held.pop(h)
            closed.append(h)
            if waiting:
                busy.discard(waiting.pop(0))
                if not pclosed:
                    opened()

    def use(h, k):
        u = user()
        if u is None:
            return
        steps.append({'u': u, 'op': 'use', 'h': h, 'k': k})
        st = held.get(h)
        if st is None:
            return
        if k == 'begin' and st['open'] == 'no':
            st['tx'] = True
            rbs.append('bad' if r.random() < 0.4 else 'ok')
        if k in OPENS and st['open'] == 'no':
            st['open'] = k
        if k in ('drain',) or k == 'finish' and st['open'] == 'rows':
            st['open'] = 'no'
        if k == 'commit':
            st['tx'] = False

    n = r.randint(5, 22) + m * (m > 3)
    for _ in range(n):
        if r.random() < 0.06:
            steps.append({'op': 'kill', 'h': r.randint(1, len(inits) + 1), 'u': 1})
        x = r.random()
        if not held or x < 0.24 or m > 3 and len(held) < m and r.random() < 0.5:
            do_open()
        elif x < 0.48:
            do_close(r.choice(list(held)))
        elif x < 0.48 + (0.2 if focus == 'C09' else 0.08) and closed:
            h = r.choice(closed)
            if r.random() < 0.35:
                do_close(h)
            else:
                use(h, r.choice(STALE))
        elif x < 0.62 and (focus == 'C10' or r.random() < 0.1):
            down = not down
            steps.append({'op': 'reach', 'd': down, 'u': 1})
        elif x < 0.68 and closable and not pclosed and (focus == 'C12' and len(steps) > 4 or r.random() < 0.3):
            u = user()
            if u:
                if held and r.random() < 0.5:
                    # close it under somebody who waits for the server
                    h = r.choice(list(held))
                    v = user()
                    if v and v != u:
                        steps.append({'u': v, 'op': 'use', 'h': h, 'k': 'slow', 'async': True})
                steps.append({'u': u, 'op': 'pclose'})
                pclosed = True
                waiting.clear()
                busy.clear()
        else:
            h = r.choice(list(held))
            st = held[h]
            y = r.random()
            if st['open'] != 'no' and y < 0.5:
                k = r.choice(['drain', 'finish', 'finish', 'exec'])
            elif st['tx'] and st['open'] == 'no' and y < 0.3:
                k = 'commit'
            elif y < 0.35:
                k = r.choice(LOSSY)
            elif y < 0.55:
                k = r.choice(OPENS)
            elif y < 0.7:
                k = 'begin'
            elif y < 0.78:
                k = 'small'
            else:
                k = r.choice(ASK)
            if k == 'slow' and r.random() < 0.7 and not st['small']:
                k = 'exec'
            if k == 'small':
                st['small'] = True
            if k == 'commit' and st['open'] != 'no':
                k = 'drain'
            use(h, k)
    # in the end everything is free again
    if r.random() < 0.7:
        if down:
            down = False
            steps.append({'op': 'reach', 'd': False, 'u': 1})
        for k in range(3 * m + 3):
            for h in list(held):
                do_close(h)
        # handles that were opened although the generator thought they would not
        for h in range(1, nh + 3):
            if h not in closed and h not in held:
                steps.append({'u': 6, 'op': 'close', 'h': h})
        if not pclosed:
            inits += ['ok'] * 0
            base = nh
            for k in range(m + 1):
                steps += [{'u': 1 + k % 4, 'op': 'open'}, {'u': 1 + k % 4, 'op': 'use', 'h': -1, 'k': 'exec'}]
            for k in range(m):
                steps.append({'u': 6, 'op': 'use', 'h': base + k + 1, 'k': 'exec'})
            steps.append({'u': 5, 'op': 'close', 'h': base + 1})
            steps.append({'u': 6, 'op': 'use', 'h': base + m + 1, 'k': 'exec'})
    return {'id': i, 'm': m, 'closable': closable, 'seed': r.getrandbits(40), 'frag': r.choice([0, 0, 0, 2]), 'tls': r.random() < 0.25,
            'steps': steps, 'inits': inits, 'rbs': rbs}


def stress(i, r, closing):
    m = r.choice([1, 1, 2, 3])
    kinds = ['exec'] * 6 + ['fail', 'rows', 'begin', 'commit', 'finish', 'drain', 'pfail', 'pipe', 'prep']
    if r.random() < 0.6:
        kinds += ['drop', 'junk', 'resetfail']
    return {'id': i, 'm': m, 'closable': True, 'seed': r.getrandbits(40), 'frag': 0, 'steps': [], 'inits': [], 'rbs': [],
            'kill': r.choice([0, 0, 10, 30]), 'tls': r.random() < 0.25, 'users': r.randint(2, 4), 'calls': r.randint(6, 14), 'kinds': kinds, 'close': closing, 'bad': r.choice([0, 0, 15, 40])}


def execute(binary, scs, workers=48, grace='60ms', race_log=None):
    d = scratch('pool')
    tag = os.urandom(4).hex()
    i, o = os.path.join(d, 'in' + tag), os.path.join(d, 'out' + tag)
    json.dump(scs, open(i, 'w'))
    env = race_env(race_log)
    try:
        p = subprocess.run([binary, 'pool', '-in', i, '-out', o, '-workers', str(workers), '-grace', grace],
                           capture_output=True, text=True, timeout=800, env=env)
    except subprocess.TimeoutExpired:
        raise MachineryError('pool harness took too long')
    if p.returncode == 3:
        raise MachineryError('harness: ' + p.stderr[-2000:])
    if not os.path.exists(o):
        return None, p.stderr[-3000:]
    t = json.load(open(o))
    os.unlink(i)
    os.unlink(o)
    return t, p.stderr[-3000:]


def validate(traces, ms):
    """check recorded traces against BoltPool; returns rejected {index: position}, states"""
    d = scratch('pool')
    jobs = []
    for m in sorted(set(ms)):
        idx = [i for i in range(len(traces)) if ms[i] == m]
        nb = max(1, min(common.CORES, (len(idx) + 24) // 25))
        jobs += [(m, idx[k::nb], k) for k in range(nb)]

    def one(job):
        m, idx, k = job
        f = os.path.join(d, 'traces-%d-%d.json' % (m, k))
        json.dump([traces[i] for i in idx], open(f, 'w'))
        consts = dict(M=m, Users=set(range(1, 7)), MaxH=0, MaxP=0, Kinds=set(), Rb=set(), InitBad=set(), Closing=False, Kills=False, Gen=False, Defects=set())
        r = tlc('PoolTrace', TRACE_CFG, consts, env={'TRACES': f}, workers=1, heap='3g', name='PoolTrace')
        os.unlink(f)
        if not r.ok and 'REJECTED' not in r.out:
            raise MachineryError('trace validation failed:\n' + r.out[-3000:])
        return {idx[int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)}, r.distinct, r.generated
    bad, states, gen = {}, 0, 0
    for b, n, g in common.parallel(one, jobs):
        bad.update(b)
        states += n
        gen += g
    return bad, states, gen


def describe(tr, pos):
    ev = tr[pos - 1] if 0 < pos <= len(tr) else {}
    before = [e for e in tr[:pos - 1] if e['e'] in ('opencall', 'usecall', 'closecall', 'poolcall', 'blocked', 'openerr')][-8:]
    return '%s is not allowed by the specification after %s' % (json.dumps(ev), json.dumps(before))


def run(chk, binary, scs, race_log=None):
    trs, err = execute(binary, scs, race_log=race_log)
    if trs is None:
        return crash(chk, binary, scs, err)
    ms = [s['m'] for s in scs]
    bad, states, gen = validate(trs, ms)
    chk.count('traces_validated_against_impl', len(scs) - len(bad))
    chk.count('states', states)
    chk.count('transitions', gen)
    chk.count('trace_events', sum(len(t) for t in trs))
    if len(chk.samples) < 3:
        chk.samples.append({'scenario': scs[0], 'trace': trs[0][:40]})
    if not bad:
        return
    order = sorted(bad, key=lambda i: (bool(scs[i].get('users')), len(trs[i])))
    log('%d of %d traces rejected; confirming' % (len(bad), len(scs)))
    for i in order[:3]:
        log('   ' + describe(trs[i], bad[i]))
    with open(os.path.join(common.BUILD, 'rejected-pool.json'), 'w') as f:
        json.dump([{'scenario': scs[i], 'trace': trs[i], 'pos': bad[i]} for i in order[:20]], f)
    again = [scs[i] for i in order[:20]]
    # what happened between concurrent users need not happen again: run those often
    again = [s for s in again for _ in range(12 if s.get('users') else 1)]
    soft = {json.dumps(scs[i], sort_keys=True): (scs[i], trs[i], bad[i]) for i in order[:20]}
    t2, err = execute(binary, again, workers=6, grace='1500ms', race_log=race_log)
    if t2 is None:
        return crash(chk, binary, again, err)
    b2, _, _ = validate(t2, [s['m'] for s in again])
    seen = set()
    for i in sorted(b2, key=lambda i: len(t2[i])):
        s = again[i]
        if s['id'] in seen or len(seen) >= 3:
            continue
        seen.add(s['id'])
        chk.violation(describe(t2[i], b2[i]), {'kind': 'pool', 'scenario': s, 'trace': t2[i], 'rejected_at': b2[i]})
    if not seen:
        # an event that no delay explains is a violation even if it does not happen again
        hard = [(s, t, p) for s, t, p in soft.values() if s.get('users') and 0 < p <= len(t) and t[p - 1]['e'] not in ('blocked', 'hang')
                and not (t[p - 1]['e'] == 'end')]
        for s, t, p in hard[:2]:
            chk.violation(describe(t, p), {'kind': 'pool', 'scenario': s, 'trace': t, 'rejected_at': p})
        chk.count('unconfirmed_rejections', len(soft) - len(hard))


def crash(chk, binary, scs, err):
    lo = scs
    for _ in range(12):
        if len(lo) <= 1:
            break
        a, b = lo[:len(lo) // 2], lo[len(lo) // 2:]
        if execute(binary, a)[0] is None:
            lo = a
        elif execute(binary, b)[0] is None:
            lo = b
        else:
            break
    chk.violation('the process crashed: ' + err[-600:], {'kind': 'pool', 'scenarios': lo[:10], 'stderr': err})


SAFE = 'INVARIANTS OneHolder OneSlot AtMostM NoneLost ReadyWhenIdle\nCHECK_DEADLOCK FALSE\n'


def design(chk, name, live=False, **kw):
    """the model itself satisfies the properties"""
    consts = dict(M=1, Users={1, 2}, MaxH=2, MaxP=2, Kinds={'exec', 'begin', 'drop'}, Rb={'ok', 'bad'}, InitBad={'refuse'},
                  Closing=True, Kills=False, Gen=False, Defects=set())
    consts.update(kw)
    cfg = 'SPECIFICATION FairSpec\nPROPERTIES EventuallyOpens EventuallyClosed\nCHECK_DEADLOCK FALSE\n' if live else 'SPECIFICATION Spec\n' + SAFE
    r = tlc('BoltPool', cfg, consts, workers=common.CORES, heap='8g', name=name)
    if not r.ok:
        raise MachineryError('BoltPool does not satisfy its own properties (%s):\n%s' % (name, r.out[-3000:]))
    chk.count('states', r.distinct)
    chk.count('transitions', r.generated)


def check(chk):
    prop = chk.prop
    quick = common.TIER != 'thorough'
    r = rng(prop)
    if prop == 'C24':
        return concurrent(chk, quick, r)
    binary = common.build_harness()
    design(chk, 'safe')
    design(chk, 'lost', Kinds={'exec', 'begin'}, Kills=True, InitBad=set(), Closing=prop == 'C12')
    if prop in ('C10', 'C12'):
        design(chk, 'live', live=True, InitBad=set(), Rb={'ok'})
    if not quick:
        design(chk, 'safe2', M=2, Kinds={'exec', 'drop'}, MaxH=3, MaxP=3, Rb={'ok'})
        design(chk, 'all', Kinds={'exec', 'rows', 'begin', 'commit', 'drop', 'fail'})
        design(chk, 'live2', live=True, M=2, Users={1, 2, 3}, Kinds={'drop'}, MaxH=3, MaxP=3, InitBad=set(), Rb={'ok'})
    for rnd in range(1 if quick else 12):
        run(chk, binary, [scripted(i, r, prop) for i in range(900)] +
            [stress(900 + i, r, prop == 'C12' or i % 4 == 0) for i in range(80)])
        if chk.violations:
            break
    chk.assumptions += ['a handle is used by one goroutine at a time (documented)',
                        'users, slots, connections and calls per behaviour as generated; larger ones are not tried']


def concurrent(chk, quick, r):
    from . import session, session_configs as sc
    race = common.build_harness(race=True)
    logf = os.path.join(scratch('race'), 'report')
    for rnd in range(1 if quick else 15):
        run(chk, race, [stress(i, r, i % 3 == 0) for i in range(160)] +
            [scripted(160 + i, r, 'C12') for i in range(100)], race_log=logf)
        # one driver shared by all
        c = sc.conf('shared', 'exec query queryall rnext rclose execpipe qpipe pnext begin commit rollback prep squery sclose close', 'RUN PULL', rec=2)
        g = session.Graph(c['consts'], 'C24-shared')
        chk.count('states', g.res.distinct)
        scs = [session.scenario(i, p, False, r) for i, p in enumerate(g.walks(r, 250, 12))]
        trs, err = session.execute(race, scs, extra=['-shared'], race_log=logf)
        if trs is None:
            chk.violation('the process crashed: ' + err[-600:], {'kind': 'shared', 'scenarios': scs[:20], 'stderr': err})
        else:
            bad, n = session.validate(trs, False)
            chk.count('traces_validated_against_impl', len(scs) - len(bad))
            chk.count('states', n)
            if bad:
                # only what also fails while shared again is a violation
                t2, err = session.execute(race, scs, extra=['-shared'], race_log=logf, workers=24, normal='20s', stall='600ms', slack='15s')
                b2, _ = session.validate(t2, False) if t2 is not None else ({}, 0)
                for i in sorted(b2, key=lambda i: len(t2[i]))[:2]:
                    chk.violation('one driver shared by many: ' + session.describe(scs[i], t2[i], b2[i]),
                                  {'kind': 'shared', 'scenario': scs[i], 'trace': t2[i]})
        for rep in common.race_reports(logf)[:2]:
            chk.violation('data race: ' + rep[:1500], {'kind': 'race', 'report': rep})
        if chk.violations:
            break
    chk.assumptions += ['interleavings are those the scheduler happens to take; data races are those the race detector sees in them']
