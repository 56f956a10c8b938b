"""Sessions on one connection: behaviours of BoltSession are run on the real
driver, what really happened is checked against BoltSession by TLC."""
import json
import os
import re
import subprocess
from collections import deque

from .common import *

INV = ('INVARIANTS CleanStream Correlated InOrder AckOnce Recovered TxKnown TxGone OneOpen TypeOK\n'
       'CHECK_DEADLOCK FALSE\n')


class Graph:
    """the transition graph of a configuration, as printed by TLC"""

    def __init__(self, consts, name, workers=4):
        d = scratch('graph')
        self.path = os.path.join(d, name + '.edges')
        self.res = tlc('BoltSessionGen', 'SPECIFICATION Spec\nACTION_CONSTRAINT EdgeLog\n' + INV, consts,
                       workers=workers, heap='4g', name=name, keep_out=self.path)
        if not self.res.ok:
            raise MachineryError('BoltSession does not satisfy its own properties (%s):\n%s' % (name, self.res.out[-3000:]))
        self.succ = {}
        self.init = None
        edges = set()
        for line in open(self.path):
            if not line.startswith('"E '):
                continue
            _, a, b, k, op, n = line.strip().strip('"').split(' ')
            if self.init is None:
                self.init = a
            e = (a, b, k, op, int(n))
            if e not in edges:
                edges.add(e)
                self.succ.setdefault(a, []).append(e)
        os.unlink(self.path)
        for v in self.succ.values():
            v.sort()
        self.nedges = len(edges)
        # shortest way to every state, and to an idle state from every state
        self.via = {self.init: None}
        q = deque([self.init])
        while q:
            x = q.popleft()
            for e in self.succ.get(x, []):
                if e[1] not in self.via:
                    self.via[e[1]] = e
                    q.append(e[1])
        self.home = {}
        pred = {}
        for e in edges:
            pred.setdefault(e[1], []).append(e)
        q = deque()
        for e in sorted(edges):
            if e[2] == 'R' and e[1] not in self.home:
                self.home[e[1]] = None
                q.append(e[1])
        self.home.setdefault(self.init, None)
        while q:
            x = q.popleft()
            for e in pred.get(x, []):
                if e[0] not in self.home:
                    self.home[e[0]] = e
                    q.append(e[0])

    def path_to(self, x):
        out = []
        while self.via[x] is not None:
            out.append(self.via[x])
            x = self.via[x][0]
        return out[::-1]

    def path_home(self, x):
        out = []
        while self.home.get(x) is not None:
            out.append(self.home[x])
            x = self.home[x][1]
        return out

    def cover(self, r, maxcalls, limit=None):
        """paths that together take every transition (or as many as limit paths can)"""
        todo = [e for v in self.succ.values() for e in v]
        r.shuffle(todo)
        left = set(todo)
        paths = []
        for first in todo:
            if first not in left:
                continue
            if limit is not None and len(paths) >= limit:
                break
            path = self.path_to(first[0]) + [first]
            calls = sum(1 for e in path if e[2] == 'C')
            left.difference_update(path)
            x = first[1]
            while calls <= maxcalls:
                outs = self.succ.get(x)
                if not outs:
                    break
                fresh = [e for e in outs if e in left]
                if not fresh:
                    # look a little further for something new
                    e = self.look(x, left, 6)
                    if e is None:
                        break
                else:
                    e = r.choice(fresh)
                path.append(e)
                left.discard(e)
                x = e[1]
                if e[2] == 'C':
                    calls += 1
            home = self.path_home(x)
            path += home
            left.difference_update(home)
            paths.append(path)
        return paths, len(todo) - len(left), len(todo)

    def look(self, x, left, depth):
        seen = {x}
        q = deque([(x, None, 0)])
        while q:
            y, first, d = q.popleft()
            for e in self.succ.get(y, []):
                if e in left:
                    return first or e
                if d < depth and e[1] not in seen:
                    seen.add(e[1])
                    q.append((e[1], first or e, d + 1))
        return None

    def walks(self, r, n, calls):
        paths = []
        for _ in range(n):
            x, path, k = self.init, [], 0
            want = r.randint(2, calls)
            while True:
                outs = self.succ.get(x)
                if not outs:
                    break
                # faults and failures end or disturb a session: take them less often
                cand = [e for e in outs if not (e[2] == 'A' and e[3] not in ('SUCC', 'REC', 'IGN'))]
                if not cand or r.random() < 0.2:
                    cand = outs
                # prefer calls that are not ends of a session
                c2 = [e for e in cand if not (e[2] == 'C' and e[3] == 'close')]
                if c2 and r.random() < 0.9:
                    cand = c2
                e = r.choice(cand)
                if e[2] == 'C':
                    if k >= want:
                        break
                    k += 1
                path.append(e)
                x = e[1]
            paths.append(path + self.path_home(x))
        return paths


# sets of kinds of message that carry nothing (see harness/shape.go)
BARE = [1, 2, 4, 8, 16, 32, 1 | 4 | 16, 2 | 16, 4 | 16, 8 | 32, 2 | 8 | 16, 1 | 32]


def scenario(i, path, pooled, r):
    steps, script = [], []
    gone, big = '', False
    for e in path:
        if e[2] == 'G':
            gone = e[3]
        elif e[2] == 'C':
            st = {'op': e[3], 'n': max(1, e[4]), 'stall': False}
            if gone:
                st['gone'] = gone
                if gone == 'GDEAF' and r.random() < 0.4:
                    st['big'] = big = True
                gone = ''
            steps.append(st)
        elif e[2] == 'A':
            script.append(e[3])
            if e[3] in ('STALL', 'STALLMID', 'ODDI', 'ODDR'):
                steps[-1]['stall'] = True
    # calls that leave off part-way would make it impossible to tell their queries apart
    like = (r.random() < 0.25 and not any(a not in ('SUCC', 'REC', 'FAIL', 'IGN') for a in script) and
            not any('gone' in s or s['op'].endswith('pipebad') for s in steps))
    return {'id': i, 'pooled': pooled, 'frag': r.choice([0, 0, 1, 2]),
            'chunk': 0 if big else r.choice([0, 0, 16, 20, 33, 64, 1000]),
            'tls': r.random() < 0.15, 'like': like, 'seed': r.getrandbits(40), 'bare': r.choice(BARE) if r.random() < 0.2 else 0, 'steps': steps, 'script': script}


def execute(binary, scs, workers=48, normal='10s', stall='300ms', slack='8s', extra=(), race_log=None):
    d = scratch('session')
    tag = '%d' % os.urandom(4).__hash__()
    i, o = os.path.join(d, 'in' + tag), os.path.join(d, 'out' + tag)
    json.dump(scs, open(i, 'w'))
    p = subprocess.run([binary, 'session', '-in', i, '-out', o, '-workers', str(workers), '-normal', normal, '-stall', stall,
                        '-slack', slack] + list(extra), capture_output=True, text=True, timeout=800,
                       env=race_env(race_log))
    if p.returncode == 3 or not os.path.exists(o):
        if p.returncode == 3:
            raise MachineryError('harness: ' + p.stderr[-2000:])
        return None, p.stderr[-3000:]
    t = json.load(open(o))
    os.unlink(i)
    os.unlink(o)
    return t, p.stderr[-3000:]


TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'


def validate(traces, pooled):
    """check recorded traces against BoltSession; returns rejected {index: position}, states"""
    if not traces:
        return {}, 0
    d = scratch('session')
    nb = max(1, min(CORES, (len(traces) + 39) // 40))
    parts = [list(range(k, len(traces), nb)) for k in range(nb)]
    consts = dict(Ops=set(), MaxRec=0, PipeLens=set(), FailAt=set(), FaultKinds=set(), FaultAt=set(), Pooled=pooled,
                  Gen=False, Defects=set())

    def one(k):
        f = os.path.join(d, 'traces-%d-%d.json' % (k, pooled))
        json.dump([traces[i] for i in parts[k]], open(f, 'w'))
        r = tlc('SessionTrace', TRACE_CFG, consts, env={'TRACES': f}, workers=1, heap='2g', name='SessionTrace')
        os.unlink(f)
        if not r.ok and 'REJECTED' not in r.out:
            raise MachineryError('trace validation failed:\n' + r.out[-3000:])
        bad = {parts[k][int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)}
        return bad, r.distinct
    out = parallel(one, range(nb))
    bad = {}
    for b, _ in out:
        bad.update(b)
    # a call the scenario wanted but that makes no sense after what the driver
    # did (both being allowed) ends the trace early
    bad = {i: p for i, p in bad.items() if not (p >= 1 and p <= len(traces[i]) and traces[i][p - 1]['e'] == 'call')}
    return bad, sum(n for _, n in out)


def describe(sc, tr, pos):
    """the event the specification does not allow"""
    ev = tr[pos - 1] if 0 < pos <= len(tr) else (tr[-1] if tr else {})
    op = next((e['op'] for e in reversed(tr[:max(0, pos)]) if e['e'] == 'call'), '-')
    return 'during call %s of %s: %s is not allowed by the specification' % (
        op, [s['op'] for s in sc['steps']], json.dumps(ev))


def check_scenarios(chk, binary, scs, extra=()):
    """run scenarios, validate their traces, confirm rejections by running again"""
    trs, err = execute(binary, scs, extra=extra)
    if trs is None:
        # the driver brought the process down: find a scenario that does so
        return crash(chk, binary, scs, err, extra)
    states = 0
    bad = {}
    done = [i for i in range(len(scs)) if trs[i] is not None]
    if len(done) < len(scs):
        log('%d scenarios left out after too many that waited in vain' % (len(scs) - len(done)))
        chk.count('scenarios_left_out', len(scs) - len(done))
        scs, trs = [scs[i] for i in done], [trs[i] for i in done]
    for pooled in (False, True):
        idx = [i for i, s in enumerate(scs) if s['pooled'] == pooled]
        b, n = validate([trs[i] for i in idx], pooled)
        states += n
        bad.update({idx[i]: p for i, p in b.items()})
    chk.count('traces_validated_against_impl', len(scs) - len(bad))
    chk.count('trace_states', states)
    chk.count('trace_events', sum(len(t) for t in trs))
    if len(chk.samples) < 3 and scs:
        chk.samples.append({'scenario': scs[0], 'trace': trs[0][:30]})
    if not bad:
        return
    order = sorted(bad, key=lambda i: (len(scs[i]['steps']), i))
    log('%d of %d traces rejected; confirming' % (len(bad), len(scs)))
    for i in order[:3]:
        log('   ' + describe(scs[i], trs[i], bad[i]))
    with open(os.path.join(BUILD, 'rejected.json'), 'w') as f:
        json.dump([{'scenario': scs[i], 'trace': trs[i], 'pos': bad[i]} for i in order[:20]], f)
    confirm = order[:8] + sorted(order[8:], key=lambda i: any(e.get('slow') for e in trs[i]))[:8]
    again = [scs[i] for i in confirm]
    for attempt in range(2):
        if not again:
            break
        t2, err = execute(binary, again, workers=8, normal='20s', stall='600ms', slack='15s', extra=extra)
        if t2 is None:
            return crash(chk, binary, again, err, extra)
        still = []
        again, t2 = [s for s, t in zip(again, t2) if t is not None], [t for t in t2 if t is not None]
        for pooled in (False, True):
            idx = [i for i, s in enumerate(again) if s['pooled'] == pooled]
            b, _ = validate([t2[i] for i in idx], pooled)
            for i, p in b.items():
                still.append((again[idx[i]], t2[idx[i]], p))
        again = [s for s, _, _ in still]
    chk.count('unconfirmed_rejections', len(confirm) - len(again))
    for s, t, p in sorted(still, key=lambda x: len(x[0]['steps']))[:3]:
        chk.violation(describe(s, t, p), {'kind': 'session', 'scenario': s, 'trace': t, 'rejected_at': p})


def crash(chk, binary, scs, err, extra=()):
    for rnd in range(3):
        lo = scs
        while len(lo) > 1:
            a, b = lo[:len(lo) // 2], lo[len(lo) // 2:]
            ta, _ = execute(binary, a, extra=extra)
            if ta is None:
                lo = a
                continue
            tb, _ = execute(binary, b, extra=extra)
            if tb is None:
                lo = b
                continue
            break
        t, e = execute(binary, lo, extra=extra)
        if t is None:
            chk.violation('the process crashed: ' + e[-400:], {'kind': 'session', 'scenarios': lo[:20], 'stderr': e})
            return
    raise MachineryError('harness crashed and cannot be made to crash again: ' + err)


# what the driver logs must not make a difference
# (not with messages of megabytes, which take their time to be logged)
LOGGED = {'pipe', 'tx', 'odd', 'fail', 'cut', 'query'}


def run_config(chk, binary, name, consts, cover=None, walks=0, calls=8, walkcalls=14):
    g = Graph(consts, chk.prop + '-' + name)
    r = rng(chk.prop, name)
    chk.count('states', g.res.distinct)
    chk.count('transitions', g.nedges)
    paths, got, total = g.cover(r, calls, cover)
    chk.count('transitions_replayed', got)
    log('%s/%s: %d states, %d transitions, %d paths cover %d' % (chk.prop, name, g.res.distinct, total, len(paths), got))
    paths += g.walks(r, walks, walkcalls)
    scs = [scenario(i, p, consts['Pooled'], r) for i, p in enumerate(paths)]
    chk.count('scenarios', len(scs))
    logged = name in LOGGED and not any(st.get('big') for s in scs for st in s['steps'])
    check_scenarios(chk, binary, scs, ('-log', 'trace') if logged else ())


def simulate(chk, consts, name, num, maxcalls, r):
    """long behaviours from TLC's simulator, as paths"""
    def one(k):
        res = tlc('BoltSessionSim', 'SPECIFICATION SimSpec\nINVARIANT Over\n' + INV, dict(consts, MaxCalls=maxcalls), workers=1,
                  heap='2g', name=chk.prop + '-sim', args=['-simulate', 'num=%d' % per, '-depth', '100000', '-seed', str(seeds[k])])
        if 'rror' in res.out:
            raise MachineryError('BoltSession does not satisfy its own properties (%s):\n%s' % (name, res.out[-3000:]))
        m = re.search(r'states generated: (\d+)', res.out)
        lines = []
        for line in res.out.splitlines():
            if line.startswith('"B ') and line not in lines[-3:]:
                lines.append(line)
        return lines, int(m.group(1)) if m else 0
    parts = 4
    per = (num + parts - 1) // parts
    seeds = [r.getrandbits(31) for _ in range(parts)]
    paths, states = [], 0
    for lines, n in parallel(one, range(parts)):
        states += n
        for line in lines:
            path = []
            for x in line.strip().strip('"')[3:].split(','):
                if x:
                    k, op, n = x.split(' ')
                    path.append((None, None, k, op, int(n)))
            paths.append(path)
    chk.count('simulated_states', states)
    return paths


HUGE = [129, 257, 520, 1030, 2050]


def enlarge(paths, r, n):
    """copies of paths in which one result has very many records: the server may always send
    more. The call they arrive in (or the one that leaves them to be read) is a different one
    each time"""
    where = {}
    for path in paths:
        op, ops = None, []
        for j, e in enumerate(path):
            if e[2] == 'C':
                op = e[3]
                ops.append(op)
            elif e[2] == 'A' and e[3] == 'REC' and path[j - 1][2:4] != e[2:4]:
                where.setdefault(op, []).append((path, j))
    out = []
    ops = sorted(where)
    r.shuffle(ops)
    for k in range(n if ops else 0):
        path, j = r.choice(where[ops[k % len(ops)]])
        # a few calls before it and what comes after
        out.append(path[:j] + [path[j]] * r.choice(HUGE[:3] if k % 3 else HUGE) + path[j:][:80])
    return out


def run_sim(chk, binary, name, consts, num, maxcalls, huge=12):
    r = rng(chk.prop, name)
    paths = simulate(chk, consts, name, num, maxcalls, r)
    more = enlarge(paths, r, huge)
    chk.count('huge_results', len(more))
    paths += more
    log('%s/%s: %d simulated behaviours' % (chk.prop, name, len(paths)))
    scs = [scenario(i, p, consts['Pooled'], r) for i, p in enumerate(paths)]
    chk.count('scenarios', len(scs))
    check_scenarios(chk, binary, scs)
