"""Opening connections, waiting: C18, C19, C20, C23, judged by OpenTrace.tla."""
import json
import os
import re
import socket
import subprocess
from urllib.parse import quote

from . import common
from .common import MachineryError, log, rng, scratch, tlc

TRACE_CFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'
NO = {'has': False, 'v': '-'}


def opt(v):
    return {'has': True, 'v': v}


def conn(**k):
    c = dict(broken=False, scheme='bolt', cred='none', user='-', **{'pass': '-'}, timeout={'has': False, 'v': []},
             tls=NO, noverify=NO, ca='none', cert='none')
    c.update(k)
    return c


def plan(**k):
    p = dict(tcp='ok', srv='plain', hs='ok', cert=dict(by='ca1', host='ok', when='now', use='server'), ask=False, ver='good', init='ok')
    p.update(k)
    return p


def hexed(s):
    return s.encode('utf-8').hex()


FILES = {'ok': ('client.pem', 'client.key'), 'missing': ('nowhere.pem', 'client.key'), 'garbage': ('garbage.pem', 'client.key'),
         'nokey': ('client.pem', None), 'wrongkey': ('client.pem', 'other.key')}


def scen(c, p, r, user=None, password=None, host='127.0.0.1', listen=None, entry=None, uses=(), delay=0, extra=(), path=''):
    """render the parts as a connection string"""
    c = dict(c)
    auth = ''
    if c['cred'] != 'none':
        c['user'] = hexed(user)
        auth = enc(user, r)
        if c['cred'] == 'full':
            c['pass'] = hexed(password)
            auth += ':' + enc(password, r)
        auth += '@'
    q = []
    if c['timeout']['has']:
        q.append(('timeout', ''.join(c['timeout']['v'])))
    if c['tls']['has']:
        q.append(('tls', c['tls']['v']))
    if c['noverify']['has']:
        q.append(('tls_no_verify', c['noverify']['v']))
    if c['ca'] != 'none':
        q.append(('tls_ca_cert_file', {'ca1': 'DIR/ca1.pem', 'ca3': 'DIR/ca3.pem', 'missing': 'DIR/nowhere.pem', 'garbage': 'DIR/garbage.pem'}[c['ca']]))
    if c['cert'] != 'none':
        a, b = FILES[c['cert']]
        q.append(('tls_cert_file', 'DIR/' + a))
        if b:
            q.append(('tls_key_file', 'DIR/' + b))
    q += list(extra)
    r.shuffle(q)
    where = 'ADDR' if host in ('127.0.0.1', '127.0.0.2') else ('[::1]:PORT' if host == '::1' else host + ':PORT')
    url = c['scheme'] + '://' + auth + where + path
    if q:
        url += '?' + '&'.join(k + '=' + quote(v, safe='') for k, v in q).replace('DIR', 'DIR')
    if c['broken']:
        url = r.choice(['bolt://%zz@' + where, 'bolt://127.0.0.1:port', '://' + where, 'bolt://[::1', 'bolt://a b@' + where + '\x7f', 'bolt://u:p%@' + where])
    secs = 60
    if c['timeout']['has']:
        try:
            secs = int(''.join(c['timeout']['v']))
        except ValueError:
            secs = 1
    return {'c': c, 'p': p, 'url': url, 'listen': listen or ('127.0.0.1' if host == 'localhost' else host), 'host': host, 'entry': entry or r.choice(['neo', 'sql', 'pool']),
            'delay': delay, 'tmo': min(secs, 10 ** 6) * 1000, 'uses': list(uses), 'seed': r.getrandbits(40)}


def enc(s, r):
    """percent-encode what has to be, and sometimes more"""
    out = ''
    for ch in s:
        plain = ch.isascii() and (ch.isalnum() or ch in "-_.~!$&'()*+,;=")
        out += ch if plain and r.random() < 0.9 else ''.join('%%%02X' % b for b in ch.encode('utf-8'))
    return out


def chars(s):
    return {'has': True, 'v': list(s)}


T1, T2, T3 = chars('1'), chars('2'), chars('3')
VERS = ['good', 'bytes', 'none', 'other', 'close', 'short']
INITS = ['ok', 'bytes', 'fail', 'ignored', 'record', 'junk', 'close', 'short']
CERTS = [dict(by=b, host=h, when=w, use=u) for b, h, w, u in
         [('ca1', 'ok', 'now', 'server'), ('ca2', 'ok', 'now', 'server'), ('ca3', 'ok', 'now', 'server'), ('self', 'ok', 'now', 'server'),
          ('ca1', 'other', 'now', 'server'), ('ca1', 'ok', 'past', 'server'), ('ca1', 'ok', 'future', 'server'), ('ca1', 'ok', 'now', 'client'),
          ('ca2', 'other', 'now', 'server'), ('self', 'other', 'past', 'server'),
          ('ca1', 'only', 'now', 'server'), ('ca2', 'only', 'now', 'server'), ('ca1', 'else', 'now', 'server'), ('ca2', 'else', 'now', 'server'),
          ('inter', 'ok', 'now', 'server'), ('lone', 'ok', 'now', 'server')]]
SECURE = dict(tls=opt('true'), ca='ca1', timeout=T3)


def c18(r, n):
    out = []
    for rep in range(n):
        for entry in ('neo', 'sql', 'pool'):
            for sec in (False, True):
                c = conn(**SECURE) if sec else conn(timeout=T3)
                srv = 'tls' if sec else 'plain'
                if rep % 2:
                    c['cred'] = 'full'
                k = dict(user='neo4j', password='secret', entry=entry)
                for v in VERS:
                    for _ in range(3 if v in ('other', 'short') else 1):
                        out.append(scen(c, plan(srv=srv, ver=v), r, **k))
                for i in INITS:
                    for _ in range(4 if i in ('junk', 'short') else 1):
                        out.append(scen(c, plan(srv=srv, init=i, ver=r.choice(['good', 'bytes'])), r, **k))
                c1 = dict(c, timeout=T1)
                for v in ('stall', 'partstall'):
                    out.append(scen(c1, plan(srv=srv, ver=v), r, **k))
                    out.append(scen(c1, plan(srv=srv, init=v), r, **k))
                out.append(scen(c, plan(srv=srv, ver='slow'), r, delay=700, **k))
                out.append(scen(c, plan(srv=srv, init='slow'), r, delay=700, **k))
                out.append(scen(c, plan(tcp='refuse'), r, **k))
                out.append(scen(c, plan(srv='deaf'), r, **k))
    return out


WORDS = ['a', 'neo4j', 'Neo4J', 'user name', 'a:b', 'a@b', 'a/b', 'ü', '日本', 'a%41', 'a+b', "x'y", '?', '#', '&=;', '{}', 'x' * 200, '0', 'none', 'basic', '~!$*()', '\t', 'p\x00q']
BADTIMES = ['x', '5s', '1.5', '1e3', '0x10', '--1', '+', '-', '1 ', ' 1', '1_0', 'five', '٣', '1,0', 'true', '9.', '1\n',
            '9223372037', '0018446744074', '+99999999999', '-9223372038', '123456789012345678901234567890']
GOODTIMES = ['3', '03', '+4', '007', '12', '100', '08', '010', '+09', '0012', '86400', '1000000']
TRUES = ['1', 't', 'T', 'true', 'True', 'TRUE']
FALSES = ['0', 'false', 'False', 'FALSE', 'f', 'F', 'no', 'off', '']
SCHEMES = ['http', 'https', 'neo4j', 'bolts', 'tcp', 'file', 'bolt+tls', 'bol', 'bolt4']


def hosts():
    out = ['127.0.0.1', '127.0.0.2']
    try:
        if socket.gethostbyname('localhost') == '127.0.0.1':
            out.append('localhost')
    except OSError:
        pass
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(('::1', 0))
        s.close()
        out.append('::1')
    except OSError:
        pass
    return out


def c19(r, n):
    out = []
    hs = hosts()
    ok = conn(timeout=T3)

    def add(c, p=None, **k):
        k.setdefault('user', r.choice(WORDS))
        k.setdefault('password', r.choice(WORDS))
        k.setdefault('host', r.choice(hs))
        out.append(scen(c, p or plan(), r, **k))
    for rep in range(n):
        for w in WORDS:
            add(dict(ok, cred='full'), user=w)
            add(dict(ok, cred='full'), password=w)
            add(dict(ok, cred='nopass'), user=w)
        add(dict(ok, cred='full'), password='')
        for t in GOODTIMES:
            add(conn(timeout=chars(t), cred=r.choice(['none', 'full'])))
        for t in BADTIMES:
            add(conn(timeout=chars(t), cred=r.choice(['none', 'full'])))
        add(conn(cred='full'))
        add(conn())
        for s in SCHEMES:
            add(dict(ok, scheme=s, cred=r.choice(['none', 'full'])))
        for s in ('BOLT', 'Bolt', 'bOlT'):
            add(dict(ok, scheme=s))
        for h in hs:
            for path in ('', '/', '/db/data'):
                add(dict(ok, cred=r.choice(['none', 'full'])), host=h, path=path, extra=r.choice([(), (('x', '1'),), (('Timeout', 'x'),), (('user', 'other'),)]))
        for _ in range(6):
            add(conn(broken=True))
        for v in ('1', 't', 'T', 'true', 'True', 'TRUE'):
            add(dict(ok, tls=opt(v), ca='ca1'), plan(srv='tls'), host=r.choice(['127.0.0.1', 'localhost'] if 'localhost' in hs else ['127.0.0.1']))
            add(dict(ok, tls=opt('true'), noverify=opt(v), ca='ca3'), plan(srv='tls'), host='127.0.0.1')
            add(dict(ok, tls=opt(v), ca='ca1'), plan(srv='plain', hs=r.choice(['close', 'garbage'])))
        for v in ('0', 'false', 'False', 'f', 'no', 'off', ''):
            add(dict(ok, tls=opt(v), ca=r.choice(['none', 'ca1', 'missing']), cert=r.choice(['none', 'ok', 'nokey'])))
            add(dict(ok, tls=opt('true'), noverify=opt(v), ca='ca3'), plan(srv='tls'), host='127.0.0.1')
        for _ in range(90):
            # anything together
            c = conn(scheme=r.choice(['bolt', 'bolt', 'BOLT', 'Bolt', 'bOlT'] + [r.choice(SCHEMES)]), cred=r.choice(['none', 'full', 'full', 'full', 'nopass']),
                     timeout=chars(r.choice(GOODTIMES) if r.random() < 0.85 else r.choice(BADTIMES)))
            p = plan()
            if r.random() < 0.4:
                c['tls'] = opt(r.choice(TRUES + FALSES))
                if c['tls']['v'] in TRUES:
                    c['ca'] = 'ca1'
                    p = plan(srv='tls', ask=r.random() < 0.3)
                if r.random() < 0.5:
                    c['noverify'] = opt(r.choice(TRUES + FALSES))
                if r.random() < 0.5:
                    c['cert'] = r.choice(['ok', 'ok', 'nokey', 'missing'])
            add(c, p, host=r.choice([h for h in hs if h != '::1']), path=r.choice(['', '/']),
                extra=r.choice([(), (), (('x', r.choice(WORDS)),), (('Timeout', 'x'),), (('TLS', '1'),), (('user', 'other'), ('password', 'x'))]))
        # the timeout asked for is the one that applies
        for secs in ('1', '+1', '01', '2'):
            stall = r.choice([dict(ver='stall'), dict(init='stall'), dict(ver='partstall'), dict(init='partstall')])
            add(conn(timeout=chars(secs), cred='full'), plan(**stall))
        add(conn(timeout=chars('4')), plan(ver='slow', init='slow'), delay=2200)
        add(conn(), plan(ver='slow', init='slow'), delay=2200)
        add(conn(timeout=chars('1'), tls=opt('0')), plan(init='stall'))
    return out


def c20(r, n):
    out = []
    for rep in range(n):
        for cert in CERTS:
            for ca in ('none', 'ca1', 'ca3', 'garbage', 'missing'):
                for nv in (NO, opt(r.choice(TRUES)), opt(r.choice(FALSES))):
                    c = conn(tls=opt(r.choice(['1', 'true', 'T'])), ca=ca, noverify=nv, timeout=T3, cred=r.choice(['none', 'full']))
                    c['cert'] = r.choice(['none', 'none', 'ok'])
                    host = r.choice(['127.0.0.1', '127.0.0.2', 'localhost'])
                    out.append(scen(c, plan(srv='tls', cert=cert, ask=r.random() < 0.5), r, user='u', password='p', host=host))
        for cc in ('none', 'ok', 'missing', 'garbage', 'nokey', 'wrongkey'):
            for ask in (False, True):
                for nv in (NO, opt('1'), opt(r.choice(FALSES))):
                    for ca in ('ca1', 'none'):
                        out.append(scen(conn(tls=opt('true'), ca=ca, cert=cc, noverify=nv, timeout=T3), plan(srv='tls', ask=ask), r))
        for hs in ('close', 'garbage'):
            for srv in ('plain', 'tls'):
                for nv in (NO, opt('1')):
                    for cred in ('none', 'full'):
                        out.append(scen(conn(tls=opt('true'), noverify=nv, timeout=T3, cred=cred), plan(srv=srv, hs=hs), r, user='u', password='p'))
        out.append(scen(conn(tls=opt('true'), timeout=T1, cred='full'), plan(srv='plain', hs='stall'), r, user='u', password='p'))
        # TLS not asked for: none is used
        out.append(scen(conn(timeout=T3), plan(srv='tls'), r))
        out.append(scen(conn(timeout=T3, tls=opt('false'), noverify=opt('1'), ca='ca1', cert='ok'), plan(), r))
        for i in INITS:
            out.append(scen(conn(cred='full', **SECURE), plan(srv='tls', init=i), r, user='u', password='p', uses=[dict(op='exec', k='ok', tmo=0)] if i == 'ok' else ()))
    return out


OPS = ['exec', 'query', 'rows', 'pipe', 'qpipe', 'stmt', 'begin']


def c23(r, n):
    out = []

    def secure(x, c):
        return dict(c, tls=opt('true'), ca='ca1') if x else c
    for rep in range(n):
        for entry in ('neo', 'sql', 'pool'):
            for sec in (False, True):
                srv = 'tls' if sec else 'plain'
                for t in (T1, T2):
                    c = secure(sec, conn(timeout=t))
                    out.append(scen(c, plan(tcp='stall'), r, entry=entry))
                    out.append(scen(c, plan(srv=srv, ver='stall'), r, entry=entry))
                    out.append(scen(c, plan(srv=srv, ver='partstall'), r, entry=entry))
                    out.append(scen(c, plan(srv=srv, init='stall'), r, entry=entry))
                    out.append(scen(c, plan(srv=srv, init='partstall'), r, entry=entry))
                    if sec:
                        out.append(scen(c, plan(srv=r.choice(['plain', 'tls']), hs='stall'), r, entry=entry))
                for op in OPS:
                    for k in ('stall', 'partstall', 'noread'):
                        if k == 'noread' and op == 'begin':
                            continue
                        # with the timeout of the connection string
                        out.append(scen(secure(sec, conn(timeout=T1)), plan(srv=srv), r, entry=entry,
                                        uses=[dict(op=r.choice(OPS[:6]), k='ok', tmo=0), dict(op=op, k=k, tmo=0), dict(op=r.choice(OPS[:6]), k='ok', tmo=0)]))
                        # with one set later
                        out.append(scen(secure(sec, conn(timeout=r.choice([T3, chars('20')]))), plan(srv=srv), r, entry=entry,
                                        uses=[dict(op=r.choice(OPS[:6]), k=r.choice(['ok', 'bytes']), tmo=0), dict(op=op, k=k, tmo=r.choice([300, 500, 1000]))]))
                # what is slow but in time is waited for, again and again
                out.append(scen(secure(sec, conn(timeout=T3)), plan(srv=srv, ver='slow', init='slow'), r, entry=entry, delay=1300,
                                uses=[dict(op=r.choice(OPS[:6]), k='slow', tmo=0)]))
                out.append(scen(secure(sec, conn(timeout=T1)), plan(srv=srv), r, entry=entry, delay=1500,
                                uses=[dict(op=r.choice(OPS[:6]), k='slow', tmo=3500), dict(op=r.choice(OPS[:6]), k='ok', tmo=700), dict(op=r.choice(OPS[:6]), k='stall', tmo=0)]))
                # however long the waits before it were
                for _ in range(2):
                    t = r.choice([2, 3])
                    us = [dict(op=r.choice(OPS[:6]), k='slow', tmo=0, delay=int(1000 * t * r.choice([0.1, 0.35, 0.6, 0.8]))) for _ in range(r.randint(2, 4))]
                    if r.random() < 0.5:
                        us.append(dict(op=r.choice(OPS[:6]), k=r.choice(['stall', 'partstall']), tmo=0))
                    out.append(scen(secure(sec, conn(timeout=chars(str(t)))), plan(srv=srv), r, entry=entry, uses=us))
                # what one user of a pooled connection sets is not there for the next
                if entry == 'pool':
                    again = dict(op='again', k='ok', tmo=0)
                    ok = lambda: dict(op=r.choice(OPS[:6]), k='ok', tmo=0)
                    out.append(scen(secure(sec, conn(timeout=T3)), plan(srv=srv), r, entry=entry, delay=1300,
                                    uses=[dict(ok(), tmo=r.choice([300, 600])), again, dict(ok(), k='slow')]))
                    out.append(scen(secure(sec, conn(timeout=T1)), plan(srv=srv), r, entry=entry,
                                    uses=[dict(ok(), tmo=20000), again, ok(), again, dict(ok(), k=r.choice(['stall', 'partstall', 'noread']))]))
                # a timeout set within a transaction is one
                out.append(scen(secure(sec, conn(timeout=chars('30'))), plan(srv=srv), r, entry=entry,
                                uses=[dict(op='begin', k='ok', tmo=0), dict(op=r.choice(OPS[:6] + ['commit', 'rollback']), k='stall', tmo=500)]))
                for end in ('commit', 'rollback'):
                    out.append(scen(secure(sec, conn(timeout=T1)), plan(srv=srv), r, entry=entry,
                                    uses=[dict(op='begin', k='ok', tmo=0), dict(op=end, k=r.choice(['stall', 'partstall']), tmo=r.choice([0, 400]))]))
                    out.append(scen(secure(sec, conn(timeout=T3)), plan(srv=srv), r, entry=entry, delay=1200,
                                    uses=[dict(op='begin', k='slow', tmo=0), dict(op=end, k='slow', tmo=0)]))
    return out


GEN = {'C18': c18, 'C19': c19, 'C20': c20, 'C23': c23}


def execute(binary, scs, workers, slack):
    d = scratch('open')
    os.makedirs(os.path.join(d, 'pki'), exist_ok=True)
    i, o = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    json.dump(scs, open(i, 'w'))
    try:
        p = subprocess.run([binary, 'open', '-in', i, '-out', o, '-dir', os.path.join(d, 'pki'), '-workers', str(workers), '-slack', '%dms' % slack],
                           capture_output=True, text=True, timeout=850, env=common.go_env())
    except subprocess.TimeoutExpired:
        raise MachineryError('harness took too long')
    if p.returncode == 3:
        raise MachineryError('harness: ' + p.stderr[-2000:])
    if p.returncode:
        return None, p.stderr[-4000:]
    evs = json.load(open(o))
    for e in evs:
        if e and e[0]['e'] == 'harness':
            raise MachineryError('harness: ' + e[0]['what'])
    return [{'c': s['c'], 'p': s['p'], 'slack': slack, 'events': e} for s, e in zip(scs, evs)], ''


CONSTS = dict(Inputs=set(), Plans=set(), UseKinds=set(), MaxUses=0, Defects=set())


def validate(traces):
    d = scratch('open')
    nb = max(1, min(common.CORES, (len(traces) + 39) // 40))
    jobs = [(list(range(len(traces)))[k::nb], k) for k in range(nb)]

    def one(job):
        idx, k = job
        f = os.path.join(d, 'traces-%d.json' % k)
        json.dump([traces[i] for i in idx], open(f, 'w'))
        r = tlc('OpenTrace', TRACE_CFG, CONSTS, env={'TRACES': f}, workers=1, heap='2g', name='OpenTrace')
        os.unlink(f)
        if not r.ok and 'REJECTED' not in r.out:
            raise MachineryError('trace validation failed:\n' + r.out[-3000:])
        return {idx[int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)}, r.distinct
    bad, states = {}, 0
    for b, n in common.parallel(one, jobs):
        bad.update(b)
        states += n
    return bad, states


def describe(sc, t, pos):
    ev = t['events'][pos - 1] if 0 < pos <= len(t['events']) else {}
    return 'opening %r (%s), peer %s, calls %s: %s is not allowed by the specification after %s' % (
        sc['url'], sc['entry'], {k: v for k, v in sc['p'].items() if k != 'cert'}, [(u['op'], u['k']) for u in sc['uses']], json.dumps(ev),
        json.dumps([e['e'] for e in t['events'][:pos - 1]]))


def design(chk):
    r = tlc('BoltOpenMC', open(os.path.join(common.SPEC, 'BoltOpenMC.cfg')).read(), workers=common.CORES, heap='4g')
    if not r.ok:
        raise MachineryError('BoltOpenMC: ' + r.out[-2000:])
    chk.count('states', r.distinct)
    chk.count('transitions', r.generated)


def check(chk, binary):
    prop = chk.prop
    quick = common.TIER != 'thorough'
    design(chk)
    r = rng(prop, 'open')
    scs = GEN[prop](r, {'C18': 4, 'C19': 3, 'C20': 2, 'C23': 2}[prop] if quick else {'C18': 60, 'C19': 50, 'C20': 40, 'C23': 20}[prop])
    r.shuffle(scs)
    chk.count('scenarios', len(scs))
    workers = 40 if prop == 'C23' else 32
    trs, err = execute(binary, scs, workers, 5000)
    if trs is None:
        return crash(chk, binary, scs, err)
    bad, states = validate(trs)
    chk.count('trace_states', states)
    chk.count('trace_events', sum(len(t['events']) for t in trs))
    chk.count('traces_validated_against_impl', len(scs) - len(bad))
    chk.samples += [{'scenario': scs[i], 'trace': trs[i]['events'][:30]} for i in range(2)]
    chk.assumptions += ['rendering the parts of a connection string as text is trusted', 'times are checked with 5 s of slack, early giving up with 30 ms']
    if not bad:
        return
    order = sorted(bad, key=lambda i: len(trs[i]['events']))
    log('%d of %d traces rejected; confirming' % (len(bad), len(scs)))
    for i in order[:3]:
        log('   ' + describe(scs[i], trs[i], bad[i]))
    again = [scs[i] for i in order[:24]]
    still = []
    for attempt in range(2):
        if not again:
            break
        t2, err = execute(binary, again, 6, 10000)
        if t2 is None:
            return crash(chk, binary, again, err)
        b, _ = validate(t2)
        still = [(again[i], t2[i], p) for i, p in sorted(b.items())]
        again = [s for s, _, _ in still]
    chk.count('unconfirmed_rejections', min(24, len(order)) - len(still))
    for s, t, p in sorted(still, key=lambda x: len(x[1]['events']))[:3]:
        chk.violation(describe(s, t, p), {'kind': 'open', 'scenario': s, 'trace': t, 'rejected_at': p})


def crash(chk, binary, scs, err):
    for _ in range(2):
        t, e = execute(binary, scs, 8, 5000)
        if t is None:
            chk.violation('the process crashed: ' + e[-400:], {'kind': 'open', 'scenarios': scs[:20], 'stderr': e})
            return
    raise MachineryError('harness crashed and cannot be made to crash again: ' + err)
