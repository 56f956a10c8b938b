#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'model_checking'
SESSION = ('TLA+ model BoltSession checked by TLC; its transition graph is replayed on the real driver against a scripted server and '
           'every recorded execution is validated against the model by TLC')
SNOTE = ('Design invariants hold in every state of the bounded model; the implementation is checked on a transition cover of that model plus '
         'seeded random walks, every API result and wire message compared. Trusts: TLC, the harness server/codec, loopback TCP; bounds on '
         'records, pipeline length and queries per run as in vlib/session_configs.py; some configurations run over TLS, with driver logging on, or with '
         'messages of several chunks.')
CLAIMS = {p: (SESSION, MC, SNOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')}
CODEC = ('PackStream TLA+ specification (encoder, decoder, framing) checked by TLC; values, byte strings and streams run through the real '
         'encoder/decoder/connection and every recorded outcome is judged by TLC against the specification')
CNOTE = ('The specification\'s own laws (round trip, shortest form, totality, framing inverse) are checked exhaustively over a small universe; '
         'the code is judged on boundaries of every size class, exhaustive short byte strings, seeded random values, truncations and corruptions, '
         'fragmentations, damaged and truncated raw streams, and live connections (queries, pipelines, transactions, failures). Trusts: TLC, the harness recorder; float bit patterns compared as 64-bit integers.')
CLAIMS.update({p: (CODEC, MC, CNOTE) for p in ('C13', 'C14', 'C15', 'C16', 'C17')})
POOL = ('BoltPool TLA+ model (users, slots, handles, physical connections, pool close) checked by TLC for safety and liveness; executions of the '
        'real pool, scripted and concurrent, with every call, return and server event recorded, are validated against it by TLC, which '
        'searches for the hidden steps')
PNOTE = ('The design is checked in every state of a bounded model (1 slot, 2 users, 2 handles, 2 physical connections). The code is checked on '
         'seeded scripted interleavings (faults, connections lost while idle, unreachable server, refused initialization, pool close) and free-running '
         'stress, with up to 9 slots; '
         'a hang is a call that has not returned after a grace period. Trusts: TLC, the harness server, loopback TCP.')
CLAIMS.update({p: (POOL, MC, PNOTE) for p in ('C09', 'C10', 'C11', 'C12')})
CLAIMS['C24'] = (POOL + '; the race detector watches those executions and concurrent sessions of one driver', MC, PNOTE)
OPEN = ('BoltOpen TLA+ model (connection string, TCP, TLS, handshake, initialization, calls that wait) checked by TLC for safety and liveness; '
        'openings and calls of the real driver against plain, TLS, silent and misbehaving peers are recorded with times and validated '
        'against it by TLC')
ONOTE = ('The design is checked for every combination of a set of connection strings and peers. The code is checked on seeded combinations of '
         'connection strings x peers (silent, slow to write, slow to read, refusing, ill-behaved) x calls, through all three ways of opening; what is sent, certificates, results and durations compared. '
         'Trusts: TLC, Go crypto/tls on the server side, the harness PKI; times with 5 s of slack upward, 30 ms downward.')
CLAIMS.update({p: (OPEN, MC, ONOTE) for p in ('C18', 'C19', 'C20', 'C23')})
DATA = ('BoltData TLA+ model (parameters, columns, rows and summaries between the native and sql interfaces and the wire) checked by TLC; calls of the '
        'real driver at native, driver and database/sql level against a scripted server are recorded and judged by TLC against it')
DNOTE = ('The laws of merging, columns and counters and the life of a call are checked over a small universe. The code is checked on seeded random '
         'arguments, rows, metadata and summaries, well and ill-typed. Trusts: TLC, the harness server and its codec; PackStream.tla is what encoded '
         'bytes mean.')
CLAIMS.update({p: (DATA, MC, DNOTE) for p in ('C21', 'C22')})
REC = ('BoltRecorder TLA+ model (histories of reads, writes and errors; every way to replay them) checked by TLC together with the recorder\'s own '
       'representation; sessions recorded and replayed by the real recorder, call by call and under the driver, are validated against it by TLC')
RNOTE = ('Every session of up to 4 (thorough: 5) bytes and every replay of it in the model. The code is checked on seeded random sessions, faithful, '
         're-fragmented and deviating replays, and whole driver sessions with cuts. Trusts: TLC, the overlay accessor to the unexported recorder.')
CLAIMS['C25'] = (REC, MC, RNOTE)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        t, l, n = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': n})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in CLAIMS]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
