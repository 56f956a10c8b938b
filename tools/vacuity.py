#!/usr/bin/env python3
"""Runs the specifications with each of their deliberate mistakes switched on:
every one has to violate a property, so the properties are not vacuous."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, pool, session, session_configs  # noqa: E402
from vlib.common import SPEC, tlc  # noqa: E402


def says(r):
    m = re.search(r'(Invariant|Temporal properties?|Action property|The invariant of) (\w+)? ?.*(violated|is violated)', r.out)
    if r.ok:
        return 'NOTHING VIOLATED'
    m = re.search(r'Invariant (\w+) is violated|Action property (\w+)|Temporal propert\w+ (?:\w+ )?w?\w* violated|Error: (.*)', r.out)
    return m.group(0) if m else r.out[-300:]


def cfg_with(name, defect):
    t = open(os.path.join(SPEC, name + '.cfg')).read()
    return re.sub(r'Defects *= *\{\}', 'Defects = {"%s"}' % defect, t)


for d in ('nodrain', 'notx', 'noack'):
    c = session_configs.conf('vac', 'exec query rnext rclose begin commit rollback close qpipe pnext', 'RUN PULL TX', rec=2)
    r = tlc('BoltSession', 'SPECIFICATION Spec\n' + session.INV, dict(c['consts'], Defects={d}), workers=8, name='vac')
    print('BoltSession', d, '->', says(r), flush=True)
for d in ('keepslot', 'keepbroken'):
    consts = dict(M=1, Users={1, 2}, MaxH=2, MaxP=2, Kinds={'exec', 'drop'}, Rb={'ok'}, InitBad={'refuse'}, Closing=False, Kills=False, Gen=False, Defects={d})
    r = tlc('BoltPool', 'SPECIFICATION Spec\n' + pool.SAFE, consts, workers=8, name='vac')
    print('BoltPool', d, '->', says(r), flush=True)
for mod, ds in (('BoltOpenMC', ('contact', 'clear', 'trust', 'anyver', 'leak', 'accept')), ('BoltDataMC', ('firstwins', 'sendbad', 'stale')),
                ('BoltRecorderMC', ('mixed', 'noleft'))):
    for d in ds:
        r = tlc(mod, cfg_with(mod, d), workers=8, heap='8g')
        print(mod, d, '->', says(r), flush=True)
