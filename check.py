#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

exit 0: held on everything explored; 1 with a VIOLATION line: broken;
anything else: the check could not give an answer."""
import shutil
import sys
import traceback

from vlib import common
from vlib.common import Check, MachineryError, TIER


def session_check(prop):
    from vlib import session, session_configs as sc
    chk = Check(prop, 'model_checking')
    binary = common.build_harness()
    for c in sc.QUICK[prop]:
        quick = TIER != 'thorough'
        session.run_config(chk, binary, c['name'], c['consts'], cover=c['cover'] if quick else None,
                           walks=c['walks'] if quick else 6000, calls=c['calls'] if quick else 10,
                           walkcalls=c['walkcalls'] if quick else 25)
        if chk.violations:
            break
    c = sc.SIM.get(prop)
    if c and not chk.violations:
        quick = TIER != 'thorough'
        session.run_sim(chk, binary, c['name'], c['consts'], c['num'] * (1 if quick else 12), c['calls'] if quick else 80)
    if TIER == 'thorough' and not chk.violations:
        c = sc.BIG
        session.run_config(chk, binary, c['name'], c['consts'], cover=8000, walks=12000, calls=10, walkcalls=25)
    chk.assumptions += [
        'the server follows Bolt v1 apart from the faults injected',
        'one goroutine uses a connection at a time (documented)',
    ]
    return chk


def codec_check(prop):
    from vlib import codec
    chk = Check(prop, 'model_checking')
    codec.check(chk, common.build_harness())
    return chk


def pool_check(prop):
    from vlib import pool
    chk = Check(prop, 'model_checking')
    pool.check(chk)
    return chk


def open_check(prop):
    from vlib import open as o
    chk = Check(prop, 'model_checking')
    o.check(chk, common.build_harness())
    return chk


CHECKS = {p: session_check for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')}


CHECKS.update({p: codec_check for p in ('C13', 'C14', 'C15', 'C16', 'C17')})
CHECKS.update({p: pool_check for p in ('C09', 'C10', 'C11', 'C12', 'C24')})


CHECKS.update({p: open_check for p in ('C18', 'C19', 'C20', 'C23')})


def data_check(prop):
    from vlib import data
    chk = Check(prop, 'model_checking')
    data.check(chk, common.build_harness())
    return chk


CHECKS.update({p: data_check for p in ('C21', 'C22')})


def recorder_check(prop):
    from vlib import recorder
    chk = Check(prop, 'model_checking')
    recorder.check(chk, common.build_harness(recorder=True))
    return chk


CHECKS['C25'] = recorder_check


def main():
    prop = sys.argv[1]
    rc = 2
    try:
        rc = CHECKS[prop](prop).finish()
    except MachineryError as e:
        print('ERROR: ' + str(e), file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        common.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
