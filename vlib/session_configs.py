"""Configurations of BoltSession per property.

Each entry: name, operations, where the server may refuse, which faults it may
show and where, records per result, pipeline lengths, pooled; then how many
paths of the transition cover and how many random walks the quick tier runs
(None: the complete transition cover)."""

WORK = 'RUN TX PULL DISCARD'
ALL = 'RUN TX PULL DISCARD ACK RESET'
EVERY_OP = ('exec query queryall execpipe qpipe prep ppipe begin commit rollback sexec squery sexecpipe sqpipe sclose '
            'rnext rall pnext rclose orclose ornext close reopen otcommit otrollback osexec osclose execbad querybad '
            'queryallbad execpipebad qpipebad execpipecnt qpipecnt qpipe0 execpipe0 sexecbad squerybad sexecpipebad '
            'sqpipebad sexecpipecnt sqpipecnt')


def conf(name, ops, fail='', faults='', at='', rec=1, pipes=(2,), pooled=False, cover=None, walks=0, calls=20, walkcalls=14):
    return dict(name=name, cover=cover, walks=walks, calls=calls, walkcalls=walkcalls,
                consts=dict(Ops=set(ops.split()), MaxRec=rec, PipeLens=set(pipes), FailAt=set(fail.split()),
                            FaultKinds=set(faults.split()), FaultAt=set(at.split()), Pooled=pooled, Gen=True, Defects=set()))


BIG = conf('all', EVERY_OP, ALL, 'CUT CUTMID STALL GARB ODDI ODDR', ALL, pooled=True, cover=400, walks=800)

QUICK = {
    'C01': [
        conf('deep', 'exec qpipe pnext rclose execpipe', 'RUN PULL', pipes=(4, 6), cover=600, walks=100),
        conf('single', 'exec query queryall prep sexec squery rnext rclose sclose close reopen execbad querybad', WORK + ' ACK', pooled=True, rec=2, walks=300),
        conf('pipe', 'exec qpipe execpipe ppipe sqpipe sexecpipe pnext rclose sclose close reopen qpipebad', WORK, pooled=True, walks=300),
        conf('odd', 'exec query qpipe rnext pnext rclose close begin commit', 'RUN', 'ODDI ODDR GARB', ALL, cover=1500, walks=200),
    ],
    'C02': [
        conf('rows', 'query prep squery queryall rnext rall rclose sclose exec', 'RUN PULL', rec=4, walks=300),
        conf('pipe', 'qpipe pnext rclose exec', 'RUN PULL', rec=2, pipes=(1, 2, 3), walks=300),
        conf('cut', 'query prep squery queryall qpipe rnext rall pnext rclose exec', 'PULL', 'CUT CUTMID GARB', 'PULL', rec=2, walks=200),
    ],
    'C03': [
        conf('single', 'exec query queryall prep sexec squery rnext rall rclose sclose close', ALL, rec=2, walks=300),
        conf('pipe', 'exec execpipe qpipe ppipe sexecpipe sqpipe pnext rclose sclose close', ALL, walks=300),
        conf('deep', 'exec execpipe qpipe pnext rclose', 'RUN PULL', pipes=(4,), walks=200),
        conf('tx', 'begin commit rollback query exec rnext close reopen', ALL, pooled=True, walks=300),
    ],
    'C04': [
        conf('single', 'query prep squery rnext rclose orclose sclose osclose close exec', 'RUN PULL DISCARD', 'CUT GARB', 'PULL DISCARD', rec=2, walks=300),
        conf('pipe', 'qpipe ppipe sqpipe pnext rclose orclose ornext sclose close exec', 'PULL', '', '', pipes=(2, 3), walks=300),
        conf('deep', 'qpipe pnext rclose orclose exec', 'RUN PULL', '', '', pipes=(4, 5), walks=100),
        conf('cut', 'qpipe ppipe sqpipe pnext rclose orclose sclose close exec', '', 'CUT GARB', 'PULL RUN', pipes=(2,), walks=100),
        conf('tx', 'begin query rnext rclose commit close reopen exec', 'RUN TX PULL', pooled=True, walks=200),
    ],
    'C05': [
        conf('single', 'exec query queryall prep sexec squery rnext rclose sclose close reopen', 'RUN', 'CUT CUTMID GARB', ALL, pooled=True, walks=200),
        conf('stall', 'exec query prep squery rnext rclose close reopen', 'RUN', 'STALL STALLMID', ALL, pooled=True, cover=700, walks=100),
        conf('pipe', 'exec execpipe qpipe pnext rclose close reopen', 'RUN', 'CUT CUTMID GARB ODDI', ALL, pooled=True, walks=200),
        conf('tx', 'begin commit rollback exec close reopen', 'TX', 'CUT CUTMID STALL GARB ODDR', ALL, pooled=True, walks=200),
        conf('gone', 'exec query prep squery qpipe begin commit rnext pnext rclose close reopen', '', 'GCUT GRST GDEAF', '', pooled=True, cover=600,
             walks=200),
    ],
    'C06': [
        conf('tx', 'begin commit rollback otcommit otrollback exec query rnext rclose close reopen', 'RUN TX PULL', pooled=True, walks=400),
        conf('fail', 'begin commit rollback exec close reopen', ALL, 'CUT STALL GARB ODDI', ALL, pooled=True, walks=300),
        conf('stmt', 'begin commit rollback prep squery qpipe pnext rnext sclose close reopen exec', 'TX PULL DISCARD', pooled=True, cover=2500, walks=300),
    ],
    'C07': [
        conf('every', EVERY_OP, '', pooled=True, walks=300),
        conf('fail', EVERY_OP, 'RUN TX PULL', pooled=True, cover=800, walks=400),
    ],
    'C08': [
        conf('exec', 'execpipe ppipe sexecpipe sclose exec execpipebad execpipecnt execpipe0 sexecpipebad sexecpipecnt', 'RUN PULL', rec=2, pipes=(1, 2, 3), walks=200),
        conf('query', 'qpipe ppipe sqpipe pnext rclose sclose exec qpipebad qpipecnt qpipe0 sqpipebad sqpipecnt', 'RUN PULL', rec=1, pipes=(1, 2, 3), walks=300),
        conf('deep', 'qpipe pnext rclose exec', 'RUN PULL', rec=3, pipes=(4,), walks=300),
    ],
    'C23': [
        conf('stall', 'exec query prep squery rnext rclose begin commit rollback qpipe pnext close', 'RUN', 'STALL STALLMID', ALL, cover=900, walks=100),
    ],
}


def sim(name, ops, fail='', faults='', at='', rec=60, pipes=(1, 2, 3, 5, 8, 13, 21), pooled=True, num=160, calls=40):
    c = conf(name, ops, fail, faults, at, rec, pipes, pooled)
    return dict(name=name, consts=c['consts'], num=num, calls=calls)


# long sessions with large results and pipelines, from TLC's simulator
SIM = {
    'C01': sim('long', EVERY_OP, ALL, 'CUT GARB ODDI ODDR', ALL),
    'C02': sim('long', 'query prep squery queryall qpipe ppipe sqpipe rnext rall pnext rclose sclose exec', 'RUN PULL', rec=300, pooled=False),
    'C03': sim('long', EVERY_OP, ALL),
    'C04': sim('long', 'query prep squery qpipe ppipe sqpipe rnext pnext rclose orclose sclose osclose close reopen exec', 'RUN PULL DISCARD'),
    'C05': sim('long', EVERY_OP, 'RUN', 'CUT CUTMID STALL STALLMID GARB ODDI ODDR GCUT GRST GDEAF', ALL, num=120),
    'C06': sim('long', 'begin commit rollback otcommit otrollback exec query queryall qpipe prep squery rnext pnext rclose sclose close reopen', ALL,
               'CUT STALL GARB', ALL),
    'C07': sim('long', EVERY_OP, 'RUN TX PULL'),
    'C08': sim('long', 'execpipe qpipe ppipe sexecpipe sqpipe pnext rclose sclose exec execpipebad execpipecnt qpipebad qpipecnt sqpipebad '
               'sexecpipecnt', 'RUN PULL', pipes=(1, 2, 3, 8, 21, 40)),
}
