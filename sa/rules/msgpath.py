"""Analyses of the message reader shared by C04/C05."""
from .common import *

ABS = {NS + 'SegBuffer', NS + 'MPSCWriteBuffer', NS + 'MsgBase', NS + 'DataStream'}
MSG = NS + 'MsgNetwork::Conn::msg'
STATE = NS + 'MsgNetwork::Conn::msg_state'


def QUEUE(ctx):
    return 'incoming_msgs'


def on_read_paths(ctx):
    fn = ctx.prog.one(NS + 'MsgNetwork::on_read')
    it = Interp(ctx.prog, Config(abstract=ABS, extra_opaque={ERR}))
    ps = it.run(fn)
    ctx.note(fn.qn, ps, it)
    conn = ('obj', ('init', ('p', fn.qn, fn.params[0]['n'])))
    return it, ps, conn


def retry_timers(ctx, s):
    """callbacks of the timer stored in ev_enqueue_poll: [(interp, creating event, paths, conn location)]"""
    seen = set()
    out = []
    for t in s.tasks:
        for pa in t.paths:
            for i, e in enumerate(pa.events):
                if e.kind == 'call' and e.name == NS + 'TimerEvent::(ctor)' and len(e.x.get('vals', ())) == 2:
                    lam = e.x['vals'][1]
                    while lam[0] == 'st':
                        lam = lam[1]
                    if lam[0] != 'lam' or lam[3] in seen:
                        continue
                    # is it the timer of the reader: its callback queues messages
                    it = Interp(ctx.prog, Config(abstract=ABS, extra_opaque={ERR}))
                    ps = it.run_lambda(lam)
                    if not any(x.kind == 'call' and short(x.name) == 'enqueue' and fld(x) == QUEUE(ctx) for p in ps for x in p.events):
                        continue
                    seen.add(lam[3])
                    ctx.note('%s::<lambda:%d>' % (lam[7], lam[2]), ps, it)
                    conn = None
                    for d, n, k, v in lam[4]:
                        for p in ps:
                            for x in p.events:
                                if x.kind == 'write' and fld(x) == 'msg_sleep':
                                    conn = x.obj[1]
                    ctx.require(conn is not None, 'connection of the retry timer not found')
                    out.append((it, e, ps, conn))
    return out
