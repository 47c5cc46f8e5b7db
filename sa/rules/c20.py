"""Heartbeats and the time-out of a peer network's connections."""
from .peers import *
TITLE = 'Every peer connection has a time-out that only an answered heartbeat defers'
RULES = {
    'posted': 'a heartbeat is handled once, by the dispatcher',
    'start': 'the time-out of a connection is started when it is set up, with the configured time',
    'arm': 'a time-out is restarted by the worker of the connection, with the time given, as long as the connection is set up',
    'expire': 'a time-out that fires terminates its connection',
    'gone': 'the time-out is removed when the connection is given up',
    'sole': 'nothing else stops or restarts a time-out',
    'answer': 'a heartbeat is answered exactly once, on the connection it came on, and changes nothing else',
    'first': 'a peer that becomes connected is sent one heartbeat on its connection',
    'due': 'a further heartbeat is sent exactly when the period has elapsed and the last one was answered',
    'own': 'an answer counts only over the connection of the peer',
    'again': 'sending a heartbeat restarts the period and the time-out of that connection and forgets the last answer',
    'chosen': 'heartbeats go to the connection of the peer',
    'flags': 'elapsed periods and answers are recorded nowhere else',
    'config': 'the period and the time are those configured',
}
EXPLAIN = ('All paths of the set-up and tear-down of connections, of the time-out and heartbeat timers and of the handlers of pings and pongs; '
           'every call on a time-out and every heartbeat sent in the whole program is accounted for.')
ASSUME = ['a running timer fires and a removed one does not (C15, libuv)', 'posted functions run once (C13)']
EVT = PN + 'Conn::ev_timeout'
RT = PN + 'tcall_reset_timeout'
TIMER = NS + 'TimerEvent::'
TOUCH = ('add', 'del', 'clear', 'operator=', '(ctor)')
WT = NS + 'ConnPool::worker_terminate'


def check(ctx):
    m = Model(ctx)
    timeout(ctx, m)
    beats(ctx, m)
    config(ctx, m)
    for r in RULES:
        ctx.need(r)


def bare(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


def is_field(v, f):
    v = bare(v)
    return v[0] == 'init' and v[1][0] == 'f' and v[1][2] == f


# ---------------------------------------------------------------- time-out
def timeout(ctx, m):
    allowed = set()
    f = ctx.prog.one(PN + 'on_dispatcher_setup')
    ps = m.it.run(f)
    ctx.note(f.qn, ps, m.it)
    conn = ('init', m.param(f, 0))
    n = 0
    for pa in ps:
        if pa.kind != 'ret':
            continue
        n += 1
        rs = [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == RT]
        ok = len(rs) == 1 and restart(rs[0], conn)
        ctx.ob('start', ok, f.where, 'the time-out of a new connection is not started with the configured time', path=pa, sig='start')
    ctx.require(n, 'the set-up of a connection has no path')
    # what a restart does
    fs = ctx.prog.fns(RT)
    ctx.require(len(fs) == 1, 'no single restart of a time-out')
    f = fs[0]
    pw, pc, pt = (('init', m.param(f, i)) for i in range(3))
    it = Interp(ctx.prog, Config(resolve=m.s.resolve, extra_opaque=(OPAQUE - {RT}) | {WT}, split=True))
    for q in it.run(f):
        ls = [lam_of(e) for e in q.events if lam_of(e) is not None]
        on = [e for e in q.events if lam_of(e) is not None and e.name == TC[0] and e.obj and pw in set(subterms(e.obj))]
        ctx.ob('arm', len(ls) == 1 and len(on) == 1 and q.kind == 'ret', f.where, 'a restart is not handed to the worker once', path=q, sig='arm:post')
        for l in ls[:1]:
            allowed.add(l[3])
            ps = it.run_lambda(l)
            ctx.note(f.qn, ps, it)
            for pa in ps:
                if pa.kind == 'backedge' or any(e.kind == 'catch' for e in pa.events):
                    continue
                loc = ('f', ('obj', pc), EVT)
                cs = [e for e in pa.events if e.kind == 'call' and e.obj == loc and short(e.name) in TOUCH]
                oth = [e for e in pa.events if e.kind == 'call' and e.obj and e.obj[0] == 'f' and e.obj[2] == EVT and e.obj != loc]
                isset = [e.res for e in pa.events if e.kind == 'call' and e.obj == loc and short(e.name) == 'operator bool']
                unset = any(m.zero(pa.st.iv, r) for r in isset)
                if unset:
                    ctx.ob('arm', not cs and not oth, f.where, 'a time-out that was removed is touched', path=pa, sig='arm:unset')
                else:
                    ok = cs and short(cs[-1].name) == 'add' and len([e for e in cs if short(e.name) == 'add']) == 1 and vals(cs[-1])[0] == pt and not oth \
                        and not any(short(e.name) in ('clear', 'operator=') for e in cs)
                    ctx.ob('arm', ok, f.where, 'a time-out is not restarted with the time given', path=pa, sig='arm:add')
                    ctx.ob('arm', any(m.nonzero(e.facts, r) for r in isset for e in cs[:1]), f.where, 'a time-out that was removed may be restarted', path=pa, sig='arm:known')
    # set-up and tear-down by the worker
    it = Interp(ctx.prog, Config(resolve=m.s.resolve, extra_opaque=OPAQUE | {WT, ERR, NS + 'MsgNetwork::on_worker_setup', NS + 'MsgNetwork::on_worker_teardown'}, split=True))
    f = ctx.prog.one(PN + 'on_worker_setup')
    conn = ('init', m.param(f, 0))
    loc = ('f', ('obj', conn), EVT)
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        if pa.kind != 'ret':
            continue
        mk = {e.res: e for e in pa.events if e.kind == 'call' and e.name == TIMER + '(ctor)'}
        v = bare(pa.st.cells.get(loc, ('null',)))
        e = mk.get(v)
        lam = bare(vals(e)[1]) if e is not None and len(vals(e)) == 2 else None
        ok = lam is not None and lam[0] == 'lam' and any(is_worker_ec(x, conn) for x in subterms(vals(e)[0]))
        ctx.ob('expire', ok, f.where, 'the connection gets no time-out in the loop of its worker', path=pa, sig='expire:made')
        if not ok:
            continue
        qs = it.run_lambda(lam)
        ctx.note('%s::<lambda:%d>' % (lam[7], lam[2]), qs, it)
        for q in qs:
            if q.kind == 'backedge':
                continue
            t = [x for x in q.events if x.kind in ('call', 'vcall') and short(x.name) in ('worker_terminate', 'terminate', 'disp_terminate') and vals(x)[0] == conn]
            bad = [x for x in q.events if x.kind == 'call' and x.obj == loc and short(x.name) in ('del', 'clear', 'add')]
            ctx.ob('expire', bool(t) and not bad and q.kind == 'ret', f.where, 'a time-out that fires does not terminate its connection', path=q, sig='expire')
    f = ctx.prog.one(PN + 'on_worker_teardown')
    loc = ('f', ('obj', ('init', m.param(f, 0))), EVT)
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        if pa.kind != 'backedge':
            cs = [e for e in pa.events if e.kind == 'call' and e.obj == loc and short(e.name) in TOUCH]
            ctx.ob('gone', bool(cs) and short(cs[-1].name) == 'clear', f.where, 'the time-out of a connection given up is not removed', path=pa, sig='gone')
    homes = {PN + 'on_worker_setup', PN + 'on_worker_teardown', RT}
    n = 0
    for t in m.s.tasks:
        for pa in t.paths:
            for e in pa.events:
                if e.kind in ('call', 'write') and e.obj and e.obj[0] == 'f' and e.obj[2] == EVT and (e.kind == 'write' or short(e.name) in TOUCH):
                    if e.obj[1][0] == 'obj' and e.obj[1][1][0] == 's' and str(e.obj[1][1][3]).startswith('new '):
                        continue
                    n += 1
                    own = t.lam is not None and t.lam[3] in allowed or bool(homes & set(callers(e)))
                    ctx.ob('sole', own, e.where, 'the time-out of a connection is touched by %s' % t.label, path=pa, sig='sole:' + e.where)
    ctx.require(n, 'no time-outs found')
    for t in m.s.tasks:
        if not any(lam_of(e) is not None and lam_of(e)[3] in allowed for pa in t.paths for e in pa.events):
            continue
        if t.lam is not None:
            ps = m.it.run_lambda(t.lam)
        else:
            fn = [f for f in ctx.prog.fns(t.label.split(' ')[0])]
            ps = m.it.run(fn[0]) if len(fn) == 1 else []
        for pa in ps:
            if pa.kind != 'ret' or any(e.kind == 'catch' for e in pa.events):
                continue
            for e in pa.events:
                if e.kind in ('call', 'vcall') and e.name == RT:
                    own = PN + 'on_dispatcher_setup' in callers(e) or e.fn == PN + 'on_dispatcher_setup' or any(h[3] == vals(e)[1] for h in heartbeats(m, pa))
                    ctx.ob('sole', own, e.where, '%s restarts the time-out of a connection without sending a heartbeat' % t.label, path=pa, sig='restart:' + e.where)


def is_worker_ec(x, conn):
    return x[0] == 'f' and x[2] == CONN + 'worker' and x[1] == ('obj', conn)


def restart(e, conn):
    v = vals(e)
    w = bare(v[0])
    return len(v) == 3 and v[1] == conn and is_field(v[2], PN + 'conn_timeout') and w == ('init', ('f', ('obj', conn), CONN + 'worker'))


# ---------------------------------------------------------------- heartbeats
def beat_timer(ctx, m):
    """paths of what the heartbeat timer of a record calls, with the record"""
    c = [f for f in ctx.prog.methods_of(NS + 'PeerNetwork::Peer') if f.kind == 'ctor' and len(f.params) == 2]
    ctx.require(len(c) == 1, 'no single constructor of the peer record')
    me = ('obj', ('this',))
    loc = ('f', me, PEER + 'ev_ping_timer')
    for q in m.it.run(c[0]):
        mk = {e.res: e for e in q.events if e.kind == 'call' and e.name == TIMER + '(ctor)' and len(vals(e)) == 2}
        v = bare(q.st.cells.get(loc, ('null',)))
        e = mk.get(v) or next((e for e in q.events if e.kind == 'call' and e.name == TIMER + '(ctor)' and e.obj == loc and len(vals(e)) == 2), None)
        ctx.require(e is not None, 'the heartbeat timer of a record is not found')
        b = bare(vals(e)[1])
        if b[0] == 'lam':
            return m.it.run_lambda(b), c[0].where, 'lam', b[3]
        fn = m.it.bind_target(b)
        fn = fn[0] if isinstance(fn, tuple) else fn
        if isinstance(fn, str):
            fn = ctx.prog.one(fn)
        ctx.require(fn is not None and hasattr(fn, 'body'), 'the callback of the heartbeat timer is not found')
        return m.it.run(fn), fn.where, 'fn', fn.qn
    ctx.require(False, 'the constructor of the peer record has no path')


def at(m, pa, loc, i):
    """(value, facts) of a field just before event i"""
    v = ('init', loc)
    for e in pa.events[:i]:
        if e.kind == 'write' and e.obj == loc:
            v = e.args[0]
    return v


def beats(ctx, m):
    tp, tw, kind, key = beat_timer(ctx, m)
    ctx.note('heartbeat timer', tp, m.it)
    lams = {}
    n = 0
    for pa in tp:
        if pa.kind == 'backedge':
            continue
        n += 1
        p = records(pa)
        ctx.require(len(p) <= 1, 'the heartbeat timer touches several records')
        if not p:
            ctx.ob('due', False, tw, 'an elapsed period is not recorded', path=pa, sig='timer:none')
            continue
        p = p.pop()
        hs = heartbeats(m, pa)
        pong0 = ('init', ('f', p, PEER + 'pong_msg_ok'))
        if hs:
            one(ctx, m, 'timer', pa, p, hs, tw)
            ctx.ob('due', m.nonzero(pa.st.iv, pong0), tw, 'a heartbeat is sent though the last one was not answered', path=pa, sig='timer:early')
        else:
            ctx.ob('due', m.zero(pa.st.iv, pong0), tw, 'a heartbeat that is due is not sent', path=pa, sig='timer:due')
            ctx.ob('due', m.nonzero(pa.st.iv, m.cell(pa, ('f', p, PEER + 'ping_timer_ok'))) and m.cell(pa, ('f', p, PEER + 'pong_msg_ok')) == pong0, tw,
                   'an elapsed period is not recorded', path=pa, sig='timer:mark')
    ctx.require(n, 'the heartbeat timer has no path')
    hb = {}
    for msg in ('MsgPing', 'MsgPong'):
        conn, ml, ps, w, l = m.handler(msg)
        lams[l[3]] = msg
        seen = 0
        for pa in ps:
            if pa.kind == 'backedge':
                continue
            up = [e for _, e in m.writes(pa, PEER + 'state') if e.args[0] == CONNECTED]
            if up:
                p = up[0].obj[1]
                hs = heartbeats(m, pa)
                ctx.ob('first', len(hs) == 1, w, '%s: a peer that becomes connected is sent %d heartbeats' % (msg, len(hs)), path=pa, sig=msg + ':first')
                if hs:
                    one(ctx, m, msg, pa, p, hs, w, new=conn)
                continue
            nul = m.addr_null(pa.st.iv, ('f', ml, PN + 'MsgPing::claimed_addr'))
            if not nul:
                continue
            seen += 1
            (answer if msg == 'MsgPing' else pong)(ctx, m, pa, conn, w)
        ctx.require(seen, 'heartbeats are not told from handshakes by the %s handler' % msg)
    # nothing else
    for t in m.s.tasks:
        mine = t.lam is not None and t.lam[3] in lams
        tim = kind == 'lam' and t.lam is not None and t.lam[3] == key
        for pa in t.paths:
            for e in pa.events:
                if e.kind != 'write' or not e.obj or e.obj[0] != 'f':
                    continue
                p = e.obj[1]
                if made(p):
                    continue
                if e.obj[2] in (PEER + 'ping_timer_ok', PEER + 'pong_msg_ok') and not m.zero(e.facts, e.args[0]):
                    own = (tim or kind == 'fn' and key in callers(e)) if 'timer' in e.obj[2] else (mine and lams[t.lam[3]] == 'MsgPong')
                    ctx.ob('flags', own, e.where, 'an answer or an elapsed period is recorded by %s' % t.label, path=pa, sig='flags:' + e.where)
                if e.obj[2] == PEER + 'chosen_conn':
                    ok = pa.kind == 'backedge' or pa.kind == 'throw' or any(x.kind == 'catch' for x in pa.events) or \
                        e.args[0] == pa.st.cells.get(('f', p, PEER + 'conn')) or m.same(pa.st.iv, e.args[0], m.cell(pa, ('f', p, PEER + 'conn'))) \
                        or m.zero(pa.st.iv, m.cell(pa, ('f', p, PEER + 'state')))
                    ctx.ob('chosen', ok, e.where, 'heartbeats may go to a connection that is not the peer\'s', path=pa, sig='chosen:' + e.where)


def made(p):
    return p[0] == 'obj' and p[1][0] == 's' and str(p[1][3]).startswith('new ')


def records(pa):
    return {e.obj[1] for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER)} | \
        {e.obj[1] for e in pa.events if e.kind == 'call' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER)}


def heartbeats(m, pa):
    return [x for x in m.sent(pa) if x[1] == 'MsgPing' and not x[2]]


def one(ctx, m, name, pa, p, hs, w, new=None):
    ctx.ob('due', len(hs) == 1, w, '%s: %d heartbeats are sent' % (name, len(hs)), path=pa, sig=name + ':n')
    i, _, _, c = hs[0]
    if new is not None:
        ctx.ob('chosen', c == new, w, '%s: the heartbeat does not go to the new connection' % name, path=pa, sig=name + ':conn')
    else:
        own = [at(m, pa, ('f', p, PEER + g), i) for g in ('chosen_conn', 'conn')]
        ctx.ob('chosen', c in own, w, '%s: the heartbeat does not go to the connection of the peer' % name, path=pa, sig=name + ':conn')
    if pa.kind != 'ret' or any(e.kind == 'catch' for e in pa.events):
        return
    for g in ('ping_timer_ok', 'pong_msg_ok'):
        ctx.ob('again', m.zero(pa.st.iv, m.cell(pa, ('f', p, PEER + g))), w, '%s: the heartbeat just sent counts as %s' % (name, 'elapsed' if 'timer' in g else 'answered'),
               path=pa, sig='%s:%s' % (name, g))
    cs = [e for e in pa.events if e.kind == 'call' and e.obj == ('f', p, PEER + 'ev_ping_timer') and short(e.name) in TOUCH]
    ok = cs and short(cs[-1].name) == 'add' and period(pa, p, vals(cs[-1])[0])
    ctx.ob('again', ok, w, '%s: the period is not started again' % name, path=pa, sig=name + ':period')
    rs = [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == RT]
    ctx.ob('again', len(rs) == 1 and restart(rs[0], c), w, '%s: the time-out of the connection is not restarted' % name, path=pa, sig=name + ':timeout')


def period(pa, p, v):
    want = (('init', ('f', p, PEER + 'ping_period')), ('init', ('f', ('obj', ('this',)), PN + 'ping_period')))
    if any(x in want for x in subterms(v)):
        return True
    return any(e.kind == 'call' and e.res == v and vals(e) and any(x in want for x in subterms(vals(e)[0])) for e in pa.events)


def touches(m, pa):
    return [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER)]


def dead(m, pa, conn):
    return any(x.kind == 'atomic' and x.name == 'load' and x.obj == ('f', ('obj', conn), CONN + 'terminated') and m.nonzero(pa.st.iv, x.res) for x in pa.events)


def answer(ctx, m, pa, conn, w):
    s = m.sent(pa)
    if dead(m, pa, conn):
        ctx.ob('answer', not [x for x in s if x[3] != conn], w, 'a heartbeat over a dead connection is answered elsewhere', path=pa, sig='answer:dead')
        return
    ok = len(s) == 1 and s[0][1] == 'MsgPong' and not s[0][2] and s[0][3] == conn
    ctx.ob('answer', ok, w, 'a heartbeat is not answered once on its connection', path=pa, sig='answer')
    bad = touches(m, pa) + m.terminates(pa) + [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == RT]
    ctx.ob('answer', not bad, w, 'a heartbeat changes a peer or its time-out', path=pa, sig='answer:else')


def pong(ctx, m, pa, conn, w):
    facts = pa.st.iv
    pv = ('init', ('f', ('obj', conn), PEERF))
    p = ('obj', pv)
    if dead(m, pa, conn) and not touches(m, pa):
        return
    own = m.nonzero(facts, pv) and m.same(facts, ('init', ('f', p, PEER + 'conn')), conn)
    hs = heartbeats(m, pa)
    if not own:
        not_own = m.zero(facts, pv) or m.differ(facts, ('init', ('f', p, PEER + 'conn')), conn)
        ctx.ob('own', not_own and not touches(m, pa) and not m.sent(pa), w, 'an answer over a connection that is not the peer\'s is counted', path=pa, sig='own')
        return
    ctx.ob('own', all(e.obj[1] == p for e in touches(m, pa)), w, 'an answer is counted for another peer', path=pa, sig='own:other')
    t0 = ('init', ('f', p, PEER + 'ping_timer_ok'))
    if hs:
        one(ctx, m, 'pong', pa, p, hs, w)
        ctx.ob('due', m.nonzero(facts, t0), w, 'a heartbeat is sent though the period has not elapsed', path=pa, sig='pong:early')
    else:
        ctx.ob('due', m.zero(facts, t0), w, 'a heartbeat that is due is not sent', path=pa, sig='pong:due')
        ctx.ob('due', m.nonzero(facts, m.cell(pa, ('f', p, PEER + 'pong_msg_ok'))) and m.cell(pa, ('f', p, PEER + 'ping_timer_ok')) == t0, w,
               'an answer is not recorded', path=pa, sig='pong:mark')


# ---------------------------------------------------------------- configuration
def config(ctx, m):
    c = [f for f in ctx.prog.methods_of(NS + 'PeerNetwork') if f.kind == 'ctor' and len(f.params) == 2]
    ctx.require(len(c) == 1, 'no single constructor of the peer network')
    f = c[0]
    for pa in m.it.run(f)[:50]:
        if pa.kind != 'ret':
            continue
        for g in ('ping_period', 'conn_timeout'):
            v = m.cell(pa, ('f', ('obj', ('this',)), PN + g))
            ctx.ob('config', v == ('init', ('f', m.param(f, 1), PN + 'Config::_' + g)), f.where, 'the %s is not the one configured' % g, path=pa, sig='config:' + g)
    for g in ('ping_period', 'conn_timeout'):
        fs = [x for x in ctx.prog.fns(PN + 'Config::' + g) if len(x.params) == 1]
        ctx.require(len(fs) == 1, 'no setting ' + g)
        for pa in m.it.run(fs[0]):
            v = m.cell(pa, ('f', ('obj', ('this',)), PN + 'Config::_' + g))
            ctx.ob('config', v == ('init', m.param(fs[0], 0)), fs[0].where, 'setting the %s has another value' % g, path=pa, sig='set:' + g)
    for t in m.s.tasks:
        if '(ctor)' in t.label:
            continue
        for pa in t.paths:
            for e in pa.events:
                if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] in (PN + 'ping_period', PN + 'conn_timeout', PEER + 'ping_period') and not made(e.obj[1]):
                    ctx.ob('config', False, e.where, 'a configured time is changed by %s' % t.label, path=pa, sig='config:' + e.where)
