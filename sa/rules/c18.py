"""Peers: announcements, attempts and the bond between a record and its connections."""
from .peers import *
TITLE = 'Each peer connection and loss is announced once; attempts stay in limit'
RULES = {
    'up': 'a peer that becomes connected is announced to the user exactly once, with its connection',
    'down': 'the end of a peer\'s connection or attempt is announced exactly once, with that connection',
    'silent': 'a connection that is no peer\'s is not announced and leaves the records alone',
    'sole': 'nothing else is announced',
    'reset': 'after the end of its connection the peer is disconnected and pings no more',
    'replay': 'a handshake kept while the old connection ended is handled once, after the end was announced',
    'retry': 'a new attempt is scheduled exactly when attempts are left',
    'attempt': 'an attempt connects to the address of the record, once, and is the record\'s',
    'limit': 'attempts left are only counted down or set to the number asked for',
    'armed': 'attempts are scheduled only for a disconnected peer',
    'detach': 'a connection that a record gives up forgets the record',
    'bond': 'a connection knows a record only if it is that record\'s connection or attempt',
    'removed': 'the connections of a removed record forget it',
}
EXPLAIN = ('All paths of the dispatcher functions that change a peer record: handshakes, the end of a connection, retry timers, requests; '
           'the bond between records and connections is an inductive invariant checked at every change.')
ASSUME = ['posted functions run once (C13)', 'a timer that was stopped does not fire (C15)']
TIMER = NS + 'TimerEvent::'
PBOND = (PEER + 'conn', PEER + 'outbound_conn')


def check(ctx):
    m = Model(ctx)
    seen = set()
    lams = set()
    bodies = []                      # (label, interp-independent paths)
    for msg in ('MsgPing', 'MsgPong'):
        conn, ml, ps, w, l = m.handler(msg)
        lams.add(l[3])
        bodies.append((msg, ps, None))
        for pa in ps:
            up(ctx, m, msg, conn, pa, seen)
    fs = m.prog.fns(PN + 'on_dispatcher_teardown')
    ctx.require(len(fs) == 1, 'tear-down of a connection not found')
    ps = m.it.run(fs[0])
    ctx.note(fs[0].qn, ps, m.it)
    bodies.append(('teardown', ps, None))
    conn = ('init', m.param(fs[0], 0))
    for pa in ps:
        if pa.kind != 'backedge':
            down(ctx, m, fs[0], conn, pa, seen)
    attempts = {}
    for t in m.s.tasks:
        if t.lam is None or t.lam[3] in lams or t.role != DISP:
            continue
        if not any(e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER) for pa in t.paths for e in pa.events):
            continue
        ps = m.it.run_lambda(t.lam)
        ctx.note(t.label, ps, m.it)
        if any(e.kind in ('call', 'vcall') and e.name == NS + 'ConnPool::_connect' for pa in ps for e in pa.events):
            attempts[t.lam[3]] = (t, ps)
        bodies.append((t.label, ps, t))
    ctx.require(attempts, 'no attempts to connect to a peer found')
    for t, ps in attempts.values():
        ok = any(e.kind == 'call' and e.name == TIMER + '(ctor)' and any(v[0] == 'lam' and v[3] == t.lam[3] for v in vals(e))
                 for _, qs, _ in bodies for q in qs for e in q.events)
        ctx.ob('attempt', ok, t.where, 'an attempt is not made by the retry timer', sig='attempt:timer')
        for pa in ps:
            if pa.kind != 'backedge':
                attempt(ctx, m, t, pa)
    for label, ps, t in bodies:
        for pa in ps:
            counts(ctx, m, pa)
            armed(ctx, m, label, pa, t is not None and t.lam[3] in attempts)
            bonds(ctx, m, label, pa, t is not None and t.lam[3] in attempts)
    removed(ctx, m, bodies)
    sole(ctx, m, seen)
    for r in RULES:
        ctx.need(r)


def announcements(m, pa):
    """[(index, event, [(path, calls, unset)])] of the posts that announce something"""
    out = []
    for i, e, ps in m.user_posts(pa):
        r = m.invokes(ps, PN + 'peer_cb')
        if any(n for _, n, _ in r):
            out.append((i, e, r))
    return out


def announce(ctx, m, rule, pa, w, conn, flag, seen, sig):
    an = announcements(m, pa)
    seen.update(lam_of(e)[3] for _, e, _ in an)
    ctx.ob(rule, len(an) == 1, w, 'announced %d times' % len(an), path=pa, sig=sig + ':n')
    for i, e, r in an[:1]:
        for q, n, unset in r:
            ctx.ob(rule, len(n) == (0 if unset else 1), e.where, 'the callback is invoked %d times' % len(n), path=q, sig=sig + ':calls')
            for x in n:
                ctx.ob(rule, len(vals(x)) == 2 and vals(x)[0] == conn and vals(x)[1] == flag, e.where,
                       'the callback is given %s' % ', '.join(show(v)[:60] for v in vals(x)), path=q, sig=sig + ':args')
    return an


def up(ctx, m, msg, conn, pa, seen):
    ev = [e for _, e in m.writes(pa, PEER + 'state') if e.args[0] != DISC]
    if pa.kind == 'backedge':
        return
    if ev and pa.kind == 'ret' and not any(e.kind == 'catch' for e in pa.events):
        announce(ctx, m, 'up', pa, ev[0].where, conn, C(1), seen, msg)
    elif not ev:
        ctx.ob('sole', not announcements(m, pa), pa.events[0].where if pa.events else msg, '%s: an announcement without a new connection' % msg, path=pa, sig=msg)


def down(ctx, m, f, conn, pa, seen):
    facts, w = pa.st.iv, f.where
    pv = ('init', ('f', ('obj', conn), PEERF))
    p = ('obj', pv)
    fl = lambda n: ('f', p, PEER + n)
    mode, man = ('init', ('f', ('obj', conn), CONN + 'mode')), ('init', ('f', ('obj', conn), MANUAL))
    gone = m.zero(facts, pv) or m.same(facts, mode, C(0)) and m.nonzero(facts, man)
    pw = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER)]
    if gone:
        ctx.ob('silent', not announcements(m, pa) and not pw, w, 'the end of a connection that is no peer\'s is announced or changes a record', path=pa, sig='silent')
        return
    ctx.ob('silent', m.nonzero(facts, pv) and (m.differ(facts, mode, C(0)) or m.zero(facts, man)), w, 'a connection may be no peer\'s', path=pa, sig='silent:known')
    an = announce(ctx, m, 'down', pa, w, conn, C(0), seen, 'down')
    st = m.cell(pa, fl('state'))
    ctx.ob('reset', m.zero(facts, st), w, 'the peer is left connected', path=pa, sig='reset')
    was = ('init', fl('state'))
    if not m.zero(facts, was):
        dels = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('del', 'clear') and e.obj == fl('ev_ping_timer')]
        adds = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'add' and e.obj == fl('ev_ping_timer')]
        ctx.ob('reset', bool(dels) and not adds, w, 'a disconnected peer goes on pinging', path=pa, sig='reset:ping')
    pre = ('init', fl('inbound_preempt_ping'))
    adds = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'add' and e.obj == fl('ev_retry_timer')]
    if m.nonzero(facts, pre):
        ok = len(an) == 1
        if ok:
            for q, n, unset in an[0][2]:
                ps = [(i, e, lam_of(e)) for i, e in enumerate(q.events) if lam_of(e) is not None and m.s.tcall_role(e.obj) == DISP]
                cb = [i for i, e in enumerate(q.events) if e.kind == 'icall']
                icn = ('init', fl('inbound_conn'))
                got = len(ps) == 1 and any(c[3] == icn for c in ps[0][2][4]) and any(pre in set(subterms(c[3])) or c[3] == ('init', ('obj', pre)) for c in ps[0][2][4])
                ok = ok and got and all(ps[0][0] > i for i in cb)
        ctx.ob('replay', ok, w, 'a handshake kept for later is not handled once, with its connection, after the announcement', path=pa, sig='replay')
        ctx.ob('replay', m.zero(facts, m.cell(pa, fl('inbound_preempt_ping'))), w, 'a handshake is handled and kept', path=pa, sig='replay:kept')
        ctx.ob('retry', not adds, w, 'an attempt is scheduled while a handshake is pending', path=pa, sig='retry:pre')
        return
    ctx.ob('replay', m.zero(facts, pre), w, 'a handshake kept for later may be forgotten', path=pa, sig='replay:forgot')
    cur = m.cell(pa, fl('cur_ntry'))
    if adds:
        ctx.ob('retry', len(adds) == 1 and m.nonzero(facts, cur), w, 'an attempt is scheduled though none is left', path=pa, sig='retry:none')
        ctx.ob('retry', m.zero(facts, m.cell(pa, fl('nonce'))), w, 'the next attempt uses the nonce of the last one', path=pa, sig='retry:nonce')
    else:
        ctx.ob('retry', m.zero(facts, cur), w, 'no attempt is scheduled though some are left', path=pa, sig='retry:lost')


def attempt(ctx, m, t, pa):
    w = t.where
    facts = pa.st.iv
    con = [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == NS + 'ConnPool::_connect']
    if any(e.kind == 'catch' for e in pa.events) or pa.kind == 'throw':
        return
    ctx.ob('attempt', len(con) == 1, w, 'the retry timer makes %d attempts' % len(con), path=pa, sig='attempt:n')
    if len(con) != 1:
        return
    c = con[0].res
    out = [e for _, e in m.writes(pa, PEER + 'outbound_conn') if e.args[0] == c]
    ctx.ob('attempt', len(out) == 1, w, 'the attempt is not recorded', path=pa, sig='attempt:rec')
    if not out:
        return
    p = out[0].obj[1]
    fl = lambda n: ('f', p, PEER + n)
    ctx.ob('attempt', vals(con[0])[0] == ('init', fl('addr')), w, 'the attempt does not go to the address of the record', path=pa, sig='attempt:addr')
    ctx.ob('attempt', m.cell(pa, ('f', ('obj', c), PEERF)) == p[1] and m.zero(facts, m.cell(pa, ('f', ('obj', c), MANUAL))), w,
           'the connection is not marked as an attempt for the peer', path=pa, sig='attempt:mark')
    cur0, cur1 = ('init', fl('cur_ntry')), m.cell(pa, fl('cur_ntry'))
    pos = m.it.holds(facts, lt(C(0), cur0))
    if pos:
        ctx.ob('limit', m.same(facts, lin_add(cur0, C(-1)), cur1), w, 'an attempt is not counted', path=pa, sig='limit:count')
    else:
        ctx.ob('limit', m.it.holds(facts, le(cur0, C(0))) and cur1 == cur0, w, 'an attempt may not be counted', path=pa, sig='limit:count')
    adds = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'add' and e.obj == fl('ev_retry_timer')]
    if adds:
        ctx.ob('retry', len(adds) == 1 and m.nonzero(facts, cur1), w, 'a further attempt is scheduled though none is left', path=pa, sig='attempt:none')
    else:
        ctx.ob('retry', m.zero(facts, cur1), w, 'no further attempt is scheduled though some are left', path=pa, sig='attempt:lost')


def counts(ctx, m, pa):
    for i, e in m.writes(pa, PEER + 'cur_ntry'):
        p = e.obj[1]
        v = e.args[0]
        old = ('init', e.obj)
        ok = v == ('init', ('f', p, PEER + 'ntry')) or v == C(0) or v[0] == 'init' and v[1][0] == 'p' and v[1][2] == 'ntry' or \
            v == m.cell(pa, ('f', p, PEER + 'ntry'))
        if not ok and m.same(e.facts, v, lin_add(old, C(-1))):
            ok = m.it.holds(e.facts, lt(C(0), old))
        ctx.ob('limit', ok, e.where, 'the number of attempts left is set to %s' % show(v)[:80], path=pa, sig='limit:' + e.where)


def fresh(pa, p):
    return p[0] == 'obj' and p[1][0] == 's' and str(p[1][3]).startswith('new ')


def armed(ctx, m, label, pa, is_attempt):
    if pa.kind == 'backedge':
        return
    for i, e in enumerate(pa.events):
        if e.kind == 'call' and short(e.name) == 'add' and e.obj and e.obj[0] == 'f' and e.obj[2] == PEER + 'ev_retry_timer':
            p = e.obj[1]
            st = ('init', ('f', p, PEER + 'state'))
            for j, x in m.writes(pa, PEER + 'state', p):
                if j < i:
                    st = x.args[0]
            ctx.ob('armed', is_attempt or m.zero(e.facts, st), e.where, 'an attempt is scheduled for a peer that may be connected', path=pa, sig='armed:' + e.where)
    for i, e in m.writes(pa, PEER + 'state'):
        if m.zero(e.facts, e.args[0]):
            continue
        p = e.obj[1]
        t = ('f', p, PEER + 'ev_retry_timer')
        off = on = -1
        for j, x in enumerate(pa.events):
            if x.kind == 'write' and x.obj == t or x.kind == 'call' and x.obj == t and short(x.name) in ('del', 'clear', 'operator='):
                off = j
            if x.kind == 'call' and x.obj == t and short(x.name) == 'add':
                on = j
        ctx.ob('armed', off > on, e.where, 'a peer leaves the disconnected state with an attempt scheduled', path=pa, sig='armed:' + e.where)


def bonds(ctx, m, label, pa, is_attempt):
    """replay the writes of a path"""
    val = {}
    get = lambda l: val.get(l, ('init', l))
    known = {}
    for e in pa.events:
        if e.kind != 'write' or not e.obj or e.obj[0] != 'f':
            continue
        fld_, v = e.obj[2], e.args[0]
        if fld_ in PBOND and not fresh(pa, e.obj[1]):
            old = get(e.obj)
            p = e.obj[1]
            st = get(('f', p, PEER + 'state'))
            ok = m.zero(e.facts, old) or m.same(e.facts, old, v) or m.zero(e.facts, get(('f', ('obj', old), PEERF)))
            if not ok and fld_ == PEER + 'outbound_conn' and m.zero(e.facts, v):
                # a peer that is (or was, up to this path) connected has no attempt
                ok = m.nonzero(e.facts, ('init', ('f', p, PEER + 'state')))
            ctx.ob('detach', ok, e.where, '%s: the %s given up may still point to the record' % (label, 'attempt' if 'outbound' in fld_ else 'connection'),
                   path=pa, sig='detach:%s' % e.where)
        if fld_ == PEER + 'outbound_conn' and not m.zero(e.facts, v) and not fresh(pa, e.obj[1]):
            st = get(('f', e.obj[1], PEER + 'state'))
            ctx.ob('detach', is_attempt or m.zero(e.facts, st), e.where, 'an attempt is recorded for a peer that may be connected', path=pa, sig='free:%s' % e.where)
        val[e.obj] = v
    if pa.kind == 'backedge':
        return
    for l, v in val.items():
        if l[2] == PEER + 'state' and not m.zero(pa.st.iv, v) and m.zero(pa.st.iv, ('init', l)):
            o = get(('f', l[1], PEER + 'outbound_conn'))
            ctx.ob('detach', m.zero(pa.st.iv, o), pa.events[-1].where, 'a connected peer keeps an attempt', path=pa, sig='detach:kept')
        if l[2] == PEERF and not m.zero(pa.st.iv, v):
            c = l[1][1] if l[1][0] == 'obj' else None
            p = ('obj', v) if v[0] != 'addr' else v[1]
            ok = any(get(('f', p, f)) == c for f in PBOND)
            ctx.ob('bond', ok, pa.events[-1].where, '%s: a connection points to a record that does not have it' % label, path=pa, sig='bond:' + label)


def removed(ctx, m, bodies):
    # what the destructor of a record detaches on all its paths
    d = [f for f in m.prog.methods_of(NS + 'PeerNetwork::Peer') if f.kind == 'dtor']
    both = set()
    if d and d[0].body is not None:
        me = ('obj', ('this',))
        ok = {f: True for f in PBOND}
        for pa in m.it.run(d[0]):
            for f in PBOND:
                c = ('init', ('f', me, f))
                if not m.zero(pa.st.iv, c) and not m.zero(pa.st.iv, m.cell(pa, ('f', ('obj', c), PEERF))):
                    ok[f] = False
        both = {f for f in PBOND if ok[f]}
    n = 0
    for label, ps, t in bodies + [(t.label, m.it.run_lambda(t.lam), t) for t in m.s.tasks if t.lam is not None and t.role == DISP and any(
            erases(e) for pa in t.paths for e in pa.events)]:
        for pa in ps:
            for i, e in enumerate(pa.events):
                if not erases(e):
                    continue
                n += 1
                key = vals(e)[0]
                p = None
                for q in [x.obj for x in pa.events if x.obj] + [v for x in pa.events for v in (vals(x) or ()) if isinstance(v, tuple)] + [y for vp in pa.st.iv for y, _ in vp]:
                    for y in subterms(q):
                        if y[0] == 'obj' and y[1][0] == 'init' and y[1][1][0] == 'f' and y[1][1][2] == 'std::pair::second' and PN + 'known_peers' in repr(y):
                            p = y
                for f in PBOND:
                    ok = f in both
                    if not ok and p is not None:
                        c = ('init', ('f', p, f))
                        ok = m.zero(e.facts, c) or any(x.kind == 'write' and x.obj == ('f', ('obj', c), PEERF) and m.zero(x.facts, x.args[0]) for x in pa.events[:i])
                    ctx.ob('removed', ok, e.where, 'the %s of a removed record still points to it' % short(f), path=pa, sig='removed:' + short(f))
    ctx.require(n, 'no record is ever removed')


def erases(e):
    return e.kind == 'call' and short(e.name) in ('erase', 'clear', 'extract') and e.obj and e.obj[0] == 'f' and e.obj[2] == PN + 'known_peers'


def sole(ctx, m, seen):
    for t in m.s.tasks:
        hit = [(pa, e) for pa in t.paths for e in pa.events if e.kind == 'icall' and e.name == PN + 'peer_cb']
        for pa, e in hit[:4]:
            ctx.ob('sole', t.lam is not None and t.lam[3] in seen, e.where, 'an announcement is made by %s' % t.label, path=pa, sig='sole:' + e.where)
