"""Peers: who may become a peer's connection, and how two sides that connect to each other agree on one."""
from .peers import *
TITLE = 'Only a handshake under the registered identity makes a peer connected'
RULES = {
    'posted': 'a handshake message is handled once, by the dispatcher',
    'known': 'a peer becomes connected only as the record found in the peer table under the id of the connection',
    'identity': 'the id is derived from the connection: from its certificate, or from the address if identities are address-based',
    'alive': 'the connection is known not to be terminated',
    'direction': 'an inbound connection is accepted by a ping, an outbound one by a pong, and no other',
    'free': 'the peer is known to be disconnected',
    'address': 'an outbound connection is accepted only from the address on record',
    'other': 'an attempt made for another peer is not accepted',
    'choice': 'of two crossing connections the one initiated by the side with the smaller nonce is kept',
    'bound': 'the connection accepted becomes the peer\'s and knows its peer',
    'reply': 'an inbound handshake is answered with the nonce it was compared to',
    'reject': 'a handshake that is not accepted leaves the peer as it is and its connection is terminated where it is of no use',
    'unknown': 'a handshake from an unregistered id is reported to the user once with its claimed address and certificate and its connection is terminated',
    'preempt': 'a handshake for a connected peer is kept for later and the old connection terminated',
    'hello': 'an outbound connection is greeted with this side\'s address and the nonce of the record, or refused',
    'nonce': 'the nonce of an attempt is drawn from the checked random source and never zero',
    'sole': 'nothing else makes a peer connected',
    'digest': 'the id is the hash of the address or of the certificate',
}
EXPLAIN = ('All paths of the functions the ping and pong handlers post to the dispatcher and of the set-up of a connection; '
           'the facts established on a path before the peer is marked connected must imply the rule.')
ASSUME = ['the certificate of a connection was verified as configured (TLS set-up)', 'look-ups in the peer table return the record stored under the key']


def check(ctx):
    m = Model(ctx)
    lams = set()
    for msg, mode in (('MsgPing', C(1)), ('MsgPong', C(0))):
        conn, ml, ps, w, l = m.handler(msg)
        lams.add(l[3])
        n = 0
        for pa in ps:
            ev = [(i, e) for i, e in m.writes(pa, PEER + 'state') if e.args[0] != DISC]
            for i, e in ev:
                n += 1
                connect(ctx, m, msg, mode, conn, ml, pa, i, e)
            if pa.kind == 'ret' and not ev:
                refuse(ctx, m, msg, mode, conn, ml, pa, w)
            if pa.kind == 'ret' and ev:
                replied(ctx, m, msg, conn, pa, w, ev[0][1].obj[1])
        ctx.require(n, 'the %s handler never makes a peer connected' % msg)
    for t in m.s.tasks:
        for pa in t.paths:
            for i, e in m.writes(pa, PEER + 'state'):
                if e.args[0] not in (DISC, RESET):
                    own = t.lam is not None and t.lam[3] in lams
                    ctx.ob('sole', own, e.where, 'a peer is marked connected by %s, which handles no handshake' % t.label, path=pa, sig=e.where)
    hello(ctx, m)
    nonce(ctx, m)
    digest(ctx, m)
    for r in RULES:
        ctx.need(r)


def nonce_at(m, pa, p):
    return m.cell(pa, ('f', p, PEER + 'nonce'))


def chosen(m, facts, msg, ml, nv, p):
    """the connection is the one to keep"""
    mn = ('init', ('f', ml, PN + 'MsgPing::nonce'))
    if msg == 'MsgPing':
        return m.it.holds(facts, lt(mn, nv)) or m.addr_null(facts, ('f', p, PEER + 'addr'))
    return m.it.holds(facts, lt(nv, mn))


def connect(ctx, m, msg, mode, conn, ml, pa, i, e):
    facts, w = e.facts, e.where
    sig = msg
    p = e.obj[1]
    key = m.looked_up(facts, p)
    ctx.ob('known', key is not None, w, '%s: the peer is not known to be registered' % msg, path=pa, sig=sig)
    if key is not None:
        kind, what = m.id_of(pa, key)
        ba = m.by_address(facts)
        if kind == 'cert':
            ok = ba is False and what == ('obj', conn)
        elif kind == 'addr':
            want = ('f', ml, PN + 'MsgPing::claimed_addr') if msg == 'MsgPing' else ('f', ('obj', conn), CONN + 'addr')
            ok = ba is True and what == want
        else:
            ok = False
        ctx.ob('identity', ok, w, '%s: the peer is looked up by an id made from %s%s' % (msg, kind, '' if ba is not None else ' whatever the identity mode'),
               path=pa, sig=sig)
    alive = any(x.kind == 'atomic' and x.name == 'load' and x.obj == ('f', ('obj', conn), CONN + 'terminated') and m.zero(facts, x.res) for x in pa.events[:i])
    ctx.ob('alive', alive, w, '%s: the connection may have been terminated' % msg, path=pa, sig=sig)
    ctx.ob('direction', m.same(facts, ('init', ('f', ('obj', conn), CONN + 'mode')), mode), w, '%s: the direction of the connection is not known' % msg, path=pa, sig=sig)
    first = [x for j, x in m.writes(pa, PEER + 'state', p)][0] is e
    ctx.ob('free', first and m.zero(facts, ('init', ('f', p, PEER + 'state'))), w, '%s: the peer may be connected already' % msg, path=pa, sig=sig)
    if msg == 'MsgPong':
        pad, cad, mad = ('f', p, PEER + 'addr'), ('f', ('obj', conn), CONN + 'addr'), ('f', ml, PN + 'MsgPing::claimed_addr')
        two = [m.addr_same(facts, pad, cad), m.addr_same(facts, pad, mad), m.addr_same(facts, cad, mad)]
        ctx.ob('address', sum(two) >= 2, w, 'the address of the connection, of the record or the one claimed may differ', path=pa, sig=sig)
        cp = ('init', ('f', ('obj', conn), PEERF))
        ctx.ob('other', m.zero(facts, cp) or p[0] == 'obj' and m.same(facts, cp, p[1]), w, 'the connection may be an attempt made for another peer', path=pa, sig=sig)
    else:
        ctx.ob('direction', m.nonzero(facts, ('init', ('f', ml, PN + 'MsgPing::nonce'))), w, 'a ping without a nonce (of a connection made by a user) is accepted',
               path=pa, sig=sig + ':nonce')
    ctx.ob('choice', chosen(m, facts, msg, ml, nonce_at(m, pa, p), p), w, '%s: the connection kept is not the one initiated by the side with the smaller nonce' % msg,
           path=pa, sig=sig)
    if pa.kind != 'ret':
        return
    end = lambda l: m.cell(pa, l)
    for ok, what in ((end(('f', p, PEER + 'state')) == CONNECTED, 'state of the peer'),
                     (end(('f', p, PEER + 'conn')) == conn, 'connection of the peer'),
                     (p[0] == 'obj' and end(('f', ('obj', conn), PEERF)) == p[1], 'peer of the connection'),
                     (m.zero(pa.st.iv, end(('f', ('obj', conn), MANUAL))), 'manual flag of the connection')):
        ctx.ob('bound', ok, w, '%s: the %s is left wrong' % (msg, what), path=pa, sig=sig + ':' + what)
    ctx.ob('bound', not m.terminates(pa, conn), w, '%s: the connection accepted is terminated' % msg, path=pa, sig=sig + ':term')


def replied(ctx, m, msg, conn, pa, w, p):
    hs = [x for x in m.sent(pa) if x[1] == 'MsgPong' and x[2]]
    if msg == 'MsgPing':
        ok = len(hs) == 1 and hs[0][3] == conn and len(hs[0][2]) == 2 and is_listen(hs[0][2][0]) and hs[0][2][1] in nonces(m, pa, p)
        ctx.ob('reply', ok, w, 'an inbound handshake is not answered once with this side\'s address and nonce', path=pa, sig='reply')


def nonces(m, pa, p):
    """values of the nonce of the record on the path (drawing it twice needs a zero draw, which the nonce rule excludes)"""
    l = ('f', p, PEER + 'nonce')
    return {('init', l)} | {e.args[0] for _, e in m.writes(pa, PEER + 'nonce', p)}


def is_listen(v):
    return v[0] == 'init' and v[1][0] == 'f' and v[1][2] == PN + 'listen_addr'


def peer_writes(pa):
    return [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER)]


def refuse(ctx, m, msg, mode, conn, ml, pa, w):
    """paths on which the handshake is not accepted"""
    facts = pa.st.iv
    caught = any(e.kind == 'catch' for e in pa.events)
    term = m.terminates(pa, conn)
    others = [e for e in m.terminates(pa) if vals(e)[0] != conn]
    hs = [x for x in m.sent(pa) if x[2]]
    if caught:
        return
    loads = [x for x in pa.events if x.kind == 'atomic' and x.name == 'load' and x.obj == ('f', ('obj', conn), CONN + 'terminated')]
    for x in loads:
        if m.nonzero(facts, x.res):
            ctx.ob('reject', not peer_writes(pa) and not hs, w, '%s: a message of a terminated connection has an effect' % msg, path=pa, sig=msg + ':dead')
            return
    claimed = ('f', ml, PN + 'MsgPing::claimed_addr')
    if m.addr_null(facts, claimed):
        return                           # heartbeat
    if m.differ(facts, ('init', ('f', ('obj', conn), CONN + 'mode')), mode):
        ctx.ob('reject', not peer_writes(pa) and not hs, w, '%s: a message over a connection of the wrong direction has an effect' % msg, path=pa, sig=msg + ':dir')
        return
    nf = m.not_found(facts)
    posts = [(i, e, m.invokes(q, PN + 'unknown_peer_cb')) for i, e, q in m.user_posts(pa)]
    reports = [(i, e, r) for i, e, r in posts if any(n for _, n, _ in r)]
    if nf is not None:
        ctx.ob('reject', len(term) == 1 and not others and not peer_writes(pa) and not hs, w,
               '%s: the connection of an unregistered peer is not terminated, or it has another effect' % msg, path=pa, sig=msg + ':nf')
        if msg == 'MsgPing':
            ok = len(reports) == 1
            if ok:
                for q, n, unset in reports[0][2]:
                    ok = ok and len(n) == (0 if unset else 1) and q.kind == 'ret'
                    for x in n:
                        ok = ok and len(x.args) == 2 and vals(x)[0] == ('init', claimed) and is_cert(vals(x)[1], conn)
            ctx.ob('unknown', ok, w, 'the handshake of an unregistered peer is not reported once with its address and certificate', path=pa, sig='unknown')
        return
    ctx.ob('unknown', not reports, w, '%s: a registered peer is reported as unknown' % msg, path=pa, sig='unknown:reg')
    key = [vals(e)[0] for e in pa.events if e.kind == 'call' and short(e.name) == 'find' and e.obj and e.obj[0] == 'f' and e.obj[2] == PN + 'known_peers']
    rec = the_record(m, pa, facts)
    if rec is None:
        ctx.ob('reject', not peer_writes(pa) and (msg != 'MsgPing' or not hs), w, '%s: a handshake has an effect without a record' % msg, path=pa, sig=msg + ':norec')
        return
    p = rec
    state = ('init', ('f', p, PEER + 'state'))
    if msg == 'MsgPing':
        mn = ('init', ('f', ml, PN + 'MsgPing::nonce'))
        if m.zero(facts, mn):
            ctx.ob('reject', not peer_writes(pa) and not m.terminates(pa), w, 'a ping without a nonce has an effect', path=pa, sig='ping:manual')
            return
        if m.same(facts, state, CONNECTED):
            old = ('init', ('f', p, PEER + 'conn'))
            pre = m.cell(pa, ('f', p, PEER + 'inbound_preempt_ping'))
            made = [e for e in pa.events if e.kind == 'call' and e.name == PN + 'MsgPing::(ctor)' and any(v == ('init', ml) for v in vals(e))]
            ok = len(m.terminates(pa, old)) == 1 and not term and m.cell(pa, ('f', p, PEER + 'inbound_conn')) == conn and pre[0] == 's'
            ctx.ob('preempt', ok, w, 'a new inbound handshake of a connected peer is not kept while the old connection is terminated', path=pa, sig='preempt')
            ctx.ob('preempt', m.cell(pa, ('f', p, PEER + 'state')) in (state, CONNECTED), w, 'the state of a connected peer is changed by a handshake', path=pa, sig='preempt:state')
            return
        if not m.zero(facts, state):
            ctx.ob('reject', not peer_writes(pa) and not m.terminates(pa), w, 'a handshake has an effect while the peer is being reset', path=pa, sig='ping:reset')
            return
        replied(ctx, m, msg, conn, pa, w, p)
        ctx.ob('reject', len(term) == 1, w, 'an inbound connection that loses against the other one is not terminated', path=pa, sig='ping:lost')
        ctx.ob('choice', m.it.holds(facts, le(nonce_at(m, pa, p), mn)) or nonce_redrawn(m, pa, p), w,
               'an inbound connection is refused though it is the one to keep', path=pa, sig='ping:lost')
        return
    # an outbound handshake
    if not m.zero(facts, state) or not touched(m, pa, p):
        ctx.ob('reject', not peer_writes(pa) and not hs, w, 'a pong that does not match the record has an effect', path=pa, sig='pong:nomatch')
        return
    mn = ('init', ('f', ml, PN + 'MsgPing::nonce'))
    ctx.ob('reject', len(term) == 1, w, 'an outbound connection that loses against the other one is not terminated', path=pa, sig='pong:lost')
    ctx.ob('choice', m.it.holds(facts, le(mn, nonce_at(m, pa, p))), w, 'an outbound connection is refused though it is the one to keep', path=pa, sig='pong:lost')


def nonce_redrawn(m, pa, p):
    """the nonce was drawn twice on the path: infeasible, a drawn nonce is not zero"""
    return len(m.writes(pa, PEER + 'nonce', p)) > 1


def touched(m, pa, p):
    return bool(peer_writes(pa)) or bool(m.terminates(pa))


def the_record(m, pa, facts):
    for vp in facts:
        for x, _ in vp:
            for y in subterms(x):
                if y[0] == 'obj' and y[1][0] == 'init' and y[1][1][0] == 'f' and y[1][1][2] == 'std::pair::second' and PN + 'known_peers' in repr(y):
                    return y
    return None


def is_cert(v, conn):
    return ('f', ('obj', conn), CONN + 'peer_cert') in set(subterms(v)) or any(
        y[0] == 'f' and y[2] == CONN + 'peer_cert' and y[1] == ('obj', conn) for y in subterms(v))


def hello(ctx, m):
    fs = m.prog.fns(PN + 'on_dispatcher_setup')
    ctx.require(len(fs) == 1, 'set-up of a connection not found')
    f = fs[0]
    conn = ('init', m.param(f, 0))
    ps = m.it.run(f)
    ctx.note(f.qn, ps, m.it)
    for pa in ps:
        if pa.kind == 'backedge':
            continue
        facts, w = pa.st.iv, f.where
        hs = [x for x in m.sent(pa)]
        mode = ('init', ('f', ('obj', conn), CONN + 'mode'))
        if m.same(facts, mode, C(0)):
            nf = m.not_found(facts)
            man = ('init', ('f', ('obj', conn), MANUAL))
            cp = ('init', ('f', ('obj', conn), PEERF))
            if pa.kind == 'throw':
                c = m.raised(pa)
                ctx.ob('hello', len(c) == 1 and c[0] in (m.code('PEER_NOT_MATCH'), m.code('RAND_SOURCE')), w,
                       'an outbound connection is refused with another error', path=pa, sig='hello:code')
                ctx.ob('hello', not hs and (nf is None or m.zero(facts, man)), w, 'an outbound connection is greeted and refused', path=pa, sig='hello:throw')
                continue
            ok = len(hs) == 1 and hs[0][1] == 'MsgPing' and hs[0][3] == conn and hs[0][2] and len(hs[0][2]) == 2 and is_listen(hs[0][2][0])
            ctx.ob('hello', ok, w, 'an outbound connection is not greeted once with this side\'s address', path=pa, sig='hello')
            if not ok:
                continue
            nv = hs[0][2][1]
            if nf is not None:
                ctx.ob('hello', nv == C(0) and m.nonzero(facts, man), w, 'an outbound connection to an unregistered peer is not refused', path=pa, sig='hello:nf')
                kind, what = m.id_of(pa, nf[2][1])
            else:
                recs = [y for y in subterms(nv) if y[0] == 'obj']
                p = the_record_of(m, pa)
                ctx.ob('hello', p is not None and nv in nonces(m, pa, p), w, 'the nonce sent is not the one of the record', path=pa, sig='hello:nonce')
                key = m.looked_up(facts, p) if p is not None else None
                ctx.ob('hello', key is not None, w, 'the record is not known to be registered', path=pa, sig='hello:known')
                kind, what = m.id_of(pa, key) if key is not None else ('?', None)
                ctx.ob('other', p is not None and (m.zero(facts, cp) or m.same(facts, cp, p[1])), w, 'an attempt made for another peer is greeted as this one\'s',
                       path=pa, sig='hello:other')
            ba = m.by_address(facts)
            ctx.ob('identity', kind == 'cert' and ba is False and what == ('obj', conn) or kind == 'addr' and ba is True and what == ('f', ('obj', conn), CONN + 'addr'),
                   w, 'the peer is looked up by an id made from %s' % kind, path=pa, sig='hello')
        elif m.differ(facts, mode, C(0)):
            ctx.ob('hello', not hs and pa.kind == 'ret', w, 'an inbound connection is greeted', path=pa, sig='hello:in')


def the_record_of(m, pa):
    l = the_record(m, pa, pa.st.iv)
    if l is not None:
        return l
    for e in pa.events:
        for v in [e.obj] + list(vals(e) or ()):
            if v is None or not isinstance(v, tuple):
                continue
            for y in subterms(v):
                if y[0] == 'obj' and y[1][0] == 'init' and y[1][1][0] == 'f' and y[1][1][2] == 'std::pair::second' and PN + 'known_peers' in repr(y):
                    return y
    return None


def nonce(ctx, m):
    """a nonce of zero is replaced by a random one, never zero, and a failure of the random source is an error"""
    fs = [f for f in m.prog.methods_of(NS + 'PeerNetwork::Peer') if f.ret and 'uint32' in str(f.ret) or f.qn.endswith('get_nonce')]
    ctx.require(fs, 'the nonce of a record is not found')
    f = fs[0]
    me = ('obj', ('this',))
    nl = ('f', me, PEER + 'nonce')
    for pa in m.it.run(f):
        if pa.kind == 'backedge':
            continue
        facts, w = pa.st.iv, f.where
        r = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'RAND_bytes']
        if pa.kind == 'throw':
            ctx.ob('nonce', any(m.zero(facts, e.res) or m.it.holds(facts, le(e.res, C(0))) for e in r), w, 'the nonce is refused without a failure of the random source', path=pa, sig='nonce:throw')
            continue
        if m.zero(facts, ('init', nl)):
            ok = len(r) == 1 and (m.nonzero(facts, r[0].res)) and vals(r[0])[1][0] == 'c' and vals(r[0])[1][1] >= 2
            ctx.ob('nonce', ok, w, 'the nonce is not drawn from the random source with its result checked', path=pa, sig='nonce:rand')
            v = m.cell(pa, nl)
            d, c = as_lin(v) if v[0] in ('lin', 'c', 's', 'h', 'init') else ({}, 0)
            ctx.ob('nonce', c == 1 and all(k > 0 for k in d.values()) or m.nonzero(facts, v), w, 'a nonce drawn may be zero', path=pa, sig='nonce:zero')
            ctx.ob('nonce', bool(d), w, 'a nonce drawn is not random', path=pa, sig='nonce:const')
        ctx.ob('nonce', pa.ret == m.cell(pa, nl), w, 'the nonce returned is not the one of the record', path=pa, sig='nonce:ret')


def digest(ctx, m):
    it = Interp(m.prog, Config(extra_opaque=OPAQUE - {NS + 'PeerId::(ctor)'} | {NS + 'get_hash', NS + 'X509::get_der'}, max_states=2000))
    n = 0
    for f in m.prog.methods_of(NS + 'PeerId'):
        if f.kind != 'ctor' or f.copy or f.move or len(f.params) != 1:
            continue
        t = f.params[0].get('tr')
        if t not in (NS + 'NetAddr', NS + 'X509'):
            continue
        n += 1
        arg = m.param(f, 0)
        for pa in it.run(f):
            if pa.kind == 'backedge':
                continue
            h = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'get_hash']
            ok = len(h) == 1 and pa.kind == 'ret'
            if ok and t == NS + 'NetAddr':
                ok = vals(h[0])[0] in (('init', arg), arg, ('loc', arg))
            elif ok:
                d = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'X509::get_der']
                ok = len(d) == 1 and d[0].obj == arg and (vals(h[0])[0] == d[0].res or d[0].res in set(subterms(vals(h[0])[0])))
            ctx.ob('digest', ok, f.where, 'an id is not the hash of its %s' % short(t), path=pa, sig=t)
    ctx.require(n == 2, 'constructors of an id not found')
