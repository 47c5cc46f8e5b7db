"""Requests: what they do to the record, client or connection they name."""
from .peers import *
TITLE = 'A request acts on the peer or client it names, or fails as documented'
RULES = {
    'posted': 'a request on a peer is handed to the dispatcher once',
    'missing': 'a request on an unregistered peer or client fails with that error and has no effect',
    'exists': 'adding a registered peer fails with that error and has no effect',
    'ready': 'connecting to a peer without an address fails with that error and has no effect',
    'other': 'a request fails for no other reason',
    'named': 'a request touches only the record registered under the given id',
    'add': 'a new peer is registered once, under its id, as a fresh, disconnected record',
    'del': 'a removed peer is unregistered once, its connections are terminated and it is not used afterwards',
    'addr': 'the address of the record becomes the one given',
    'conn': 'the attempts asked for are recorded and started, an established connection is reset',
    'query': 'a query answers with the state of the record',
    'send': 'a message goes exactly once to the connection of the peer or client, or to the one given',
    'result': 'the outcome of the send is returned, or a failed one reported',
    'all': 'a multicast sends to every peer listed',
    'queued': 'the message is serialised and written once to the connection; the outcome of the write is returned',
    'table': 'the client table maps an address to the newest connection from it and never to an ended one',
}
EXPLAIN = ('All paths of the requests of peer and client networks, with what they post to the dispatcher: the facts known on each path '
           '(registered or not, address set or not, state) against the effects of the path.')
ASSUME = ['an error thrown in a posted request is reported (C16)', 'cross-thread calls return what was set (C13)']
KP = PN + 'known_peers'
CN = NS + 'ClientNetwork::'
AC = CN + 'addr2conn'
SENDS = (NS + 'MsgNetwork::send_msg', NS + 'MsgNetwork::_send_msg')
CHANGE = ('insert', 'emplace', 'operator[]', 'erase', 'clear', 'extract', 'insert_or_assign', 'try_emplace', 'swap', 'operator=', 'merge')
TIMER = NS + 'TimerEvent::'


def check(ctx):
    m = Model(ctx)
    add(ctx, m)
    dele(ctx, m)
    addr(ctx, m)
    conn(ctx, m)
    query(ctx, m)
    send(ctx, m)
    multicast(ctx, m)
    queued(ctx, m)
    client(ctx)
    for r in RULES:
        ctx.need(r)


# ---------------------------------------------------------------- vocabulary
def body(ctx, m, name, which=None):
    """(function, paths of what it posts to the dispatcher)"""
    fs = [f for f in m.prog.fns(PN + name) if which is None or which(f)]
    ctx.require(len(fs) == 1, 'no single request ' + name)
    f = fs[0]
    out = None
    for q in m.it.run(f):
        ls = [lam_of(e) for e in q.events if lam_of(e) is not None and m.s.tcall_role(e.obj) == DISP]
        ctx.ob('posted', len(ls) == 1 and q.kind == 'ret', f.where, '%s is handed to the dispatcher %d times' % (name, len(ls)), path=q, sig=name)
        if ls:
            out = ls[0]
    ctx.require(out is not None, '%s posts nothing' % name)
    ps = m.it.run_lambda(out)
    ctx.note(f.qn, ps, m.it)
    return f, ps, out


def bare(v):
    while v and v[0] in ('st', 'loc'):
        v = v[1]
    return v


def key_of(v, f, i):
    loc = ('p', f.qn, f.params[i]['n'])
    return bare(v) in (loc, ('init', loc)) or v[0] == 'st' and v[1] in (('init', loc),)


def lookups(pa, facts, table=KP):
    """keys looked up in the table with what is known about them: [(key, True/False/None)]"""
    it = None
    out = []
    seen = set()
    for vp in list(facts):
        for x, _ in vp:
            for y in subterms(x):
                if y[0] == 'ap' and short(y[1]) in ('find', 'count') and y[2][0] == ('init', y[2][0][1]) and y[2][0][1][0] == 'f' and y[2][0][1][2] == table:
                    if y not in seen:
                        seen.add(y)
                        out.append(y)
    for e in pa.events:
        if e.kind == 'call' and short(e.name) in ('find', 'count') and e.obj and e.obj[0] == 'f' and e.obj[2] == table and e.res not in seen:
            seen.add(e.res)
            out.append(e.res)
    return out


def present(m, facts, x):
    if short(x[1]) == 'count':
        if m.nonzero(facts, x):
            return True
        return False if m.zero(facts, x) else None
    end = ('ap', 'end', (x[2][0],))
    if m.it.holds(facts, eq(x, end)):
        return False
    return True if m.it.holds(facts, pred_not(eq(x, end))) else None


def effects(m, pa, table=KP):
    out = []
    for e in pa.events:
        if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER) and not made(e.obj[1]):
            out.append(e)
        elif e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] in (PEERF, MANUAL) and not made(e.obj[1]):
            out.append(e)
        elif e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == table:
            out.append(e)
        elif e.kind in ('call', 'vcall'):
            if short(e.name) in CHANGE and e.obj and e.obj[0] == 'f' and e.obj[2] == table:
                out.append(e)
            elif e.name in SENDS + (NS + 'ConnPool::disp_terminate', NS + 'ConnPool::_connect', NS + 'ConnPool::Conn::write'):
                out.append(e)
            elif short(e.name) in ('add', 'del', 'clear') and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER) and not made(e.obj[1]):
                out.append(e)
            elif short(e.name) == 'set_result':
                out.append(e)
    return out


def made(p):
    return p[0] == 'obj' and p[1][0] == 's' and str(p[1][3]).startswith('new ')


def record(y):
    """the record a look-up leads to"""
    return ('obj', ('init', ('f', ('obj', y), 'std::pair::second')))


def records(pa):
    out = set()
    for e in pa.events:
        if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER):
            out.add(e.obj[1])
        elif e.kind in ('call', 'vcall') and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(PEER):
            out.add(e.obj[1])
    return {p for p in out if not made(p)}


def known(ctx, m, name, f, i, pa, w, missing=True):
    """what the path knows about the named record: True / False, with the look-up; reports if nothing"""
    ys = lookups(pa, pa.st.iv)
    mine = [y for y in ys if key_of(y[2][1], f, i)]
    ctx.ob('named', len(mine) == len(ys) and ys, w, '%s: a record is looked up under another id' % name, path=pa, sig=name + ':key')
    got = [(present(m, pa.st.iv, y), y) for y in mine]
    got.sort(key=lambda x: x[0] is None)
    if not got:
        return None, None
    has, y = got[0]
    return has, ('ap', 'find', y[2])


def only(ctx, m, name, pa, y, w):
    """only the record looked up is touched"""
    want = record(y) if y else None
    for p in records(pa):
        ctx.ob('named', p == want, w, '%s: another record may be touched' % name, path=pa, sig=name + ':rec')


def fails(ctx, m, rule, name, pa, code, w):
    er = m.raised(pa)
    ctx.ob(rule, er == [m.code(code)], w, '%s: the request fails with %s' % (name, [show(x) if x else '?' for x in er] or 'no error'), path=pa, sig='%s:%s' % (name, rule))
    ef = effects(m, pa)
    ctx.ob(rule, not ef, ef[0].where if ef else w, '%s: a request that fails has an effect (%s)' % (name, short(ef[0].name) if ef else ''), path=pa, sig='%s:%s:effect' % (name, rule))


def each(ctx, m, name, absent=True, which=None):
    """paths on which the named record exists, after checking the others"""
    f, ps, lam = body(ctx, m, name, which)
    n = 0
    for pa in ps:
        if pa.kind == 'backedge':
            continue
        w = f.where
        has, y = known(ctx, m, name, f, 0, pa, w)
        if any(e.kind == 'throw' and e.name != NS + 'PeerNetworkError' and e.name not in ERRN for e in pa.events):
            continue                     # an error of the system
        if has is None:
            ctx.ob('missing', not effects(m, pa), w, '%s: acts without knowing whether the peer is registered' % name, path=pa, sig=name + ':unknown')
            continue
        if has is False and absent:
            fails(ctx, m, 'missing', name, pa, 'PEER_NOT_EXIST', w)
            continue
        n += 1
        yield f, pa, has, y, w
    ctx.require(n, '%s never acts' % name)


ERRN = {NS + x for x in ('SalticidaeError', 'ConnPoolError', 'MsgNetworkError', 'PeerNetworkError', 'ClientNetworkError')}


def clean(ctx, m, name, pa, w):
    er = m.raised(pa)
    ctx.ob('other', not er, w, '%s: the request fails (%s) though the peer is there' % (name, ', '.join(show(x) if x else '?' for x in er)), path=pa, sig=name)
    return not er


# ---------------------------------------------------------------- requests
def add(ctx, m):
    for f, pa, has, y, w in each(ctx, m, 'add_peer', absent=False):
        if has:
            fails(ctx, m, 'exists', 'add_peer', pa, 'PEER_ALREADY_EXISTS', w)
            continue
        if not clean(ctx, m, 'add_peer', pa, w):
            continue
        ch = [e for e in pa.events if e.kind in ('call', 'vcall') and short(e.name) in CHANGE and e.obj and e.obj[0] == 'f' and e.obj[2] == KP]
        wr = [e for e in pa.events if e.kind == 'write' and e.obj and KP in repr(e.obj) and not e.obj[2].startswith(PEER)]
        key = val = None
        if len(ch) == 1:
            e = ch[0]
            v = vals(e)
            if short(e.name) == 'insert' and len(v) == 1 and v[0][0] == 'st':
                d = {k[2]: x for k, x in v[0][2]}
                key, val = d.get('std::pair::first'), d.get('std::pair::second')
            elif short(e.name) in ('emplace', 'insert_or_assign', 'try_emplace') and len(v) == 2:
                key, val = v
            elif short(e.name) == 'operator[]' and len(v) == 1 and len(wr) == 1:
                key, val = v[0], wr[0].args[0]
        elif not ch and len(wr) == 1:
            for x in subterms(wr[0].obj):
                if x[0] == 'ap' and short(x[1]) == 'operator[]' or x[0] == 'i':
                    key = x[2][1] if x[0] == 'ap' else x[2]
            val = wr[0].args[0]
        ok = key is not None and key_of(key, f, 0) and bare(val)[0] == 's' and str(bare(val)[3]).startswith('new ')
        ctx.ob('add', ok, w, 'add_peer: the record is not registered once under the id given', path=pa, sig='add:reg')
        if not ok:
            continue
        p = ('obj', bare(val))
        ctx.ob('add', m.zero(pa.st.iv, m.cell(pa, ('f', p, PEER + 'state'))), w, 'add_peer: the new peer is not disconnected', path=pa, sig='add:state')
        ctx.ob('add', key_of(m.cell(pa, ('f', p, PEER + 'id')), f, 0), w, 'add_peer: the new record has another id', path=pa, sig='add:id')
        ctx.ob('add', all(m.zero(pa.st.iv, m.cell(pa, ('f', p, PEER + x))) for x in ('inbound_conn', 'outbound_conn', 'ntry', 'cur_ntry', 'inbound_preempt_ping')), w,
               'add_peer: the new record has connections or attempts', path=pa, sig='add:fresh')
        c = m.cell(pa, ('f', p, PEER + 'conn'))
        ctx.ob('add', c[0] == 's' and str(c[3]).startswith('new ') and any(
            e.kind == 'atomic' and e.obj == ('f', ('obj', c), CONN + 'terminated') and e.name != 'load' and e.args and C(1) in e.args for e in pa.events), w,
            'add_peer: the connection of a peer not yet connected is not an ended one', path=pa, sig='add:conn')
        ctx.ob('add', not m.terminates(pa) and not m.sent(pa), w, 'add_peer: something is terminated or sent', path=pa, sig='add:quiet')


def dele(ctx, m0):
    fields = {PEER + x['n'] for x in m0.prog.rec_by_qn[NS + 'PeerNetwork::Peer']['fields']}
    m = Model(ctx, it=Interp(ctx.prog, Config(resolve=m0.s.resolve, extra_opaque=OPAQUE, max_states=20000, split=True, reads=fields)))
    for f, pa, has, y, w in each(ctx, m, 'del_peer'):
        if not clean(ctx, m, 'del_peer', pa, w):
            continue
        only(ctx, m, 'del_peer', pa, y, w)
        rest = [y] if y[1] != 'count' else []
        ch = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'call' and short(e.name) in CHANGE and e.obj and e.obj[0] == 'f' and e.obj[2] == KP]
        ok = len(ch) == 1 and short(ch[0][1].name) in ('erase', 'extract') and (vals(ch[0][1])[0] in rest or key_of(vals(ch[0][1])[0], f, 0))
        ctx.ob('del', ok, w, 'del_peer: the record is not removed from the table once', path=pa, sig='del:erase')
        if not ok:
            continue
        i, e = ch[0]
        p = record(y)
        if short(e.name) == 'erase':
            late = [x for x in pa.events[i:] if x.kind in ('access', 'write', 'call') and x.obj and any(s == p for s in subterms(x.obj))]
            ctx.ob('del', not late, late[0].where if late else w, 'del_peer: the record is used after its removal', path=pa, sig='del:late')
        for fl in ('conn', 'inbound_conn', 'outbound_conn'):
            c = ('init', ('f', p, PEER + fl))
            n = len(m.terminates(pa, c))
            if fl == 'conn':
                ctx.ob('del', n >= 1, w, 'del_peer: the connection of the peer is not terminated', path=pa, sig='del:conn')
            elif not m.zero(pa.st.iv, c):
                ctx.ob('del', n >= 1, w, 'del_peer: the %s of the peer is not terminated' % fl, path=pa, sig='del:' + fl)
        for x in m.terminates(pa):
            v = vals(x)[0]
            ctx.ob('del', v[0] == 'init' and v[1][0] == 'f' and v[1][1] == p, x.where, 'del_peer: another connection is terminated', path=pa, sig='del:other')


def addr(ctx, m):
    for f, pa, has, y, w in each(ctx, m, 'set_peer_addr'):
        if not clean(ctx, m, 'set_peer_addr', pa, w):
            continue
        only(ctx, m, 'set_peer_addr', pa, y, w)
        p = record(y)
        src = ('p', f.qn, f.params[1]['n'])
        ok = True
        for g in ('ip', 'port'):
            v = m.cell(pa, ('f', ('f', p, PEER + 'addr'), NS + 'NetAddr::' + g))
            ok = ok and v == ('init', ('f', src, NS + 'NetAddr::' + g))
        whole = m.cell(pa, ('f', p, PEER + 'addr'))
        ok = ok or bare(whole) == ('init', src) and not any(len(k) == 3 and k[0] == 'f' and k[1] == ('f', p, PEER + 'addr') for k in pa.st.cells)
        ctx.ob('addr', ok, w, 'set_peer_addr: the address of the record is not the one given', path=pa, sig='addr')
        ef = [e for e in effects(m, pa) if not (e.kind == 'write' and PEER + 'addr' in repr(e.obj))]
        ctx.ob('addr', not ef, ef[0].where if ef else w, 'set_peer_addr: something else is changed', path=pa, sig='addr:other')


def conn(ctx, m):
    for f, pa, has, y, w in each(ctx, m, 'conn_peer'):
        p = record(y)
        fl = lambda n: ('f', p, PEER + n)
        cell = lambda n: m.cell(pa, fl(n))
        facts = pa.st.iv
        if m.addr_null(facts, fl('addr')):
            fails(ctx, m, 'ready', 'conn_peer', pa, 'PEER_NOT_READY', w)
            continue
        ctx.ob('ready', any(m.nonzero(facts, ('init', ('f', fl('addr'), NS + 'NetAddr::' + g))) for g in ('ip', 'port')), w,
               'conn_peer: acts without knowing whether the peer has an address', path=pa, sig='ready:known')
        if not clean(ctx, m, 'conn_peer', pa, w):
            continue
        only(ctx, m, 'conn_peer', pa, y, w)
        nt = ('init', ('p', f.qn, f.params[1]['n']))
        dl = ('init', ('p', f.qn, f.params[2]['n']))
        for g, v in (('ntry', nt), ('cur_ntry', nt), ('retry_delay', dl)):
            ctx.ob('conn', cell(g) == v, w, 'conn_peer: %s is not what was asked for' % g, path=pa, sig='conn:' + g)
        for g in ('nonce', 'inbound_conn', 'outbound_conn'):
            ctx.ob('conn', m.zero(facts, cell(g)), w, 'conn_peer: the %s of an earlier attempt is kept' % g, path=pa, sig='conn:' + g)
        adds = [e for e in pa.events if e.kind == 'call' and e.name == TIMER + 'add' and e.obj == fl('ev_retry_timer')]
        st = ('init', fl('state'))
        disc, con = m.zero(facts, st), m.same(facts, st, CONNECTED)
        idle = m.nonzero(facts, st) and m.differ(facts, st, CONNECTED) or disc and m.zero(facts, nt)
        ts = m.terminates(pa)
        if con:
            ctx.ob('conn', len(ts) == 1 and vals(ts[0])[0] == ('init', fl('conn')), w, 'conn_peer: the established connection is not terminated', path=pa, sig='conn:term')
            ctx.ob('conn', m.differ(facts, cell('state'), CONNECTED) and not adds, w, 'conn_peer: an established connection is not reset first', path=pa, sig='conn:reset')
        elif idle:
            ctx.ob('conn', not ts and not adds, w, 'conn_peer: acts though there is nothing to do', path=pa, sig='conn:idle')
        else:
            ok = disc and m.nonzero(facts, nt)
            ctx.ob('conn', ok, w, 'conn_peer: the state of the peer is not considered', path=pa, sig='conn:state')
            ctx.ob('conn', len(adds) == 1, w, 'conn_peer: the first attempt is not scheduled once', path=pa, sig='conn:sched')
            ctx.ob('conn', not ts, w, 'conn_peer: a connection is terminated though none is established', path=pa, sig='conn:noterm')
        if not con:
            ctx.ob('conn', cell('state') == st, w, 'conn_peer: the state of a peer that is not connected is changed', path=pa, sig='conn:keep')


def answered(ctx, m, name):
    """the value answered is what the caller gets"""
    f = m.prog.fns(PN + name)[0]
    for q in m.it.run(f):
        g = [e for e in q.events if e.kind == 'call' and e.name == NS + 'ThreadCall::call']
        r = q.ret
        ok = len(g) == 1 and r is not None and any(x[0] == 's' and x[3] == 'get' for x in subterms(r)) and r[0] == 'init' and r[1][0] == 'obj'
        ctx.ob('query', ok, f.where, '%s: the answer of the dispatcher is not what is returned' % name, path=q, sig=name + ':ret')


def query(ctx, m):
    for f, pa, has, y, w in each(ctx, m, 'get_peer_conn'):
        if not clean(ctx, m, 'get_peer_conn', pa, w):
            continue
        ef = effects(m, pa)
        ok = len(ef) == 1 and short(ef[0].name) == 'set_result' and bare(vals(ef[0])[0]) in (('init', ('f', record(y), PEER + 'conn')), ('f', record(y), PEER + 'conn'))
        ctx.ob('query', ok, w, 'get_peer_conn: the answer is not the connection of the record', path=pa, sig='get_peer_conn')
    answered(ctx, m, 'get_peer_conn')
    f, ps, lam = body(ctx, m, 'has_peer')
    for pa in ps:
        if pa.kind == 'backedge':
            continue
        ef = effects(m, pa)
        has, y = known(ctx, m, 'has_peer', f, 0, pa, f.where)
        ok = len(ef) == 1 and short(ef[0].name) == 'set_result' and y is not None and pa.kind == 'ret'
        if ok:
            v = vals(ef[0])[0]
            both = [there(('ap', n, y[2])) for n in ('find', 'count')]
            for want in (True, False):
                st = pa.st.clone()
                if all(m.it.assume(st, pr if want else pred_not(pr)) for pr in both):
                    ok = ok and (m.nonzero(st.iv, v) if want else m.zero(st.iv, v))
        ctx.ob('query', ok, f.where, 'has_peer: the answer is not whether the peer is registered', path=pa, sig='has_peer')
    answered(ctx, m, 'has_peer')


def there(y):
    if short(y[1]) == 'count':
        return truth(y)
    return pred_not(eq(y, ('ap', 'end', (y[2][0],))))


def sendev(pa):
    return [e for e in pa.events if e.kind in ('call', 'vcall') and e.name in SENDS]


def msg_is(v, f, i=0):
    """v is the message given as parameter i, whole"""
    loc = ('p', f.qn, f.params[i]['n'])
    if v in (('init', loc), loc, ('loc', loc)):
        return True
    if v[0] == 'st':
        return all(x == ('init', ('f', loc, k[2])) for k, x in v[2] if k[0] == 'f' and k[1] == ('x',)) and (v[2] or v[1] == ('init', loc))
    return False


def send(ctx, m):
    for name in ('_send_msg', '_send_msg_deferred'):
        fs = m.prog.fns(PN + name)
        ctx.require(len(fs) == 1, 'no single ' + name)
        f = fs[0]
        if name == '_send_msg':
            ps = m.it.run(f)
            ctx.note(f.qn, ps, m.it)
        else:
            f, ps, lam = body(ctx, m, name)
        w = f.where
        sent_paths(ctx, m, name, f, ps, w)
    # through a connection handle
    fs = m.prog.fns(NS + 'MsgNetwork::_send_msg_deferred')
    ctx.require(len(fs) == 1, 'no single deferred send on a connection')
    f = fs[0]
    for q in m.it.run(f):
        ls = [lam_of(e) for e in q.events if lam_of(e) is not None and m.s.tcall_role(e.obj) == DISP]
        ctx.ob('posted', len(ls) == 1 and q.kind == 'ret', f.where, 'a deferred send is handed to the dispatcher %d times' % len(ls), path=q, sig='deferred')
        for l in ls[:1]:
            ps = m.it.run_lambda(l)
            ctx.note(f.qn, ps, m.it)
            for pa in ps:
                if pa.kind == 'backedge':
                    continue
                sv = sendev(pa)
                ok = len(sv) == 1 and msg_is(vals(sv[0])[0], f) and key_of(vals(sv[0])[1], f, 1)
                ctx.ob('send', ok, f.where, 'a deferred message is not sent once on the connection given', path=pa, sig='deferred:conn')
                if sv:
                    outcome(ctx, m, 'deferred', pa, sv[0].res, f.where)


def outcome(ctx, m, name, pa, res, w):
    er = m.raised(pa)
    if m.zero(pa.st.iv, res):
        ctx.ob('result', er == [m.code('CONN_NOT_READY')], w, '%s: a message that was not queued is not reported' % name, path=pa, sig=name + ':lost')
    else:
        ctx.ob('result', not er and m.nonzero(pa.st.iv, res), w, '%s: the outcome of the send is not considered' % name, path=pa, sig=name + ':ok')


def sent_paths(ctx, m, name, f, ps, w):
    n = 0
    for pa in ps:
        if pa.kind == 'backedge':
            continue
        has, y = known(ctx, m, name, f, 1, pa, w)
        if has is None:
            ctx.ob('missing', not effects(m, pa) and m.raised(pa), w, '%s: acts without knowing whether the peer is registered' % name, path=pa, sig=name + ':unknown')
            continue
        if has is False:
            fails(ctx, m, 'missing', name, pa, 'PEER_NOT_EXIST', w)
            continue
        n += 1
        sv = sendev(pa)
        ok = len(sv) == 1 and vals(sv[0])[1] == ('init', ('f', record(y), PEER + 'conn')) and msg_is(vals(sv[0])[0], f)
        ctx.ob('send', ok, w, '%s: the message is not sent once on the connection of the peer' % name, path=pa, sig=name + ':conn')
        ef = [e for e in effects(m, pa) if e not in sv]
        ctx.ob('send', not ef, w, '%s: a send has another effect' % name, path=pa, sig=name + ':effect')
        if not sv:
            continue
        if name == '_send_msg':
            ctx.ob('result', pa.kind == 'ret' and returns(m, pa, sv[0].res), w, 'the outcome of the send is not returned', path=pa, sig=name + ':ret')
        else:
            outcome(ctx, m, name, pa, sv[0].res, w)
    ctx.require(n, '%s never sends' % name)


def returns(m, pa, res):
    r = pa.ret
    if r == res:
        return True
    if r is None:
        return False
    for pr, want in ((truth(res), True), (pred_not(truth(res)), False)):
        st = pa.st.clone()
        if m.it.assume(st, pr) and not (m.nonzero(st.iv, r) if want else m.zero(st.iv, r)):
            return False
    return True


# ---------------------------------------------------------------- multicast
def multicast(ctx, m):
    f, ps, lam = body(ctx, m, '_multicast_msg')
    w = f.where
    pids = ('p', f.qn, f.params[1]['n'])
    back = [pa for pa in ps if pa.kind == 'backedge']
    inits = {}
    for pa in ps:
        for e in pa.events:
            if e.kind == 'loop':
                for l, v in e.x['entry'].items():
                    inits.setdefault((e.x['site'], l), set()).add(v)
    n = 0
    for pa in ps:
        ys = lookups(pa, pa.st.iv)
        sv = sendev(pa)
        er = m.raised(pa)
        for y in ys:
            k = bare(y[2][1])
            el = k[0] == 'init' and k[1][0] == 'i' and k[1][1] == pids or walk(k, inits, pids) is not None
            ctx.ob('named', el, w, 'a multicast looks up an id that is not listed', path=pa, sig='multicast:key')
        got = [(present(m, pa.st.iv, y), y) for y in ys]
        if any(h is False for h, _ in got):
            ctx.ob('missing', er == [m.code('PEER_NOT_EXIST')] and pa.kind == 'ret', w, 'a multicast to an unregistered peer is not reported as such', path=pa, sig='multicast:missing')
            continue
        for e in sv:
            ok = any(h and vals(e)[1] == ('init', ('f', record(y), PEER + 'conn')) for h, y in got) and msg_is(vals(e)[0], f)
            ctx.ob('send', ok, w, 'a multicast does not go to the connection of a listed peer', path=pa, sig='multicast:conn')
        if pa.kind == 'backedge':
            n += 1
            ctx.ob('all', len(sv) == 1, w, 'a multicast sends %d times to a peer listed' % len(sv), path=pa, sig='multicast:once')
            continue
        ctx.ob('all', not sv, w, 'a multicast ends after a send, leaving out the rest', path=pa, sig='multicast:rest')
        good = tracked(ctx, m, pa, back, inits)
        if er:
            ctx.ob('result', er == [m.code('CONN_NOT_READY')] and good is False, w, 'a multicast fails without a failed send', path=pa, sig='multicast:fail')
        else:
            ctx.ob('result', good is True, w, 'a failed send of a multicast may go unreported', path=pa, sig='multicast:ok')
        counted(ctx, m, pa, back, inits, pids, w)
    ctx.require(n, 'a multicast never sends')


def tracked(ctx, m, pa, back, inits):
    """a flag carried through the loop that says whether all sends succeeded: True all did / False one failed / None unknown"""
    for (site, l), vs in inits.items():
        h = ('h', site, l)
        z, nz = m.zero(pa.st.iv, h), m.nonzero(pa.st.iv, h)
        if not z and not nz or len(vs) != 1:
            continue
        v0 = list(vs)[0]
        ok_true = m.nonzero({}, v0)             # polarity: the flag is set while all is well
        good = True
        for b in back:
            sv = sendev(b)
            v = m.cell(b, l)
            for e in sv:
                cases = []
                for r in (True, False):
                    for a in (True, False):
                        st = b.st.clone()
                        if m.it.assume(st, truth(e.res) if r else pred_not(truth(e.res))) and m.it.assume(st, truth(h) if a else pred_not(truth(h))):
                            bad = (not r) or (a != ok_true)
                            want = ok_true != bad
                            good = good and ((value(m, st.iv, v) is want) or want and not ok_true and v == lin_add(h, C(1)))
        if good:
            return (nz if ok_true else z)
    return None


def value(m, facts, v):
    """truth value of v under facts, through bitwise operations on truth values"""
    if m.zero(facts, v):
        return False
    if m.nonzero(facts, v):
        return True
    if v[0] == 'op' and v[1] in ('&', '|') and len(v) == 4:
        a, b = value(m, facts, v[2]), value(m, facts, v[3])
        if v[1] == '&':
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None
    return None


def walk(k, inits, pids):
    """the iterator over the list that the key is read through"""
    if k[0] == 'init' and k[1][0] == 'obj' and k[1][1][0] == 'h':
        h = k[1][1]
        if all(v[0] == 'ap' and short(v[1]) in ('begin', 'cbegin') and v[2][0] == ('init', pids) for v in inits.get((h[1], h[2]), {('null',)})):
            return h
    return None


def counted(ctx, m, pa, back, inits, pids, w):
    """a loop over indices covers the whole list"""
    for b in back:
        for y in lookups(b, b.st.iv):
            k = bare(y[2][1])
            if k[0] == 'init' and k[1][0] == 'i' and k[1][2][0] == 'h':
                ix = k[1][2]
                start = inits.get((ix[1], ix[2]), set())
                step = m.cell(b, ix[2])
                size = ('ap', 'size', (('init', pids),))
                ok = start == {C(0)} and m.same(b.st.iv, step, lin_add(ix, C(1))) and m.it.holds(pa.st.iv, le(size, ix))
                ctx.ob('all', ok, w, 'a multicast may leave out a peer listed', path=b, sig='multicast:index')
            elif walk(k, inits, pids) is not None:
                h = walk(k, inits, pids)
                ok = m.same(b.st.iv, m.cell(b, h[2]), lin_add(h, C(1))) and any(
                    m.same(pa.st.iv, h, ('ap', n, (('init', pids),))) for n in ('end', 'cend'))
                ctx.ob('all', ok, w, 'a multicast may leave out a peer listed', path=b, sig='multicast:iter')
            elif k[0] == 'init' and k[1][0] == 'i' and k[1][2][0] == 's' and k[1][2][3] == 'elem':
                ctx.ob('all', True, w, 'all elements', sig='multicast:elem')


# ---------------------------------------------------------------- write
def queued(ctx, m):
    f = m.prog.fns(NS + 'MsgNetwork::_send_msg')
    ctx.require(len(f) == 1, 'no single send on a connection')
    f = f[0]
    it = Interp(ctx.prog, Config(resolve=m.s.resolve, extra_opaque={NS + 'MsgBase::serialize', NS + 'ConnPool::Conn::write'} | ERRS, split=True))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        if pa.kind == 'backedge':
            continue
        ser = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'MsgBase::serialize' and e.obj == m.param(f, 0)]
        wr = [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == NS + 'ConnPool::Conn::write']
        ok = len(wr) == 1 and wr[0].obj == ('obj', ('init', m.param(f, 1))) and any(vals(wr[0])[0] == e.res for e in ser)
        ctx.ob('queued', ok, f.where, 'the serialised message is not written once to the connection', path=pa, sig='queued')
        if wr:
            ctx.ob('queued', pa.kind == 'ret' and returns(m, pa, wr[0].res), f.where, 'the outcome of the write is not returned', path=pa, sig='queued:ret')


# ---------------------------------------------------------------- clients
def client(ctx):
    s = ctx.system('ClientNetwork')
    it = Interp(ctx.prog, Config(resolve=s.resolve, extra_opaque=OPAQUE, split=True))
    mm = Model.__new__(Model)
    mm.ctx, mm.prog, mm.s, mm.it, mm.quiet = ctx, ctx.prog, s, it, False
    for name in ('_send_msg', '_send_msg_deferred'):
        fs = ctx.prog.fns(CN + name)
        ctx.require(len(fs) == 1, 'no single client ' + name)
        f = fs[0]
        ps = it.run(f)
        if name == '_send_msg_deferred':
            ls = []
            for q in ps:
                l = [lam_of(e) for e in q.events if lam_of(e) is not None and s.tcall_role(e.obj) == DISP]
                ctx.ob('posted', len(l) == 1 and q.kind == 'ret', f.where, 'a deferred send to a client is handed over %d times' % len(l), path=q, sig='client:deferred')
                ls += l
            ctx.require(ls, 'a deferred send to a client is not handed over')
            ps = it.run_lambda(ls[0])
        ctx.note(f.qn, ps, it)
        n = 0
        for pa in ps:
            if pa.kind == 'backedge':
                continue
            ys = lookups(pa, pa.st.iv, AC)
            mine = [y for y in ys if key_of(y[2][1], f, 1)]
            ctx.ob('named', ys and len(mine) == len(ys), f.where, 'a client is looked up under another address', path=pa, sig='client:key')
            got = [present(mm, pa.st.iv, y) for y in mine]
            sv = sendev(pa)
            er = mm.raised(pa)
            if False in got:
                ctx.ob('missing', er == [mm.code('CLIENT_NOT_EXIST')] and not sv, f.where, 'a send to an unknown client does not fail as such', path=pa, sig='client:missing')
                continue
            y = mine[got.index(True)] if True in got else None
            ok = len(sv) == 1 and y is not None and vals(sv[0])[1] == ('init', ('f', ('obj', y), 'std::pair::second')) and msg_is(vals(sv[0])[0], f)
            ctx.ob('send', ok, f.where, 'the message is not sent once on the connection of the client', path=pa, sig='client:conn')
            n += 1
            if not sv:
                continue
            if name == '_send_msg':
                ctx.ob('result', pa.kind == 'ret' and returns(mm, pa, sv[0].res), f.where, 'the outcome of the send is not returned', path=pa, sig='client:ret')
            else:
                outcome(ctx, mm, 'client', pa, sv[0].res, f.where)
        ctx.require(n, 'nothing is ever sent to a client')
    table(ctx, mm)


def table(ctx, m):
    tab = None
    for name, setup in (('on_dispatcher_setup', True), ('on_dispatcher_teardown', False)):
        fs = ctx.prog.fns(CN + name)
        ctx.require(len(fs) == 1, 'no single client ' + name)
        f = fs[0]
        ps = m.it.run(f)
        ctx.note(f.qn, ps, m.it)
        conn = ('init', m.param(f, 0))
        want = ('f', ('obj', conn), CONN + 'addr')
        for pa in ps:
            if pa.kind != 'ret':
                continue
            cur = None                    # what is known of the entry of the address: 'gone', 'mine', None
            bad = None
            for e in pa.events:
                if not (e.kind == 'call' and e.obj and e.obj[0] == 'f' and e.obj[2] == AC and short(e.name) in CHANGE):
                    if e.kind == 'write' and e.obj and AC in repr(e.obj):
                        v = e.args[0]
                        cur = 'mine' if v == conn else 'other'
                    continue
                v = vals(e)
                k = None
                if short(e.name) in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                    if len(v) == 1 and v[0][0] == 'st':
                        d = {x[2]: y for x, y in v[0][2] if x[0] == 'f' and x[1] == ('x',)}
                        k, val = d.get('std::pair::first'), d.get('std::pair::second')
                        if k is None:
                            k = next((y for x, y in v[0][2] if 'first' in repr(x)), None)
                            first = [y for x, y in v[0][2] if 'std::pair::first' in repr(x)]
                    elif len(v) == 2:
                        k, val = v
                    else:
                        k = val = None
                    if not key_addr(k, want, v):
                        bad = 'an entry is made under another address'
                    elif val != conn:
                        bad = 'an entry is made for another connection'
                    elif short(e.name) == 'insert_or_assign' or cur == 'gone' or absent(m, e.facts, want):
                        cur = 'mine'
                elif short(e.name) == 'erase':
                    k = v[0]
                    if key_addr(k, want, v):
                        cur = 'gone' if setup or owned(m, e.facts, want, conn) else 'lost'
                    elif k[0] == 'ap' and short(k[1]) == 'find' and key_addr(k[2][1], want, v):
                        cur = 'gone' if setup or owned(m, e.facts, want, conn) else 'lost'
                    else:
                        bad = 'an entry of another address is removed'
                elif short(e.name) == 'operator[]':
                    if not key_addr(v[0], want, v):
                        bad = 'an entry is made under another address'
                else:
                    bad = 'the table is changed by %s' % short(e.name)
            if bad is None:
                if setup and cur != 'mine':
                    bad = 'a new connection may not be found under its address'
                if not setup and cur == 'lost':
                    bad = 'the entry of a newer connection is removed'
                if not setup and cur is None and not (absent(m, pa.st.iv, want) or foreign(m, pa.st.iv, want, conn)):
                    bad = 'an ended connection may stay in the table'
            ctx.ob('table', bad is None, f.where, '%s: %s' % (name, bad or ''), path=pa, sig=name)


def key_addr(k, want, v):
    if k is None:
        return False
    k = bare(k)
    return k in (want, ('init', want))


def finds(m, facts, want):
    for vp in facts:
        for x, _ in vp:
            for y in subterms(x):
                if y[0] == 'ap' and short(y[1]) in ('find', 'count') and AC in repr(y[2][0]) and key_addr(y[2][1], want, None):
                    yield y


def absent(m, facts, want):
    return any(present(m, facts, y) is False for y in finds(m, facts, want))


def owned(m, facts, want, conn):
    return any(present(m, facts, y) and m.same(facts, ('init', ('f', ('obj', y), 'std::pair::second')), conn) for y in finds(m, facts, want))


def foreign(m, facts, want, conn):
    return any(present(m, facts, y) and m.differ(facts, ('init', ('f', ('obj', y), 'std::pair::second')), conn) for y in finds(m, facts, want))
