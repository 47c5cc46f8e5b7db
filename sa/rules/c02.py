"""Internal state is touched only by its owning thread or under its lock."""
from .common import *
TITLE = 'Internal connection and peer state is free of data races'
EXPLAIN = ('Ownership and lockset analysis over all thread-role tasks: every access (read, write, method call, alias) to a '
           'field of the ownership table is checked against the role of the task it occurs in, the locks held there, and the '
           'hand-over points (object created on this path, connection not yet given to a worker, connection already removed '
           'from the pool after its worker let go of it, all threads joined).')
RULES = {'worker-owned': 'connection I/O state is accessed only by the worker serving the connection, or before/after it was handed over',
         'dispatcher-owned': 'connection pool and peer bookkeeping is accessed only by the dispatcher, or after all threads were joined',
         'user-owned': 'the handler table is accessed only from the user loop and API calls',
         'table-read': 'a table shared with the user thread is read by it only under its lock',
         'table-write': 'a shared table or a shared peer connection is changed only under the exclusive lock',
         'single-consumer': 'the consumer end of a queue is used by one thread only',
         'atomic': 'a flag or counter shared between threads has an atomic type',
         'relock': 'no thread acquires a library lock it already holds'}
ASSUME = ['API functions that register callbacks are called before start() or on the user loop']
P = NS + 'PeerNetwork::'
POOL = NS + 'ConnPool::pool'
WORKER_OWNED = {CONN + x for x in ('ev_socket', 'recv_buffer', 'ready_send', 'ready_recv', 'send_data_func', 'recv_data_func', 'tls')} | \
    {NS + 'MsgNetwork::Conn::' + x for x in ('msg', 'msg_state', 'msg_sleep', 'ev_enqueue_poll')} | {P + 'Conn::ev_timeout'}
DISP_OWNED = {POOL, NS + 'ConnPool::ev_listen', NS + 'ConnPool::listen_fd', CONN + 'ev_connect', P + 'pending_peers', P + 'Conn::peer'} | \
    {P + 'Peer::' + x for x in ('addr', 'nonce', 'retry_delay', 'ntry', 'cur_ntry', 'ev_retry_timer', 'chosen_conn', 'inbound_conn', 'outbound_conn',
                                'ev_ping_timer', 'ping_timer_ok', 'pong_msg_ok', 'inbound_preempt_ping', 'state')}
USER_OWNED = {NS + 'MsgNetwork::handler_map'}
# table -> (lock, thread that may read without the lock because it is the only one that changes it)
TABLES = {P + 'known_peers': ('known_peers_lock', DISP), NS + 'ClientNetwork::addr2conn': ('addr2conn_lock', None)}
PCONN = P + 'Peer::conn'
READ_ONLY = {'find', 'count', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'at', 'contains', 'equal_range', 'bucket_count'}
ALL = frozenset(WORKER_OWNED | DISP_OWNED | USER_OWNED | set(TABLES) | {PCONN})
QUEUES = ('incoming_msgs', 'send_buffer')
ATOMICS = [(CONN, 'terminated'), (NS + 'ConnPool::', 'async_id'), (NS + 'ConnPool::Worker::', 'nconn')]


def bases(l):
    while l[0] in ('f', 'i'):
        l = l[1]
        yield l


def after_join(it, evs, i):
    """the access comes after the threads were joined, or when they were never started"""
    if any(e.kind == 'call' and short(e.name) == 'join' and 'thread' in e.name for e in evs[:i]):
        return True
    for vp, iv in evs[i].facts.items():
        if len(vp) == 1 and vp[0][0][0] == 'init' and field_of(vp[0][0][1]) == 'system_state':
            if it.holds(evs[i].facts, pred_not(eq(vp[0][0], C(1)))):
                return True
    return False


def no_worker(it, facts, conn):
    for vp in facts:
        if len(vp) == 1 and vp[0][0][0] == 'init' and vp[0][0][1][0] == 'f' and vp[0][0][1][2] == CONN + 'worker':
            if it.holds(facts, pred_not(truth(vp[0][0]))):
                return True
    return False


def is_terminated(it, evs, i):
    """the connection whose queue is consumed is known to be finished: its terminated flag was seen set, or it is the last
    connection of a peer that is known to be disconnected"""
    e = evs[i]
    conn = next((x for x in bases(e.obj) if x[0] == 'obj'), None)
    preds = [truth(x.args[0]) if x.args[0][0] not in ('in', 'ne', 'not', 'c') else x.args[0] for x in evs[:i] if x.kind == 'assert']
    for x in evs[:i]:
        if x.kind == 'atomic' and x.obj == ('f', conn, CONN + 'terminated') and x.res is not None:
            if it.holds(e.facts, truth(x.res)) or truth(x.res) in preds:
                return True
    if conn and conn[1][0] == 'init' and conn[1][1][0] == 'f' and conn[1][1][2] == PCONN:
        st = ('init', ('f', conn[1][1][1], P + 'Peer::state'))
        return it.holds(e.facts, eq(st, C(0))) or eq(st, C(0)) in preds
    return False


def let_go(s, t, chain, cache):
    """the task was posted only by workers that had claimed this connection for teardown"""
    if t.lam is None:
        return False
    for d, n, k, cv in t.lam[4]:
        if ('obj', cv) not in chain:
            continue
        key = (t.lam[3], n)
        if key not in cache:
            ps = posters(s, t)
            cache[key] = bool(ps) and all(u.role == WORKER and any(c[1] == n and won_before(s.interp, pa.events, i, ('obj', c[3]), pa.st.iv)
                                                                   for c in v[4]) for pa, i, e, v, u in ps)
        if cache[key]:
            return True
    return False


def owner_of(q):
    return q.rsplit('::', 1)[0]


def check(ctx):
    for fld_ in ALL:
        c = owner_of(fld_)
        if c in ctx.prog.rec_by_qn and ctx.prog.field(c, short(fld_)) is None:
            ctx.require(False, 'field %s of the ownership table is gone' % fld_)
    for c, f in ATOMICS:
        d = ctx.prog.field(c[:-2], f)
        ctx.require(d is not None, 'shared flag %s%s not found' % (c, f))
        ctx.ob('atomic', 'atomic' in str(d.get('t', '')), short(c[:-2]) + '::' + f, '%s is shared between threads but is not atomic (%s)' % (f, d.get('t')))
    seen = set()
    cons = {}
    for net in ('MsgNetwork', 'ClientNetwork', 'PeerNetwork'):
        s = ctx.system(net, reads=ALL)
        fed = {}
        for t in s.tasks:
            for pa in t.paths:
                task(ctx, s, t, pa, seen, cons, fed)
    for q, uses in cons.items():
        for r, w, pa, ok in uses:
            ctx.ob('single-consumer', ok, w, 'the consumer end of %s is used by the %s thread' % (q, r), pa, sig='%s:%s' % (q, r))
    ctx.need('worker-owned', 40)
    ctx.need('dispatcher-owned', 40)
    ctx.need('table-read', 4)
    ctx.need('table-write', 6)
    ctx.need('single-consumer', 3)


def task(ctx, s, t, pa, seen, cons, fed):
    it = s.interp
    evs = pa.events
    fresh = {('obj', e.res) for e in evs if e.kind == 'new' and e.res is not None}
    for i, e in enumerate(evs):
        if e.kind == 'lock':
            held = [l for l in e.locks if l[1] == e.obj]
            # the event's lock set already includes the lock being taken
            ctx.ob('relock', len(held) <= 1, e.where, 'a lock is acquired by a thread that already holds it', pa, sig=e.fn)
        if e.kind == 'call' and short(e.name) in ('try_dequeue', 'rewind') and e.obj is not None:
            q = next((short(x[2]) for x in [e.obj] + list(bases(e.obj)) if x[0] == 'f' and short(x[2]) in QUEUES), None)
            if q is None and e.obj[0] in ('obj', 'v', 'p') and t.parent is not None and t.parent.name.endswith('reg_handler'):
                q = next((short(x[2]) for x in [t.parent.obj] + list(bases(t.parent.obj)) if x[0] == 'f' and short(x[2]) in QUEUES), None)
            if q:
                want = USER if q == 'incoming_msgs' else WORKER
                ok = t.role == want or after_join(it, evs, i)
                if not ok and q == 'send_buffer' and t.role == DISP:
                    ok = is_terminated(it, evs, i)
                cons.setdefault(q, []).append((t.role, e.where, pa, ok))
        if e.kind not in ('access', 'write', 'call'):
            continue
        name = e.name if e.kind == 'access' else (e.obj[2] if e.obj and e.obj[0] == 'f' else None)
        if name not in ALL:
            continue
        b = list(bases(e.obj))
        isfresh = any(x in fresh for x in b)
        key = (s.net, t.label, t.role, e.kind, name, e.where, e.locks, isfresh)
        what = short(name)
        sig = '%s:%s:%s' % (what, t.role, short(e.fn) if '<lambda>' not in e.fn else e.fn.split('::', 1)[-1])
        if name in WORKER_OWNED:
            ok = t.role == WORKER or t.role == INIT or isfresh or after_join(it, evs, i)
            if not ok and t.role == DISP:
                ok = no_worker(it, e.facts, None) or let_go(s, t, b, fed)
            if key in seen and ok:
                continue
            seen.add(key)
            ctx.ob('worker-owned', ok, e.where, "%s of a connection is accessed by the %s thread (task %s) while a worker may be using it" % (what, t.role, t.label),
                   pa, sig=sig)
        elif name in DISP_OWNED:
            ok = t.role in (DISP, INIT) or isfresh or after_join(it, evs, i)
            if key in seen and ok:
                continue
            seen.add(key)
            ctx.ob('dispatcher-owned', ok, e.where, '%s is accessed by the %s thread (task %s)' % (what, t.role, t.label), pa, sig=sig)
        elif name in USER_OWNED:
            ok = t.role in (USER, INIT, STOP)
            if key in seen and ok:
                continue
            seen.add(key)
            ctx.ob('user-owned', ok, e.where, '%s is accessed by the %s thread (task %s)' % (what, t.role, t.label), pa, sig=sig)
        else:
            lock, free = TABLES.get(name) or TABLES[P + 'known_peers']
            held = {l[0] for l in e.locks if l[1][0] == 'f' and short(l[1][2]) == lock}
            change = e.kind == 'write' or (e.kind == 'call' and short(e.name) not in READ_ONLY and not e.name.endswith('(ctor)'))
            if name == PCONN and e.kind == 'call' and short(e.name) not in ('operator=', 'swap', 'reset'):
                change = False
            ok = isfresh or t.role == INIT or after_join(it, evs, i)
            if change and not ok:
                ok = 'x' in held
            elif not ok:
                ok = bool(held) or t.role == free
            if key in seen and ok:
                continue
            seen.add(key)
            ctx.ob('table-write' if change else 'table-read', ok, e.where, '%s is %s by the %s thread without %s (task %s)' %
                   (what, 'changed' if change else 'read', t.role, 'the exclusive lock' if change else 'its lock', t.label), pa, sig=sig)
