"""Socket interest never loses a direction of a live connection."""
from .common import *
TITLE = 'A live connection never stops watching a direction it still needs'
EXPLAIN = ('For every abstract path of every worker task (socket callbacks, queue handlers, timers, posted tasks) the interest '
           'mask last given to the socket event is compared with the two readiness flags as the path leaves them: a direction '
           'may be unwatched only while its ready flag is set, since the flag is what the resume paths test; the resume '
           'paths (new outgoing data, buffer drained) are checked to re-watch and to run the I/O function.')
RULES = {'watch': 'at the end of a worker task a direction is unwatched only if its ready flag is set (or the I/O function is run at once)',
         'not-watched': 'a callback that gives up waiting (flag cleared) leaves its direction watched',
         'send-resume': 'new outgoing data on a ready connection re-watches writing and runs the send function',
         'accept-watch': 'an established connection is watched for both directions once the user accepted it',
         'event-dispatch': 'the socket event runs the receive function on readability and the send function otherwise'}
ASSUME = ['level-triggered readiness events; FdEvent::add replaces the mask (C15)']
R, W = 1, 2
EVS = CONN + 'ev_socket'


def flag(it, pa, conn, name, upto=None):
    """value of a readiness flag: 1, 0 or None (unknown)"""
    v = None
    for e in pa.events:
        if e is upto:
            break
        if e.kind == 'write' and e.obj == ('f', conn, CONN + name):
            v = e.args[0]
    if v is None:
        v = ('init', ('f', conn, CONN + name))
    facts = upto.facts if upto is not None else pa.st.iv
    if it.holds(facts, truth(v)):
        return 1
    if it.holds(facts, pred_not(truth(v))):
        return 0
    return None


def check(ctx):
    handshake = set()
    for net in ('MsgNetwork', 'PeerNetwork'):
        s = ctx.system(net)
        posts = Posts(s.interp)
        io = {f: set(v[2] for v in s.fields.get(CONN + f, ()) if v[0] == 'fn') for f in ('recv_data_func', 'send_data_func')}
        for t in s.tasks:
            if t.role != WORKER:
                continue
            for pa in t.paths:
                task(ctx, s, t, pa, posts, io)
        resume(ctx, s)
    per_function(ctx)
    ctx.need('watch', 6)
    ctx.need('not-watched', 4)
    ctx.need('send-resume', 2)
    ctx.need('accept-watch', 2)
    ctx.need('event-dispatch', 2)


def masks(pa):
    """connection -> [(event, mask or None)] for del/add on its socket event"""
    res = {}
    for e in pa.events:
        if e.kind == 'call' and e.obj and e.obj[0] == 'f' and e.obj[2] == EVS and short(e.name) in ('add', 'del', 'clear'):
            m = e.x['vals'][0] if short(e.name) == 'add' else C(0)
            res.setdefault(e.obj[1], []).append((e, m[1] if m[0] == 'c' else None))
    return res


def ended(pa, posts):
    return any(posts.terminates(e) or claim(e) for e in pa.events) or \
        any(e.kind == 'call' and short(e.name) == 'clear' and e.obj and e.obj[0] == 'f' and e.obj[2] == EVS for e in pa.events)


def task(ctx, s, t, pa, posts, io):
    it = s.interp
    if pa.kind not in ('ret', 'backedge'):
        return
    ms = masks(pa)
    if not ms or ended(pa, posts):
        return
    hs = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'do_handshake']
    for conn, l in ms.items():
        e, m = l[-1]
        ctx.require(m is not None, 'interest mask at %s is not a constant on each path' % e.where)
        if hs:
            continue        # hand-shake stage: decided by C18
        rest = pa.events[pa.events.index(e) + 1:]
        run_rx = any(x.kind == 'icall' and x.name == CONN + 'recv_data_func' for x in rest)
        run_tx = any(x.kind == 'icall' and x.name == CONN + 'send_data_func' for x in rest)
        for bit, name, run, word in ((R, 'ready_recv', run_rx, 'readability'), (W, 'ready_send', run_tx, 'writability')):
            if m & bit:
                ctx.ob('watch', True, e.where, '', pa)
                continue
            fl = flag(it, pa, conn, name)
            ctx.ob('watch', fl == 1, e.where, 'the connection is no longer watched for %s though it is not marked ready' % word,
                   pa, sig='%s:%s' % (short(t.label), name))
    # a connection whose event object was just made must be watched or handed on


def per_function(ctx):
    """callbacks that keep the current mask: the direction they serve is watched on entry, so its flag must be clear on exit"""
    for qn, roles, it, ps in run_io(ctx):
        rx = any(is_io(e, RECV) for pa in ps for e in pa.events)
        tx = any(is_io(e, SEND) for pa in ps for e in pa.events)
        if not rx and not tx:
            continue
        posts = Posts(it)
        for pa in ps:
            if pa.kind != 'ret' or ended(pa, posts):
                continue
            ms = masks(pa)
            conn = next((e.obj[1] for e in pa.events if e.kind in ('write', 'call') and e.obj and e.obj[0] == 'f' and e.obj[2].startswith(CONN)), None)
            ctx.require(conn is not None, 'connection not found in ' + qn)
            where = pa.events[-1].where
            if ms:
                e, m = ms[conn][-1]
                ctx.require(m is not None, 'interest mask at %s is not a constant on each path' % e.where)
                for bit, name in ((R, 'ready_recv'), (W, 'ready_send')):
                    if not m & bit:
                        ctx.ob('watch', flag(it, pa, conn, name) == 1, e.where, 'a direction is unwatched though it is not marked ready', pa,
                               sig='%s:%s' % (short(qn), name))
                # the other direction's flag is not ours to change
            else:
                name = 'ready_recv' if rx else 'ready_send'
                # watched on entry; leaving the flag set would make a later mask update drop the direction
                ctx.ob('not-watched', flag(it, pa, conn, name) == 0, where,
                       'the callback waits for the next event but leaves its direction marked ready', pa, sig='%s:%s' % (short(qn), name))
            other = 'ready_send' if rx else 'ready_recv'
            wr = [e for e in pa.events if e.kind == 'write' and e.obj == ('f', conn, CONN + other)]
            ctx.ob('not-watched', not wr, where, 'the callback changes the ready flag of the other direction', pa, sig='%s:other' % short(qn))


def resume(ctx, s):
    it = s.interp
    for t in s.tasks:
        if t.role != WORKER or t.lam is None:
            continue
        # handler of a send queue: lambda registered through reg_handler on a send buffer queue
        for pa in t.paths:
            tx = [e for e in pa.events if e.kind == 'icall' and e.name == CONN + 'send_data_func']
            rx = [e for e in pa.events if e.kind == 'icall' and e.name == CONN + 'recv_data_func']
            if t.parent is not None and t.parent.kind == 'call' and t.parent.name.endswith('reg_handler') and \
                    any(x[0] == 'f' and x[2] == CONN + 'send_buffer' for x in subterms(t.parent.obj)):
                conn = None
                for e in pa.events:
                    if e.obj and e.obj[0] == 'f' and e.obj[2] in (EVS, CONN + 'send_data_func'):
                        conn = e.obj[1]
                if conn is None:
                    fl = [x for vp in pa.st.iv for x, _ in vp if x[0] == 'init' and field_of(x[1]) == 'ready_send']
                    ok = bool(fl) and it.holds(pa.st.iv, pred_not(truth(fl[0])))
                    ctx.ob('send-resume', ok, t.where, 'new outgoing data on a connection that may be ready is not sent', pa, sig=s.net)
                else:
                    ms = masks(pa).get(conn, [])
                    ok = bool(tx) and (not ms or bool((ms[-1][1] or 0) & W))
                    if ok and not ms:
                        ok = False
                    ctx.ob('send-resume', ok, t.where, 'new outgoing data does not re-watch writing and run the send function', pa, sig=s.net + ':run')
            # the socket event itself
            if t.parent is not None and t.parent.kind == 'call' and t.parent.name == NS + 'FdEvent::(ctor)' and (tx or rx):
                what = [x for vp in pa.st.iv for x, _ in vp if x[0] == 'op' and x[1] == '&' and x[3] == C(R)]
                ok = bool(what) and len(tx) + len(rx) == 1
                if ok:
                    ok = it.holds(pa.st.iv, truth(what[0])) if rx else it.holds(pa.st.iv, pred_not(truth(what[0])))
                ctx.ob('event-dispatch', ok, t.where, 'readability and writability are not dispatched to the matching function', pa, sig=s.net)
                a = (rx or tx)[0].args
                ctx.ob('event-dispatch', len(a) == 3 and bool(what) and a[2] == what[0][2], t.where, 'the I/O function is run with wrong arguments', pa, sig=s.net + ':args')
        # task posted by the user loop after the connection was accepted by the user
        if t.parent is not None and t.prole == USER and t.parent.kind == 'call' and 'async_call' in t.parent.name:
            adds = [(pa, c, l) for pa in t.paths for c, l in masks(pa).items()]
            if not adds:
                continue
            posts = Posts(it)
            for pa in t.paths:
                if pa.kind != 'ret' or ended(pa, posts):
                    continue
                ms = masks(pa)
                gone = any(x[0] == 's' and 'load' in x[3] or (x[0] == 'init' and field_of(x[1]) == 'terminated') for vp in pa.st.iv for x, _ in vp
                           if it.holds(pa.st.iv, truth(x)))
                for conn, l in ms.items():
                    if any(e.kind == 'call' and short(e.name) == 'do_handshake' for e in pa.events):
                        continue
                    if any(e.kind == 'call' and e.name == NS + 'FdEvent::(ctor)' for e in pa.events):
                        continue        # TLS hand-shake start: decided by C18
                    ctx.ob('accept-watch', (l[-1][1] or 0) & 3 == 3, l[-1][0].where,
                           'an accepted connection is not watched for both directions', pa, sig=s.net + short(t.label))
                if not ms:
                    ctx.ob('accept-watch', gone, t.where, 'an accepted, live connection is not watched', pa, sig=s.net + ':none')
