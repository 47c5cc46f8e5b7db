"""Received bytes: nothing lost, back-pressure pauses and resumes."""
from .common import *
from .msgpath import on_read_paths, retry_timers, QUEUE, MSG, STATE
TITLE = 'Received bytes are kept in order and back-pressure always resumes'
EXPLAIN = ('Typestate over every abstract path of every function a connection can be given as its receive callback, of the '
           'message reader, and of its queue-full retry timer: every byte count the transport reports is appended to the '
           'receive buffer, every non-terminating exit has offered the buffer to the reader, reading is paused only when '
           'the buffer is known full, and each pause leaves a flag/timer that a checked path resumes from.')
RULES = {'recv-bounds': 'the transport is given a buffer with room for the length passed',
         'recv-append': 'the received prefix, and only it, is appended once before the next receive or the exit',
         'recv-eof': 'end of stream and hard errors terminate the connection, would-block does not',
         'recv-offer': 'every non-terminating exit offers the buffered bytes to the reader after the last append',
         'recv-drain': 'a TLS receive callback returns only when the transport has no more data, or the buffer is full',
         'recv-pause': 'reading is paused only when the buffer is known to be at its limit, and the pause is remembered',
         'recv-limit': 'no receive is issued while the buffer may be at its limit',
         'reader-exit': 'the reader stops only for lack of bytes, a full message queue, or an error',
         'reader-full': 'a full message queue suspends the reader, keeps the message, and arms the retry timer',
         'reader-sleep': 'a suspended reader does nothing until the retry timer resumes it',
         'reader-resume': 'a paused connection with room in its buffer resumes receiving',
         'retry': 'the retry timer re-offers the held message; on success it wakes the reader, otherwise it re-arms',
         'queue-bound': 'received messages never exceed the configured queue capacity'}
ASSUME = ['the event loop reports readiness level-triggered', 'a message fits in the configured receive buffer']


def check(ctx):
    n = 0
    for qn, roles, it, ps in run_io(ctx):
        if 'recv_data_func' not in roles or not any(is_io(e, RECV) for pa in ps for e in pa.events):
            continue
        n += 1
        posts = Posts(it)
        for pa in ps:
            receiver(ctx, short(qn), it, posts, pa, any(e.name == NS + 'TLS::recv' for x in ps for e in x.events))
    ctx.require(n >= 2, 'plain and TLS receive functions not found')
    ctx.need('recv-append', 2)
    reader(ctx)
    retry(ctx)


def buf_room(b, n):
    """buffer content b is known to have exactly n bytes"""
    a = ap(b, 'resize')
    if a:
        return a[1] == n
    if b[0] == 'ap' and b[1].endswith('(ctor)') and b[2]:
        return b[2][0] == n
    return False


def receiver(ctx, sg, it, posts, pa, tls):
    facts = pa.st.iv
    io = buf = None
    pushed = offered = False
    term = any(posts.terminates(e) for e in pa.events)
    nrecv = 0
    paused = False

    def settle(where):
        if io is None:
            return
        r = io.res
        if it.holds(facts, le(r, C(0))):
            ctx.ob('recv-append', not pushed, where, 'bytes are appended though nothing was received', pa, sig=sg + ':none')
            return
        known = it.holds(facts, lt(C(0), r))
        ctx.ob('recv-append', (pushed and known) or (term and not known), where,
               'received bytes are not appended to the buffer' if not pushed else 'bytes are appended though the receive may have failed',
               pa, sig=sg)
    for e in pa.events:
        if is_io(e, RECV):
            settle(e.where)
            io, pushed, offered = e, False, False
            nrecv += 1
            ptr, n = io_args(e)
            buf = ptr[2][0] if ptr[0] == 'ap' and short(ptr[1]) in ('data',) else None
            ctx.ob('recv-bounds', buf is not None and buf_room(buf, n), e.where, 'receive into %s of length %s' % (show(ptr)[:80], show(n)), pa, sig=sg)
            # the buffer is known not to be full
            ok = any(vp_len(vp) and it.holds(e.facts, p) for vp in e.facts for p in [not_full(vp)] if p is not None)
            ctx.ob('recv-limit', ok, e.where, 'a receive is issued without checking that the buffer has room', pa, sig=sg)
        elif e.kind == 'call' and fld(e) == 'recv_buffer' and short(e.name) in ('push', 'rewind', 'pop', 'move_pop', 'clear'):
            v = e.x['vals'][0] if e.x and e.x.get('vals') else None
            ok = short(e.name) == 'push' and io is not None and not pushed and v is not None and is_prefix(v, buf, io.res)
            ctx.ob('recv-append', ok, e.where, 'what is appended is not exactly the received bytes (%s)' % (show(v)[:100] if v else '?'), pa, sig=sg + ':bytes')
            pushed, offered = True, False
        elif e.kind == 'vcall' and short(e.name) == 'on_read':
            offered = True
        elif e.kind == 'write' and fld(e) == 'ready_recv':
            paused = e.args[0] == C(1)
            if paused:
                full = any(vp_len(vp) and it.holds(e.facts, pred_not(p)) for vp in e.facts for p in [not_full(vp)] if p is not None)
                ctx.ob('recv-pause', full, e.where, 'reading is paused though the buffer is not known to be full', pa, sig=sg)
    where = pa.events[-1].where
    settle(where)
    if io is not None:
        r = io.res
        trans = transient(it, facts, (2, 3))
        if not it.holds(facts, lt(C(0), r)):
            ctx.ob('recv-eof', term != trans, io.where,
                   'end of stream or a hard error leaves the connection open' if not term else 'a would-block result terminates the connection', pa, sig=sg)
        else:
            ctx.ob('recv-eof', not term, io.where, 'the connection is terminated though data was received', pa, sig=sg + ':ok')
    if pa.kind == 'ret' and not term:
        ctx.ob('recv-offer', offered, where, 'the callback returns without offering the buffered bytes to the reader', pa, sig=sg)
        if tls and not paused:
            n = chunk(it, pa)
            short_read = io is not None and (it.holds(facts, pred_not(eq(io.res, n))) if n else False)
            loop = n is not None and any(it.holds(facts, pred_not(eq(t, n))) for vp in facts for t, _ in vp if t[0] == 'h')
            ctx.ob('recv-drain', short_read or loop or transient(it, facts, (2, 3)), where,
                   'the TLS receive callback may return with decrypted data left in the TLS layer', pa, sig=sg)


def chunk(it, pa):
    for vp in pa.st.iv:
        for t, _ in vp:
            if t[0] == 'init' and t[1][0] == 'f' and t[1][2] == CONN + 'recv_chunk_size':
                return t
    for e in pa.events:
        if is_io(e, RECV):
            return io_args(e)[1]
    return None


def vp_len(vp):
    return any(t[0] == 'ap' and short(t[1]) in ('len', 'size') and any(x[0] == 'f' and x[2] == CONN + 'recv_buffer' for x in subterms(t)) for t, _ in vp)


def not_full(vp):
    """predicate 'len < limit' for a fact over (len, limit)"""
    ln = [t for t, _ in vp if t[0] == 'ap' and short(t[1]) in ('len', 'size')]
    lim = [t for t, _ in vp if t[0] == 'init' and t[1][0] == 'f' and t[1][2] == CONN + 'max_recv_buff_size']
    if len(ln) == 1 and len(lim) == 1:
        return lt(ln[0], lim[0])
    return None


def reader(ctx):
    it, ps, conn = on_read_paths(ctx)
    hl = header_len(ps)
    ctx.require(len(hl) == 1, 'header size not found in the reader: %s' % hl)
    hlen = hl.pop()
    for pa in ps:
        facts = pa.st.iv
        evs = pa.events
        asleep = next((t for vp in facts for t, _ in vp if t[0] == 'init' and field_of(t[1]) == 'msg_sleep'), None)
        if asleep and it.holds(facts, truth(asleep)):
            bad = [e for e in evs if e.kind in ('call', 'vcall', 'icall', 'write') and not (e.kind == 'call' and short(e.name) in ('static_pointer_cast', 'on_read'))]
            ctx.ob('reader-sleep', not bad and pa.kind == 'ret', bad[0].where if bad else evs[-1].where if evs else 'on_read',
                   'a suspended reader acts on the connection', pa)
            continue
        ctx.ob('reader-sleep', asleep is not None and it.holds(facts, pred_not(truth(asleep))), evs[-1].where,
               'the reader does not check whether it is suspended', pa, sig='check')
        enq = [e for e in evs if e.kind == 'call' and short(e.name) == 'enqueue' and fld(e) == QUEUE(ctx)]
        failed = False
        for e in enq:
            ctx.ob('queue-bound', e.x['vals'][1] == C(0), e.where, 'messages are queued regardless of the configured capacity', pa)
            if it.holds(facts, truth(e.res)):
                continue
            if not it.holds(facts, pred_not(truth(e.res))):
                ctx.ob('reader-full', False, e.where, 'the outcome of queueing a message is ignored', pa)
                continue
            failed = True
            i = evs.index(e)
            rest = evs[i + 1:]
            sleep = [x for x in rest if x.kind == 'write' and fld(x) == 'msg_sleep' and x.args[0] == C(1)]
            armed = [x for x in rest if x.kind == 'call' and x.name == NS + 'TimerEvent::add' and fld(x) == 'ev_enqueue_poll']
            other = [x for x in rest if (x.kind == 'call' and fld(x) in ('recv_buffer', QUEUE(ctx)) and short(x.name) != 'len') or
                     (x.kind == 'write' and fld(x) == 'msg') or x.kind == 'icall']
            ctx.ob('reader-full', pa.kind == 'ret' and bool(sleep) and bool(armed) and not other, e.where,
                   'a full queue does not suspend the reader with the message held and the retry timer armed', pa)
            ctx.ob('reader-full', pa.value(('f', conn, NS + 'MsgNetwork::Conn::msg_sleep')) == C(1), e.where, 'the suspension is not recorded', pa, sig='flag')
        if pa.kind != 'ret' or failed:
            continue
        # exit for lack of bytes
        why = starved(it, pa, conn, hlen)
        ctx.ob('reader-exit', why, evs[-1].where, 'the reader may stop while a whole message is buffered', pa)
        ready = cell_or_init(pa, conn, CONN + 'ready_recv')
        room = [p for vp in facts for p in [not_full(vp)] if p is not None]
        calls_rx = [e for e in evs if e.kind == 'icall' and e.name == CONN + 'recv_data_func']
        if calls_rx:
            e = calls_rx[-1]
            a = e.x.get('vals', e.args) if e.x else e.args
            ok = len(a) == 3 and a[1] == ('init', ('f', conn, CONN + 'fd')) and a[2] == C(1)
            ctx.ob('reader-resume', ok, e.where, 'the receive callback is resumed with wrong arguments', pa, sig='args')
        else:
            stay = it.holds(facts, pred_not(truth(ready))) or any(it.holds(facts, pred_not(p)) for p in room)
            ctx.ob('reader-resume', stay, evs[-1].where, 'a paused connection with room in its buffer is not resumed', pa)
    ctx.need('reader-full', 2)
    ctx.need('reader-exit', 2)
    ctx.need('reader-resume', 2)


def cell_or_init(pa, conn, f):
    v = pa.value(('f', conn, f))
    return v if v is not None else ('init', ('f', conn, f))


def header_len(ps):
    """the number of bytes popped to build a message header"""
    res = set()
    for pa in ps:
        for e in pa.events:
            if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == MSG or e.kind == 'call':
                for v in list(e.args) + list((e.x or {}).get('vals', ())):
                    for x in subterms(v):
                        if x[0] == 'ap' and x[1] == NS + 'MsgBase::(ctor)':
                            for y in subterms(x):
                                if y[0] == 'ap' and short(y[1]) == 'pop' and y[2][1][0] == 'c':
                                    res.add(y[2][1][1])
    return res


def starved(it, pa, conn, hlen):
    """fewer bytes than the next step needs are known to be buffered"""
    facts = pa.st.iv
    buf = cur(pa, conn, CONN + 'recv_buffer')
    st = cur(pa, conn, STATE)
    msg = cur(pa, conn, MSG)
    size = ('ap', NS + 'SegBuffer::size', (buf,))
    if it.holds(facts, eq(st, C(0))):
        return it.holds(facts, lt(size, C(hlen)))
    if it.holds(facts, eq(st, C(1))):
        return it.holds(facts, lt(size, ('ap', NS + 'MsgBase::get_length', (msg,))))
    return False


def cur(pa, conn, f):
    loc = ('f', conn, f)
    v = pa.value(loc)
    if v is None:
        v = ('init', loc)
    return v


def retry(ctx):
    s = ctx.system('MsgNetwork')
    n = 0
    for it, e0, ps, conn in retry_timers(ctx, s):
        n += 1
        for pa in ps:
            enq = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'enqueue' and fld(e) == QUEUE(ctx)]
            if pa.kind == 'noret':
                continue
            if not enq:
                ctx.ob('retry', False, e0.where, 'the retry timer does not re-offer the held message', pa, sig='none')
                continue
            e = enq[0]
            ctx.ob('queue-bound', e.x['vals'][1] == C(0), e.where, 'messages are queued regardless of the configured capacity', pa, sig='retry')
            fields = dict((short(k[2]), v) for k, v in e.x['vals'][0][2]) if e.x['vals'][0][0] == 'st' else {}
            m = fields.get('first')
            ok = len(enq) == 1 and m is not None and m[0] == 'init' and m[1] == ('f', conn, NS + 'MsgNetwork::Conn::msg') and \
                fields.get('second') is not None and ('obj', fields['second']) == conn
            ctx.ob('retry', ok, e.where, 'the retry timer does not queue the held message of its own connection', pa, sig='what')
            sl = pa.value(('f', conn, NS + 'MsgNetwork::Conn::msg_sleep'))
            armed = [x for x in pa.events if x.kind == 'call' and x.name == NS + 'TimerEvent::add' and fld(x) == 'ev_enqueue_poll']
            rd = [x for x in pa.events if x.kind == 'vcall' and short(x.name) == 'on_read']
            if it.holds(pa.st.iv, truth(e.res)):
                before = pa.events[:pa.events.index(rd[0])] if rd else []
                ok = sl == C(0) and bool(rd) and not armed and any(x.kind == 'write' and fld(x) == 'msg_sleep' for x in before)
                ctx.ob('retry', ok, e.where, 'after the held message is queued the reader is not woken', pa, sig='wake')
            elif it.holds(pa.st.iv, pred_not(truth(e.res))):
                asl = sl == C(1) or sl is None
                ctx.ob('retry', asl and bool(armed) and not rd, e.where, 'the queue is still full but the retry timer is not re-armed', pa, sig='rearm')
            else:
                ctx.ob('retry', False, e.where, 'the outcome of re-queueing is ignored', pa, sig='ignored')
    ctx.require(n >= 1, 'retry timer of the message reader not found')
