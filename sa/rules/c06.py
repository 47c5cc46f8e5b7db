"""Outgoing bytes leave whole, in order, once."""
from .common import *
TITLE = 'Queued outgoing bytes are handed to the transport once and in order'
EXPLAIN = ('Typestate over every abstract path of every function a connection can be given as its send callback (plain, TLS) '
           'and of the write interface: each segment taken off the send queue is offered to the transport whole, and '
           'whatever the transport did not take is back at the head of the queue before anything else is taken or the '
           'function returns; errors are told apart from would-block by the value the path condition fixes.')
RULES = {'offer-whole': 'the transport call gets exactly the segment just taken off the queue (its bytes, its length)',
         'segment-dropped': 'a segment taken off the queue is dropped only when it is known to be empty or fully sent',
         'leftover': 'the rewound bytes are exactly those the transport did not take',
         'leftover-first': 'after a partial send nothing more is taken off the queue in this callback',
         'hard-error': 'a failed send that is not known to be would-block terminates the connection',
         'no-false-termination': 'the connection is terminated by the sender only after a failed send or an error event',
         'write-result': 'a write enqueues exactly the given bytes once, honours the capacity setting, and returns whether it was queued',
         'empty-segment': 'no empty segment enters the send queue (the sender takes one for the end of the queue)',
         'partial': 'a connection knows whether the head of its queue is the rest of a message partly sent',
         'carried-over': 'messages a lost peer connection did not send go to the next one whole, in order, once, and nothing else does',
         'buffer-ops': 'the send buffer passes segments to and from its queue unchanged'}
ASSUME = ['send()/SSL_write() return the number of leading bytes accepted, or a value below 1 when none was',
          'the queue under the send buffer keeps order (its own obligations: C10)']


def check(ctx):
    nsend = 0
    for qn, roles, it, ps in run_io(ctx):
        if 'send_data_func' not in roles:
            continue
        if not any(is_io(e, SEND) for pa in ps for e in pa.events):
            # hand-shake stage: must leave the queue alone
            for pa in ps:
                for e in pa.events:
                    if e.kind == 'call' and fld(e) == 'send_buffer':
                        ctx.ob('segment-dropped', short(e.name) in ('get_queue',), e.where,
                               '%s touches the send queue without sending' % short(qn), pa)
            continue
        nsend += 1
        posts = Posts(it)
        for pa in ps:
            sender(ctx, qn, it, posts, pa)
    ctx.require(nsend >= 2, 'plain and TLS send functions not found')
    ctx.need('leftover', 4)
    buffer_ops(ctx)
    carried_over(ctx)
    ctx.need('partial', 4)
    ctx.need('carried-over', 4)


PARTLY = CONN + 'partly_sent'


def carried_over(ctx):
    from . import peers as pe
    s = ctx.system('PeerNetwork')
    it = Interp(ctx.prog, Config(resolve=s.resolve, extra_opaque=pe.OPAQUE, abstract={NS + 'MPSCWriteBuffer'}, max_states=20000, split=True))
    ctx.require(ctx.prog.field(CONN[:-2], 'partly_sent') is not None, 'no mark of a partly sent message')
    m = pe.Model(ctx, it=it)
    m.quiet = True
    for msg in ('MsgPing', 'MsgPong'):
        conn, ml, ps, w, l = m.handler(msg)
        for pa in ps:
            ev = [(i, e) for i, e in m.writes(pa, pe.PEER + 'state') if e.args[0] != pe.DISC]
            if not ev:
                ctx.ob('carried-over', not [e for e in pa.events if pop(e)], w, 'messages are taken off a queue though no connection replaces it', pa, sig=msg + ':none')
                continue
            old = ('init', ('f', ev[0][1].obj[1], pe.PEER + 'conn'))
            migrate(ctx, it, m, msg, pa, old, conn, w)


def pop(e):
    return e.kind == 'call' and e.name == NS + 'MPSCWriteBuffer::move_pop'


def migrate(ctx, it, m, msg, pa, old, conn, w):
    facts = pa.st.iv
    flag = ('init', ('f', ('obj', old), PARTLY))
    pops = [e for e in pa.events if pop(e)]
    if m.zero(facts, old):
        ctx.ob('carried-over', not pops, w, 'messages are taken from a connection that does not exist', pa, sig=msg + ':null')
        return
    alts = None          # terms denoting the segment in hand
    site = None          # (loop, variable) through which it is carried round a loop
    first = True
    n = 0                # times it was written

    def isempty(t):
        return it.holds(facts, le(('ap', 'size', (t,)), C(0))) or it.holds(facts, truth(('ap', 'empty', (t,))))

    def settle(where):
        nonlocal alts, n
        if alts is None:
            return
        empty = any(isempty(t) for t in alts)
        ctx.ob('carried-over', n == (0 if empty else 1), where, 'an unsent message is written to the new connection %d times' % n, pa, sig=msg + ':once')
        alts, n = None, 0

    for i, e in enumerate(pa.events):
        if e.kind == 'loop':
            entry = e.x['entry']
            var = [l for l, v in entry.items() if alts and v in alts]
            site = (e.x['site'], var, alts is not None and n == 0)
            if alts and n == 0:
                alts = alts | {('h', e.x['site'], l) for l in var}
            elif alts:
                settle(e.where)
        if pop(e):
            settle(e.where)
            ctx.ob('carried-over', e.obj == ('f', ('obj', old), CONN + 'send_buffer'), e.where, 'messages are taken from the queue of another connection', pa, sig=msg + ':src')
            if first and site is None and it.holds(facts, truth(flag)):
                first = False
                w2 = [x for x in pa.events[i:] if x.kind == 'call' and short(x.name) == 'write' and vals0(x) == e.res]
                ctx.ob('carried-over', not w2, e.where, 'the rest of a partly sent message is sent over another connection', pa, sig=msg + ':rest')
                continue
            if first:
                ctx.ob('carried-over', it.holds(facts, pred_not(truth(flag))), e.where, 'the rest of a partly sent message may be sent over another connection',
                       pa, sig=msg + ':rest')
            first = False
            alts, n = {e.res}, 0
        elif e.kind == 'call' and short(e.name) == 'write' and alts and vals0(e) in alts:
            ctx.ob('carried-over', e.obj == ('obj', conn), e.where, 'an unsent message is written to another connection', pa, sig=msg + ':dst')
            n += 1
    if pa.kind == 'backedge' and site is not None:
        if alts and n == 0 and any(pa.st.cells.get(l) in alts for l in site[1]):
            ctx.ob('carried-over', True, w, '', pa)
            return
        ctx.ob('carried-over', not site[2] or not site[1], w, 'a message is taken round the loop twice', pa, sig=msg + ':loop')
        settle(w)
        return
    if pa.kind == 'ret':
        ok = alts is not None and any(isempty(t) for t in alts)
        ctx.ob('carried-over', ok, w, 'unsent messages of the old connection are left behind', pa, sig=msg + ':all')
    settle(w)


def vals0(e):
    v = (e.x or {}).get('vals', e.args)
    return v[0] if v else None


def sender(ctx, qn, it, posts, pa):
    facts = pa.st.iv
    seg = None          # segment in hand
    io = None           # transport call on it
    rew = []
    term = any(posts.terminates(e) for e in pa.events)
    sg = short(qn)

    def settle(e):
        """the segment in hand must be accounted for"""
        nonlocal seg, io, rew
        if seg is None:
            return
        where = e.where if e else pa.events[-1].where
        if io is None:
            empty = it.holds(facts, le(('ap', 'size', (seg,)), C(0))) or it.holds(facts, truth(('ap', 'empty', (seg,))))
            whole = len(rew) == 1 and rew[0][1] == seg
            ctx.ob('segment-dropped', empty or whole, where, 'a segment taken off the queue is neither sent nor put back', pa, sig=sg + ':unsent')
        else:
            r = io.res
            size = ('ap', 'size', (seg,))
            if it.holds(facts, le(size, r)):
                ctx.ob('leftover', not rew, where, 'a fully sent segment is put back on the queue', pa, sig=sg + ':dup')
            else:
                ok = len(rew) == 1 and leftover_ok(it, facts, rew[0][1], seg, r)
                ctx.ob('leftover', ok, where, 'the bytes put back are not exactly the unsent rest of the segment (%s)'
                       % (', '.join(show(x[1])[:120] for x in rew) or 'nothing is put back'), pa, sig=sg + ':rest')
        seg = io = None
        rew = []
    partial = False
    for e in pa.events:
        if e.kind == 'call' and fld(e) == 'send_buffer':
            n = short(e.name)
            if n == 'move_pop':
                settle(e)
                ctx.ob('leftover-first', not partial, e.where, 'the queue is read on after a leftover was put back', pa, sig=sg)
                seg = e.res
            elif n == 'rewind':
                v = e.x['vals'][0]
                ctx.ob('segment-dropped', seg is not None and not rew, e.where,
                       'bytes are put back that were not taken off the queue, or twice', pa, sig=sg + ':rewind')
                rew.append((e, v))
                partial = True
        elif is_io(e, SEND):
            buf, ln = io_args(e)
            ok = seg is not None and io is None and buf in (('ap', 'data', (seg,)),) and ln == ('ap', 'size', (seg,))
            if not ok and seg is not None and io is None:
                ok = is_at(buf, seg, C(0)) and ln == ('ap', 'size', (seg,))
            ctx.ob('offer-whole', ok, e.where, 'the transport is not given exactly the segment in hand (%s, %s)'
                   % (show(buf)[:80], show(ln)[:80]), pa, sig=sg)
            io = e
    if pa.kind in ('ret', 'backedge', 'throw'):
        settle(None)
    mark(ctx, it, pa, sg)
    if partial:
        ctx.ob('leftover-first', pa.kind != 'backedge', pa.events[-1].where,
               'sending goes on after a leftover was put back', pa, sig=sg + ':loop')
    ios = [e for e in pa.events if is_io(e, SEND)]
    if ios:
        r = ios[-1].res
        neg_possible = not it.holds(facts, le(C(0), r))
        if neg_possible and not it.holds(facts, le(('ap', 'size', (last_seg(pa),)), r)):
            tr = transient(it, facts, (2, 3))
            ctx.ob('hard-error', term or tr, ios[-1].where, 'a failed send is not known to be would-block, yet the connection stays', pa, sig=sg)
        if term:
            ok = it.holds(facts, lt(r, C(0))) and not transient(it, facts, (2, 3))
            ctx.ob('no-false-termination', ok, ios[-1].where, 'the connection is terminated though the send did not fail', pa, sig=sg)
    elif term:
        # an error event reported by the loop
        ok = any(len(vp) == 1 and vp[0][0][0] == 'op' and vp[0][0][1] == '&' for vp in facts)
        ctx.ob('no-false-termination', ok, pa.events[0].where, 'the connection is terminated without a failure', pa, sig=sg + ':ev')


def mark(ctx, it, pa, sg):
    """the mark of a partly sent segment at the end of the path fits what was sent last"""
    facts = pa.st.iv
    ios = [e for e in pa.events if is_io(e, SEND)]
    cells = [(l, v) for l, v in pa.st.cells.items() if l[0] == 'f' and l[2] == PARTLY]
    wr = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == PARTLY]
    if not ios:
        ctx.ob('partial', not wr, pa.events[0].where if pa.events else sg, 'the mark of a partly sent message changes though nothing was sent', pa, sig=sg + ':idle')
        return
    r = ios[-1].res
    size = ('ap', 'size', (last_seg(pa),))
    end = cells[0][1] if cells else None
    loops = any(e.kind == 'loop' for e in pa.events)
    if it.holds(facts, le(size, r)):
        okk = end == C(0) or end is not None and it.holds(facts, pred_not(truth(end)))
        what = 'the mark of a partly sent message stays after the message was sent'
    elif it.holds(facts, le(r, C(0))):
        okk = not [e for e in wr if pa.events.index(e) > pa.events.index(ios[-1])]
        what = 'the mark of a partly sent message changes though nothing was sent'
    else:
        okk = end is not None and (end == C(1) or it.holds(facts, truth(end)))
        what = 'a partly sent message is not marked'
    ctx.ob('partial', okk, ios[-1].where, what, pa, sig=sg + ':mark')


def last_seg(pa):
    for e in reversed(pa.events):
        if e.kind == 'call' and fld(e) == 'send_buffer' and short(e.name) == 'move_pop':
            return e.res
    return ('c', 0)


def leftover_ok(it, facts, v, seg, r):
    if v == seg:
        return it.holds(facts, le(r, C(0)))
    if is_suffix(v, seg, r):
        return it.holds(facts, le(C(0), r))
    return False


def buffer_ops(ctx):
    P = ctx.prog
    cls = NS + 'MPSCWriteBuffer'
    cfg = lambda: Config(abstract={NS + 'MPSCQueueEventDriven'})
    f = P.one(cls + '::push')
    it, ps = ctx.paths(f, cfg())
    data = ('init', ('p', f.qn, f.params[0]['n']))
    unb = ('init', ('p', f.qn, f.params[1]['n']))
    for pa in ps:
        enq = calls(pa, 'enqueue')
        empty = it.holds(pa.st.iv, le(('ap', 'size', (data,)), C(0))) or it.holds(pa.st.iv, truth(('ap', 'empty', (data,))))
        if not enq:
            ctx.ob('write-result', empty, f.where, 'non-empty data is not enqueued', pa, sig='push:lost')
            ctx.ob('write-result', pa.ret == C(1), f.where, 'an empty write reports failure', pa, sig='push:empty')
            continue
        nonempty = it.holds(pa.st.iv, lt(C(0), ('ap', 'size', (data,)))) or it.holds(pa.st.iv, pred_not(truth(('ap', 'empty', (data,)))))
        ctx.ob('empty-segment', nonempty, enq[0].where, 'a possibly empty segment is enqueued', pa, sig='push')
        ok = len(enq) == 1 and carries(enq[0].x['vals'][0], data) and enq[0].x['vals'][1] == unb
        ctx.ob('write-result', ok, enq[0].where, 'the data enqueued, or the capacity flag, is not what was given', pa, sig='push:data')
        ctx.ob('write-result', pa.ret == enq[0].res or it.holds(pa.st.iv, eqv(pa.ret, enq[0].res)), enq[0].where,
               'push does not return the result of the queue', pa, sig='push:ret')
    ctx.need('empty-segment')
    f = P.one(cls + '::rewind')
    it, ps = ctx.paths(f, cfg())
    data = ('init', ('p', f.qn, f.params[0]['n']))
    for pa in ps:
        q = calls(pa, 'rewind')
        ctx.ob('buffer-ops', len(q) == 1 and carries(q[0].x['vals'][0], data), f.where, 'rewind does not put the given segment back', pa, sig='rewind')
    f = P.one(cls + '::move_pop')
    it, ps = ctx.paths(f, Config())
    for pa in ps:
        q = calls(pa, 'try_dequeue')
        ok = len(q) == 1 and pa.ret is not None and pa.ret[0] in ('sel', 's') and \
            any(x[0] == 's' and x[3] == 'out0' for x in subterms(pa.ret)) and (pa.ret[0] == 's' or short(pa.ret[2]) == 'data')
        ctx.ob('buffer-ops', ok, f.where, 'move_pop does not return the dequeued segment', pa, sig='move_pop')
    # Conn::write
    f = P.one(CONN + 'write')
    it, ps = ctx.paths(f, Config(abstract={cls}))
    data = ('init', ('p', f.qn, f.params[0]['n']))
    for pa in ps:
        q = calls(pa, 'push')
        ctx.ob('write-result', len(q) == 1 and q[0].x['vals'][0] == data and pa.ret == q[0].res, f.where,
               'write does not enqueue the data once and return the outcome', pa, sig='write')
        if q:
            u = q[0].x['vals'][1]
            lim = [x for x in subterms(u) if x[0] == 'f' and x[2] == NS + 'ConnPool::max_send_buff_size']
            v = [x for x in subterms(u) if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == NS + 'ConnPool::max_send_buff_size']
            if u[0] == 'c' and len(ps) > 1:
                t = [x for vp in pa.st.iv for x in subterms(vp) if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == NS + 'ConnPool::max_send_buff_size']
                ok = bool(t) and it.holds(pa.st.iv, eq(t[0], C(0)) if u[1] else pred_not(eq(t[0], C(0))))
            else:
                ok = bool(v) and u == eq(v[0], C(0))
            ctx.ob('write-result', ok, q[0].where, 'the send queue is not bounded exactly when a capacity is configured', pa, sig='write:bound')
    ctx.need('write-result', 4)


def eqv(a, b):
    return eq(a, b)


def sub_locs(x):
    return [y for y in subterms(x)]


def carries(v, data):
    """the queue entry v holds exactly `data`"""
    if v == data:
        return True
    hits = [x for x in subterms(v) if x == data]
    bad = [x for x in subterms(v) if x[0] == 'ap' and short(x[1]) in ('resize', 'erase', 'substr', 'insert')]
    return bool(hits) and not bad
