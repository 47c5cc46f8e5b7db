"""Only whole, size-checked, verified messages reach the message queue."""
from .common import *
from .msgpath import *
from .c05 import header_len, cur
TITLE = 'Only whole, in-limit, checksum-verified messages reach a handler'
EXPLAIN = ('Path-sensitive typestate over the message reader and its retry timer with the receive buffer, message and '
           'stream as uninterpreted functional objects: each pop is dominated by a sufficient-size test on the very same '
           'buffer state, the payload state is entered only with a freshly parsed header whose length passed the limit, '
           'and every queued message is header + exactly that many following bytes, verified on that value.')
RULES = {'pop-whole': 'bytes are taken only when that many are known to be buffered',
         'header-checked': 'a header is accepted only with its length known to be within the configured limit',
         'oversize-throws': 'an over-limit length, and nothing else in the reader, raises the error that ends the connection',
         'payload-exact': 'the payload of a message is exactly the next length bytes after its header',
         'verified': 'only a message whose checksum matched is queued',
         'own-conn': 'a message is queued with the connection it arrived on',
         'state': 'parser state and message agree at every loop head and exit',
         'drop-continues': 'a message failing its checksum is dropped and parsing goes on at the next header',
         'msg-fields': 'the held message, parser state and receive buffer are changed by the reader only',
         'checksum': 'checksum comparison covers the whole payload and the value carried in the header',
         'dispatch': 'a queued message is given to the handler registered for its opcode, with its connection, once'}
ASSUME = ['the receive buffer and message accessors behave as decided under C08 and C09']
HDR, PAY = 0, 1


def hdr_of(m):
    """m is a message freshly parsed from n bytes popped off the buffer b: (b, n)"""
    if m and m[0] == 'ap' and m[1] == NS + 'MsgBase::(ctor)' and len(m[2]) >= 1:
        x = m[2][0]
        if x[0] == 'ap' and x[1] == NS + 'DataStream::(ctor)' and x[2]:
            x = x[2][0]
        if x[0] == 'ap' and x[1] == NS + 'SegBuffer::pop':
            return x[2][0], x[2][1]
    return None


def paid_of(m):
    """m is a message given a payload: (message before, payload)"""
    if m and m[0] == 'ap' and m[1] == NS + "MsgBase::set_payload'":
        return m[2][0], m[2][1]
    return None


def glen(m):
    return ('ap', NS + 'MsgBase::get_length', (m,))


def check(ctx):
    it, ps, conn = on_read_paths(ctx)
    P = ctx.prog
    hl = header_len(ps)
    ctx.require(len(hl) == 1, 'header size not found')
    hlen = hl.pop()
    nocheck = ctx.overrides.get('SALTICIDAE_NOCHECKSUM')
    limit = [('init', ('f', ('obj', ('this',)), NS + 'MsgNetwork::max_msg_size'))]
    bloc = ('f', conn, CONN + 'recv_buffer')
    for pa in ps:
        facts = pa.st.iv
        msg0 = None
        for e in pa.events:
            if e.kind == 'call' and e.obj == bloc and short(e.name) == 'pop':
                b, n = e.res[2]
                ok = it.holds(e.facts, le(n, ('ap', NS + 'SegBuffer::size', (b,))))
                ctx.ob('pop-whole', ok, e.where, 'bytes are popped that may not have arrived', pa)
            elif e.kind == 'call' and e.obj == bloc and short(e.name) not in ('pop', 'size', 'len', 'empty'):
                ctx.ob('pop-whole', False, e.where, 'the reader discards or reorders buffered bytes', pa)
            elif e.kind == 'write' and e.obj == ('f', conn, STATE):
                if e.args[0] == C(PAY):
                    m = msg_at(pa, e, conn)
                    h = hdr_of(m)
                    ok = h is not None and h[1] == C(hlen) and it.holds(e.facts, le(glen(m), limit[0]))
                    ctx.ob('header-checked', ok, e.where, 'a header is accepted without its length being within the limit', pa)
                elif e.args[0] != C(HDR):
                    ctx.ob('state', False, e.where, 'unknown parser state', pa)
            elif e.kind == 'throw':
                m = msg_at(pa, e, conn)
                ok = it.holds(e.facts, lt(limit[0], glen(m))) and hdr_of(m) is not None
                ctx.ob('oversize-throws', ok, e.where, 'the reader raises an error for a message within the limit', pa)
            elif e.kind == 'call' and short(e.name) == 'enqueue' and fld(e) == QUEUE(ctx):
                v = e.x['vals'][0]
                f = dict((short(k[2]), x) for k, x in v[2]) if v[0] == 'st' else {}
                m, c = f.get('first'), f.get('second')
                p = paid_of(m)
                ok = p is not None and p[1][0] == 'ap' and p[1][1] == NS + 'SegBuffer::pop' and p[1][2][1] == glen(p[0])
                if ok:
                    h = hdr_of(p[0])
                    # header parsed in this very iteration, or held since an earlier call (checked by 'state')
                    held = p[0][0] in ('init', 'h') and p[0][-1] == ('f', conn, MSG)
                    ok = (h is not None and p[1][2][0] == ('ap', NS + "SegBuffer::pop'", (h[0], h[1]))) or \
                         (held and p[1][2][0][0] in ('init', 'h') and it.holds(e.facts, eq(state0(pa, conn, p[0]), C(PAY))))
                ctx.ob('payload-exact', ok, e.where, 'the queued message is not a header with exactly its payload bytes (%s)' % (show(m)[:200] if m else '?'), pa)
                if not nocheck:
                    ok = m is not None and it.holds(e.facts, truth(('ap', NS + 'MsgBase::verify_checksum', (m,))))
                    ctx.ob('verified', ok, e.where, 'a message is queued without its checksum having matched', pa)
                ctx.ob('own-conn', c is not None and ('obj', c) == conn, e.where, 'the message is queued with another connection', pa)
        # state agreement at the end of the path
        if pa.kind in ('ret', 'backedge') and any(e.kind == 'loop' for e in pa.events):
            st, m = cur(pa, conn, STATE), cur(pa, conn, MSG)
            if hdr_of(m) is not None:
                ok = it.holds(facts, eq(st, C(PAY)))
            elif paid_of(m) is not None:
                ok = it.holds(facts, eq(st, C(HDR)))
            else:
                ok = m[0] in ('h', 'init') and m[-1] == ('f', conn, MSG) and st[0] in ('h', 'init') and st[-1] == ('f', conn, STATE)
            ctx.ob('state', ok, pa.events[-1].where, 'parser state %s does not fit message %s' % (show(st), show(m)[:100]), pa)
            b = cur(pa, conn, CONN + 'recv_buffer')
            if hdr_of(m) is not None:
                ok = b == ('ap', NS + "SegBuffer::pop'", hdr_of(m))
                ctx.ob('payload-exact', ok, pa.events[-1].where, 'bytes between a header and its payload are lost', pa, sig='hdr')
            elif paid_of(m) is not None:
                q = paid_of(m)[1]
                ok = q[0] == 'ap' and b == ('ap', NS + "SegBuffer::pop'", q[2])
                ctx.ob('payload-exact', ok, pa.events[-1].where, 'bytes after a payload are lost', pa, sig='pay')
            else:
                ctx.ob('payload-exact', b[0] in ('h', 'init'), pa.events[-1].where, 'buffered bytes are lost', pa, sig='none')
        if pa.kind == 'ret' and not nocheck:
            for vp in facts:
                for t, _ in vp:
                    if t[0] == 'ap' and short(t[1]) == 'verify_checksum' and it.holds(facts, pred_not(truth(t))):
                        ctx.ob('drop-continues', False, pa.events[-1].where, 'the reader stops after dropping a corrupted message', pa)
        if pa.kind == 'backedge' and not nocheck:
            for vp in facts:
                for t, _ in vp:
                    if t[0] == 'ap' and short(t[1]) == 'verify_checksum' and it.holds(facts, pred_not(truth(t))):
                        ctx.ob('drop-continues', True, pa.events[-1].where, '', pa)
    ctx.need('pop-whole', 2)
    ctx.need('header-checked')
    ctx.need('payload-exact', 2)
    ctx.need('oversize-throws')
    if not nocheck:
        ctx.need('verified')
        ctx.need('drop-continues')
        checksum(ctx)
    exclusive(ctx)
    dispatch(ctx)


def state0(pa, conn, m):
    """parser state at the point where the message was last unknown (same loop head or entry)"""
    if m[0] == 'h':
        return ('h', m[1], ('f', conn, STATE))
    return ('init', ('f', conn, STATE))


def msg_at(pa, e, conn):
    loc = ('f', conn, MSG)
    v = None
    for x in pa.events:
        if x is e:
            break
        if x.kind == 'write' and x.obj == loc:
            v = x.args[0]
        elif x.kind == 'call' and x.obj == loc and x.x and 'content' in x.x:
            v = x.x['content']
    if v is None:
        v = ('init', loc)
    return v


def exclusive(ctx):
    own = {MSG, STATE, CONN + 'recv_buffer'}
    rd = ctx.prog.one(NS + 'MsgNetwork::on_read').qn
    for s in ctx.systems():
        for t in s.tasks:
            for pa in t.paths:
                for e in pa.events:
                    if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] in (MSG, STATE):
                        ok = rd in e.stack or '(ctor)' in e.stack[-1] or t.role == INIT
                        ctx.ob('msg-fields', ok, e.where, '%s is changed outside the message reader' % short(e.obj[2]), pa)


def checksum(ctx):
    P = ctx.prog
    f = P.one(NS + 'MsgBase::verify_checksum')
    it, ps = ctx.paths(f, Config(opaque_fns={NS + 'MsgBase::get_checksum'}))
    this = ('obj', ('this',))
    field = ('init', ('f', this, NS + 'MsgBase::checksum'))
    for pa in ps:
        if pa.kind != 'ret':
            continue
        g = calls(pa, 'get_checksum')
        ok = len(g) >= 1 and g[0].obj == this
        if ok:
            want = eq(field, g[0].res)
            if pa.ret[0] == 'c':
                ok = it.holds(pa.st.iv, want if pa.ret[1] else pred_not(want))
            else:
                ok = pa.ret == want
        ctx.ob('checksum', ok, f.where, 'verification is not equality of the carried and the computed checksum', pa, sig='verify')
    f = P.one(NS + 'MsgBase::get_checksum')
    it, ps = ctx.paths(f, Config())
    for pa in ps:
        if pa.kind != 'ret':
            continue
        seq = [e for e in pa.events if e.kind == 'call' and e.name.startswith(NS + 'SHA')]
        names = [short(e.name) for e in seq if not e.name.endswith('(ctor)')]
        up = [e for e in seq if short(e.name) == 'update']
        ok = names == ['reset', 'update', 'digest'] and len(up) == 1
        if ok:
            v = up[0].x['vals']
            ok = any(x[0] == 'init' and x[1] == ('f', this, NS + 'MsgBase::payload') for x in subterms(v)) or \
                any(x == ('f', this, NS + 'MsgBase::payload') for x in subterms(up[0].args))
            # no sub-range
            ok = ok and not any(x[0] == 'ap' and short(x[1]) in ('(ctor)', 'substr', 'resize') for x in subterms(v))
        ctx.ob('checksum', ok, f.where, 'the checksum is not one digest over the whole payload (%s)' % names, pa, sig='digest')
        mv = calls(pa, 'memmove', 'memcpy')
        ok = len(mv) == 1 and mv[0].args[2] == C(4)
        if ok and len(seq) and up:
            dg = [e for e in seq if short(e.name) == 'digest'][0]
            ok = pa.events.index(mv[0]) > pa.events.index(dg)
        ctx.ob('checksum', ok, f.where, 'the checksum is not the first four digest bytes', pa, sig='trunc')
    for f in P.fns(NS + 'MsgBase::set_checksum'):
        it, ps = ctx.paths(f, Config(opaque_fns={NS + 'MsgBase::get_checksum'}))
        for pa in ps:
            g = calls(pa, 'get_checksum')
            ok = len(g) == 1 and pa.value(('f', this, NS + 'MsgBase::checksum')) == g[0].res
            ctx.ob('checksum', ok, f.where, 'the stored checksum is not the computed one', pa, sig='set')


def dispatch(ctx):
    """the user-loop handler of the incoming queue"""
    s = ctx.system('MsgNetwork')
    n = 0
    for t in s.tasks:
        if t.lam is None or t.role != USER:
            continue
        for pa in t.paths:
            deq = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'try_dequeue' and 'MPSCQueue' in e.name]
            hc = [e for e in pa.events if e.kind == 'icall' and any(x[0] == 'f' and x[2] == NS + 'MsgNetwork::handler_map' for x in subterms(e.obj or ()))]
            if not deq and not hc:
                continue
            ctx.ob('dispatch', len(hc) <= 1 or len(deq) >= len(hc), t.where, 'a message is dispatched more than once', pa, sig='once')
            for d in deq:
                i = pa.events.index(d)
                if pa.kind == 'noret' or not t.interp.holds(pa.st.iv, truth(d.res)):
                    continue
                used = any(pa.events.index(e) > i for e in hc)
                stopped = any(x[0] == 'init' and field_of(x[1]) == 'system_state' and t.interp.holds(pa.st.iv, pred_not(eq(x, C(1))))
                              for vp in pa.st.iv for x, _ in vp)
                unknown = any(len(vp) == 2 and any(x[0] == 'ap' and short(x[1]) == 'find' for x, _ in vp) and
                              t.interp.holds(pa.st.iv, eq(vp[0][0], vp[1][0])) for vp in pa.st.iv)
                ctx.ob('dispatch', used or stopped or unknown, d.where, 'a dequeued message with a registered handler is not handled', pa, sig='lost')
            for e in hc:
                n += 1
                i = pa.events.index(e)
                d = [x for x in deq if pa.events.index(x) < i]
                ok = bool(d)
                if ok:
                    a = e.x.get('vals', e.args) if e.x else e.args
                    a0 = [x for x in subterms(a[0])] + [x for x in subterms(e.args[0])]
                    a1 = [x for x in subterms(a[1])] + [x for x in subterms(e.args[1])]
                    item = d[-1].args[0][1]
                    f1 = any((x[0] == 'sel' and short(x[2]) == 'first') or (x[0] == 'f' and x[1] == item and short(x[2]) == 'first') for x in a0)
                    f2 = any((x[0] == 'sel' and short(x[2]) == 'second') or (x[0] == 'f' and x[1] == item and short(x[2]) == 'second') for x in a1)
                    ok = f1 and f2
                ctx.ob('dispatch', ok, e.where, 'the handler is not given the dequeued message and its own connection', pa, sig='args')
                fnd = [x for x in subterms(e.obj) if x[0] == 'ap' and short(x[1]) in ('find', 'at', 'operator[]')]
                ok = any(any(y[0] == 'sel' and short(y[2]) == 'opcode' or (y[0] == 'f' and short(y[2]) == 'opcode') for y in subterms(x)) for x in fnd)
                ctx.ob('dispatch', ok, e.where, "the handler is not looked up by the message's opcode", pa, sig='opcode')
                # known to be present
                ok = any(it_ne_end(t.interp, e.facts, x) for x in fnd)
                ctx.ob('dispatch', ok, e.where, 'a handler is invoked that may not be registered', pa, sig='found')
    ctx.require(n >= 1, 'message dispatch not found')


def it_ne_end(it, facts, fnd):
    for vp in facts:
        ts = [t for t, _ in vp]
        if fnd in ts and len(ts) == 2 and any(t[0] == 'ap' and short(t[1]) == 'end' for t in ts):
            o = [t for t in ts if t != fnd][0]
            return it.holds(facts, pred_not(eq(fnd, o)))
    return False
