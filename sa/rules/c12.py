"""C12: a queued element always wakes its consumer."""
from .common import *
from .c10 import at, slot, order, QCLS, elem_only, is_null

TITLE = 'Queueing work for another thread always wakes that thread'
RULES = {
    'wake': 'after storing an element, the producer signals the consumer unless it saw that a signal is already due',
    'wake-order': 'the producer looks at the wait flag after publishing the element, with a read-modify-write of acquire-release order',
    'rearm': 'the consumer clears the signal, then re-arms the wait flag, then looks at the queue',
    'more-work': 'a consumer that was told there may be more work signals itself again',
    'drain': 'a queue handler stops without asking to be run again only when it found the queue empty',
    'register': 'the handler watches the descriptor the producers signal, for readability',
    'armed': 'a new queue starts with the wait flag set',
    'signal': 'signalling writes a non-zero count to the watched descriptor and clearing reads it',
}
EXPLAIN = ('All abstract paths of enqueueing, of the wake-up handler and of every queue handler registered in the library; each path that '
           'stores an element, re-arms the flag or stops draining is an obligation.')
ASSUME = ['eventfd and libuv deliver a pending readability event', 'the slot protocol itself is C10']
SIG = {NS + 'MPSCQueueEventDriven::wait_sig', NS + 'MPMCQueueEventDriven::wait_sig'}
NFD = NS + 'NotifyFd::'


def is_sig(e, *names):
    return e.kind == 'atomic' and e.obj and e.obj[0] == 'f' and e.obj[2] in SIG and (not names or e.name in names)


def lam_of(v):
    while v[0] == 'st':
        v = v[1]
    return v if v[0] == 'lam' else None


def lams(pa, pred):
    out = {}
    for e in pa.events:
        if pred(e):
            for v in list((e.x or {}).get('vals', ())) + list(e.args):
                l = lam_of(v)
                if l:
                    out[l[3]] = (e, l)
    return list(out.values())


def check(ctx):
    p = ctx.prog
    cfg = lambda: Config(extra_opaque={ERR}, not_opaque=QCLS)

    def pick(qn):
        fs = [f for f in p.fns(qn) if elem_only(f)] or p.fns(qn)
        ctx.require(fs, 'no instantiation of ' + qn)
        return fs
    for cls in ('MPSCQueueEventDriven', 'MPMCQueueEventDriven'):
        for f in pick(NS + cls + '::enqueue'):
            it, ps = ctx.paths(f, cfg())
            for pa in ps:
                ev = pa.events
                pub = [i for i, e in enumerate(ev) if e.kind == 'atomic' and e.name in ('store', 'exchange') and slot(e.obj, 'avail') and e.args[0] == C(1)]
                if not pub:
                    continue
                i = pub[-1]
                nt = [j for j, e in enumerate(ev) if e.kind == 'call' and e.name == NFD + 'notify' and j > i]
                lk = [(j, e) for j, e in enumerate(ev) if is_sig(e) and e.name in ('exchange', 'cas', 'load', 'rmw', 'store')]
                quiet = [(j, e) for j, e in lk if e.name == 'exchange' and e.args[0] == C(0) and it.holds(pa.st.iv, pred_not(truth(e.res)))
                         or e.name == 'cas' and e.args[0] == C(1) and e.args[1] == C(0) and not (e.x or {}).get('weak') and e.res == C(0)]
                ctx.ob('wake', bool(nt) or any(j > i for j, _ in quiet), f.where,
                       '%s: an element is stored and the consumer neither signalled nor known to be signalled' % cls, path=pa)
                for j, e in quiet:
                    ctx.ob('wake-order', j > i and order(e) in (4, 5), e.where,
                           '%s: the wait flag is consulted before the element is published, or with too weak an order' % cls, path=pa)
                ok = [e for j, e in lk if e.name in ('exchange', 'store') and e.args[0] != C(0)]
                ctx.ob('wake-order', not ok, f.where, '%s: a producer re-arms the wait flag' % cls, path=pa)
        for f in pick(NS + cls + '::reg_handler'):
            it, ps = ctx.paths(f, cfg())
            for pa in ps:
                ls = lams(pa, lambda e: e.kind == 'call' and e.name == NS + 'FdEvent::(ctor)')
                ctx.ob('register', len(ls) == 1, f.where, '%s: no descriptor event is set up for the handler' % cls, path=pa)
                for e, l in ls:
                    a = e.args[1]
                    ctx.ob('register', any(x.kind == 'call' and x.name == NFD + 'read_fd' and x.res == a for x in pa.events), e.where,
                           '%s: the handler watches another descriptor than the one signalled' % cls, path=pa)
                    ctx.ob('register', any(x.kind == 'call' and x.name == NS + 'FdEvent::add' and x.args and x.args[0][0] == 'c' and
                                           x.args[0][1] & 1 for x in pa.events), e.where,
                           '%s: the descriptor is not watched for readability' % cls, path=pa)
                    handler(ctx, it, cls, l)
        cs = [f for f in pick(NS + cls + '::(ctor)')][:1]
        for f in cs:
            it, ps = ctx.paths(f, cfg())
            for pa in ps:
                v = [e.args[0] for e in pa.events if is_sig(e, 'init', 'store', 'exchange')]
                ctx.ob('armed', bool(v) and v[-1] == C(1), f.where, '%s: a new queue does not expect its first element to signal' % cls, path=pa)
    drains(ctx)
    signal(ctx)
    for r in RULES:
        ctx.need(r)


def handler(ctx, it, cls, l):
    for pa in it.run_lambda(l):
        ev = pa.events
        if pa.kind == 'backedge':
            continue
        rs = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == NFD + 'reset']
        arm = [i for i, e in enumerate(ev) if is_sig(e, 'exchange', 'store', 'cas') and
               (e.args[1] if e.name == 'cas' else e.args[0]) == C(1)]
        # looking at the queue: running the user function, inlined or not
        fn = [i for i, e in enumerate(ev) if e.kind == 'icall' or at_queue(e)]
        w = ev[0].where if ev else cls
        if not arm:
            # another consumer took the signal
            ctx.ob('rearm', cls.startswith('MPMC') and rs and it.holds(pa.st.iv, pred_not(truth(ev[rs[0]].res))) and not fn, w,
                   '%s: the handler ends without re-arming the wait flag' % cls, path=pa)
            continue
        ctx.ob('rearm', bool(rs) and rs[-1] < arm[0], w, '%s: the signal is cleared after the wait flag was re-armed, or not at all' % cls, path=pa)
        e = ev[arm[-1]]
        ctx.ob('rearm', len(arm) == 1 and (e.name == 'exchange' and order(e) in (4, 5) or e.name == 'store' and order(e) == 5), e.where,
               '%s: the wait flag is re-armed with too weak an order' % cls, path=pa)
        ctx.ob('rearm', bool(fn) and fn[0] > arm[0], w, '%s: the queue is looked at before the wait flag is re-armed, or not at all' % cls, path=pa)
        ic = [e for e in ev if e.kind == 'icall']
        for e in ic:
            more = it.holds(pa.st.iv, truth(e.res))
            none = it.holds(pa.st.iv, pred_not(truth(e.res)))
            nt = any(x.kind == 'call' and x.name == NFD + 'notify' for x in ev[ev.index(e):])
            ctx.ob('more-work', nt or none, e.where, '%s: the handler asked to be run again and is not' % cls, path=pa)


def at_queue(e):
    return e.kind == 'atomic' and e.obj and e.obj[0] == 'f' and e.obj[2] in (NS + 'MPMCQueue::head', NS + 'MPMCQueue::Block::head')


def drains(ctx):
    """every handler the library registers on a queue: the lambda handed to reg_handler"""
    p = ctx.prog
    n = 0
    roots = [NS + 'ThreadCall::(ctor)', NS + 'MsgNetwork::(ctor)']
    for qn in roots:
        for f in p.fns(qn):
            if f.copy or f.move:
                continue
            it = Interp(p, Config(extra_opaque={ERR}, not_opaque={NS + 'ThreadCall', NS + 'ThreadCall::Handle'},
                                  reads={NS + 'ConnPool::system_state'}))
            ps = it.run(f)
            ctx.note(f.qn, ps, it)
            for pa in ps:
                for e, l in lams(pa, lambda e: e.kind == 'call' and short(e.name) == 'reg_handler'):
                    n += 1
                    qs = it.run_lambda(l)
                    ctx.note('handler@%s' % e.where, qs, it)
                    for q in qs:
                        if q.kind != 'ret':
                            continue
                        dq = [x for x in q.events if x.kind == 'call' and short(x.name) == 'try_dequeue']
                        if q.ret is not None and it.holds(q.st.iv, truth(q.ret)):
                            ctx.ob('drain', True, e.where, '')
                            continue
                        ctx.ob('drain', bool(dq) and it.holds(q.st.iv, pred_not(truth(dq[-1].res))) or not_running(it, q), e.where,
                               '%s: the handler stops with elements possibly left and does not ask to be run again' % qn, path=q)
            break
    ctx.require(n >= 2, 'queue handlers not found')


def not_running(it, pa):
    """the path established that the network is not running"""
    for vp in pa.st.iv:
        if len(vp) == 1:
            t = vp[0][0]
            if any(x[0] == 'f' and short(x[2]) == 'system_state' for x in subterms(t)) and it.holds(pa.st.iv, pred_not(eq(t, C(1)))):
                return True
    return False


def signal(ctx):
    p = ctx.prog
    it = None
    fds = set()
    for m, fn, args in (('notify', 'write', 3), ('reset', 'read', 3)):
        f = p.one(NFD + m)
        it = Interp(p, Config(extra_opaque={ERR}, not_opaque={NS + 'NotifyFd'}))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            c = [e for e in pa.events if e.kind == 'call' and short(e.name) == fn]
            ctx.ob('signal', len(c) >= 1 and c[0].args[2] == C(8), f.where, 'NotifyFd::%s does not transfer the 8-byte count' % m, path=pa)
            if c:
                fds.add(c[0].args[0])
            if m == 'reset' and c:
                ok = eq(c[0].res, C(8))
                r = pa.ret
                good = r is not None and (r == ok or (it.holds(pa.st.iv, truth(r)) and it.holds(pa.st.iv, ok)) or
                                          (it.holds(pa.st.iv, pred_not(truth(r))) and it.holds(pa.st.iv, pred_not(ok))))
                ctx.ob('signal', good, f.where, 'NotifyFd::reset does not report whether a signal was taken', path=pa)
    f = p.one(NFD + 'read_fd')
    it = Interp(p, Config(not_opaque={NS + 'NotifyFd'}))
    for pa in it.run(f):
        fds.add(pa.ret)
    ctx.ob('signal', len(fds) == 1, f.where, 'the signalled, cleared and watched descriptors differ: %s' % ', '.join(show(x) for x in fds))
    g = p.gvars.get(NFD + 'dummy')
    if g is not None:
        v = g.get('cv')
        ctx.ob('signal', v is not None and int(v) > 0, 'src/event.cpp', 'the count written to signal is zero')
    f = p.one(NFD + '(ctor)')
    it = Interp(p, Config(extra_opaque={ERR}, not_opaque={NS + 'NotifyFd'}))
    for pa in it.run(f):
        c = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'eventfd']
        if pa.kind == 'ret':
            ctx.ob('signal', len(c) == 1 and c[0].args[1][0] == 'c' and c[0].args[1][1] & 0o4000, f.where,
                   'the signalling descriptor is not a non-blocking event counter', path=pa)
