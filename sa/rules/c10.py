"""C10: slot, publication and block-recycling protocol of the internal queues."""
from .common import *

TITLE = 'Internal queues publish, claim and recycle slots safely'
RULES = {
    'producer-claim': 'a slot is filled only by the producer whose compare-and-swap moved that block\'s tail past it, within the block',
    'publish': 'a filled slot is flagged available after it was filled, with release ordering',
    'consumer-claim': 'a slot is read only by the consumer that moved that block\'s head past it, after finding it below the tail',
    'consume-published': 'a slot is read only after its available flag was seen set with acquire ordering',
    'slot-reset': 'a read slot is flagged unavailable before the block is given back',
    'block-held': 'a block shared with other threads is touched only between acquiring a reference and releasing it',
    'ref-balance': 'every acquired block reference is released exactly once on every path',
    'ref-acquire': 'a reference is acquired only by a compare-and-swap from a non-zero count',
    'not-recycled': 'a producer uses a block only after seeing, while holding it, that it is not in the free list',
    'link': 'a new block is linked once, behind a full block, with its indices reset before and published afterwards',
    'recycle': 'a block goes to the free list only if it was never linked or was just unlinked while fully consumed',
    'no-leak': 'every fresh or unlinked block ends up linked or in the free list',
    'bounded': 'the queue grows only if asked to and only when no spare block is left',
    'result': 'enqueue/dequeue report success exactly when an element was stored/taken, and failure only when allowed',
    'rewind': 'putting an element back stores it in the slot just before the head and moves the head onto it',
    'init': 'a new queue consists of one empty block',
    'freelist-push': 'a node enters the free list once, when its last reference is released, linked to the previous top',
    'freelist-pop': 'a node leaves the free list only by a compare-and-swap of the top to its successor read while holding it',
    'order': 'memory orders are at least as strong as the hand-over needs',
}
EXPLAIN = ('All abstract paths of the queue operations (every loop iteration from an arbitrary state) are checked against the '
           'claim/publish/recycle protocol; each access to a slot or block is an obligation.')
ASSUME = ['the receiving end of a single-consumer queue is used by one thread (C02)',
          'linearizability and FIFO order over whole executions are not decided, only the per-operation protocol']
Q = NS + 'MPMCQueue::'
B = Q + 'Block::'
N = NS + 'FreeList::Node::'
FL = NS + 'FreeList::'
REL, ACQ = (3, 4, 5), (1, 2, 4, 5)
QCLS = {NS + 'MPMCQueue', NS + 'MPSCQueue', NS + 'MPMCQueueEventDriven', NS + 'MPSCQueueEventDriven'}


def base(loc):
    """pointer term of the object a field location belongs to"""
    if loc and loc[0] == 'f' and loc[1][0] == 'obj':
        return loc[1][1]
    return None


def slot(loc, field):
    """(block pointer, index) of a location inside elem[]/avail[]"""
    while loc:
        if loc[0] == 'i' and loc[1][0] == 'f' and loc[1][2] == B + field:
            return base(loc[1]), loc[2]
        if loc[0] in ('f', 'i'):
            loc = loc[1]
        else:
            return None
    return None


def order(e, k=-1):
    o = e.args[k] if e.args else ('c', 5)
    return o[1] if o[0] == 'c' else None


def at(e, field, *names):
    return e.kind == 'atomic' and e.obj and e.obj[0] == 'f' and e.obj[2] == field and (not names or e.name in names)


def is_null(it, facts, t):
    return t[0] == 'null' or it.holds(facts, eq(t, C(0)))


def non_null(it, facts, t):
    return it.holds(facts, pred_not(eq(t, C(0)))) or t[0] in ('new', 'loc')


class Scan:
    def __init__(self, ctx, it, pa, what, size, single):
        self.ctx, self.it, self.pa, self.what, self.size, self.single = ctx, it, pa, what, size, single
        self.ev = pa.events

    def ob(self, rule, ok, e, text, sig=None):
        where = e.where if hasattr(e, 'where') else e
        self.ctx.ob(rule, ok, where, '%s: %s' % (self.what, text), path=self.pa, sig=sig)

    def loads(self, i, b, field):
        """results of loading a field of block b before event i"""
        return [(j, x.res) for j, x in enumerate(self.ev[:i]) if at(x, field, 'load') and base(x.obj) == b]

    def any(self, i, b, field, pred):
        return any(pred(r) for _, r in self.loads(i, b, field))

    def full(self, i, b, facts):
        return self.any(i, b, B + 'tail', lambda t: self.it.holds(facts, le(C(self.size), t)))

    def drained(self, i, b, facts):
        return any(self.it.holds(facts, le(t, h)) for _, h in self.loads(i, b, B + 'head') for _, t in self.loads(i, b, B + 'tail'))

    def shared(self):
        """block pointers this path got from the queue's head or tail"""
        return {x.res for x in self.ev if (at(x, Q + 'head', 'load') or at(x, Q + 'tail', 'load'))}

    def fresh(self):
        res = {}
        for j, x in enumerate(self.ev):
            if x.kind == 'new' and short(x.name) == 'Block':
                res[x.res] = j
            elif x.kind == 'call' and x.name == FL + 'pop':
                for y in self.ev[j + 1:]:
                    for t in ([y.obj] if y.obj else []) + list(y.args):
                        for u in subterms(t):
                            if u[0] in ('s', 'out') and self.from_pop(u, x):
                                res.setdefault(u, j)
        return res

    def from_pop(self, u, x):
        return u[0] == 's' and str(u[3]).startswith('out') and x.res and u[1:3] == x.res[1:3]

    def run(self, producer):
        it, ev = self.it, self.ev
        shared = self.shared()
        held = {}
        fresh = self.fresh()
        state = {}                        # fresh/unlinked block -> 'own' | 'linked' | 'free' | 'unlinked'
        filled = read = 0
        gone = set()
        for i, e in enumerate(ev):
            f = e.facts
            if e.kind == 'new' and short(e.name) == 'Block':
                state[e.res] = ('own', e)
            for b, j in fresh.items():
                if j == i and b not in state and e.kind == 'call':
                    ok = it.holds(f, truth(e.res)) or it.holds(self.pa.st.iv, truth(e.res))
                    state[b] = ('own', e)
            # references
            if at(e, N + 'refcnt'):
                b = base(e.obj)
                if e.name == 'cas' and b in shared:
                    exp, des = e.args[0], e.args[1]
                    self.ob('ref-acquire', des == lin_add(exp, C(1)) and it.holds(f, le(C(1), exp)), e,
                            'a block reference is taken without making sure the count was not zero')
                    if e.res == C(1):
                        held[b] = held.get(b, 0) + 1
                elif e.name in ('rmw', 'store', 'exchange') and b in shared:
                    self.ob('ref-acquire', False, e, 'the reference count of a shared block is changed other than by compare-and-swap')
            elif e.kind == 'call' and e.name == FL + 'release_ref':
                b = e.args[0]
                if b in shared:
                    self.ob('ref-balance', held.get(b, 0) > 0, e, 'a block reference is released that is not held')
                    held[b] = held.get(b, 0) - 1
            else:
                locs = [e.obj] if e.obj else []
                use = {base(x) for l in locs for x in prefixes(l)} - {None}
                if e.kind in ('write', 'pnew', 'call'):
                    for a in list(e.args) + list((e.x or {}).get('vals', ())):
                        for t in subterms(a):
                            if t[0] in ('init', 'loc'):
                                use |= {base(x) for x in prefixes(t[1])} - {None}
                for b in use & shared:
                    if not self.single:
                        self.ob('block-held', held.get(b, 0) > 0, e, 'a shared block is used without holding a reference to it')
                    self.ob('block-held', b not in gone, e, 'a block is used after it was given to the free list')
            # producer side
            s = slot(e.obj, 'elem') if e.kind == 'pnew' else None
            if s and producer:
                b, ix = s
                filled += 1
                c = [x for x in ev[:i] if at(x, B + 'tail', 'cas') and base(x.obj) == b and x.res == C(1) and x.args[0] == ix
                     and x.args[1] == lin_add(ix, C(1))]
                self.ob('producer-claim', len(c) == 1 and it.holds(c[0].facts, lt(ix, C(self.size))), e,
                        'a slot is filled without having claimed that index of that block')
                self.ob('not-recycled', any(at(x, N + 'freed', 'load') and base(x.obj) == b and it.holds(f, pred_not(truth(x.res)))
                                            and any(at(y, N + 'refcnt', 'cas') and base(y.obj) == b and y.res == C(1) for y in ev[:j])
                                            for j, x in enumerate(ev[:i])), e,
                        'a slot is filled in a block not known to be outside the free list')
                p = [x for x in ev[i + 1:] if x.kind == 'atomic' and x.name in ('store', 'exchange') and slot(x.obj, 'avail') == s]
                self.ob('publish', len(p) == 1 and p[0].args[0] == C(1), e, 'a filled slot is not flagged available')
                if p:
                    self.ob('order', order(p[0]) in REL, p[0], 'the available flag is set without release ordering')
                    rel_ = [j for j, x in enumerate(ev) if x.kind == 'call' and x.name == FL + 'release_ref' and x.args[0] == b]
                    self.ob('block-held', not rel_ or rel_[-1] > ev.index(p[0]), p[0], 'the block is released before the slot is published')
            if e.kind == 'atomic' and e.name in ('store', 'exchange') and producer and slot(e.obj, 'avail') and e.args[0] != C(0):
                self.ob('publish', any(x.kind == 'pnew' and slot(x.obj, 'elem') == slot(e.obj, 'avail') for x in ev[:i]), e,
                        'a slot is flagged available before it was filled')
            # consumer side
            r = self.reads(e)
            if r and not producer:
                b, ix = r
                if not any(self.reads(x) == r for x in ev[:i]):
                    read += 1
                    self.consumed(i, e, b, ix)
                rs = [j for j, x in enumerate(ev) if x.kind == 'atomic' and x.name in ('store', 'exchange') and slot(x.obj, 'avail') == r
                      and x.args[0] == C(0)]
                rl = [j for j, x in enumerate(ev) if x.kind == 'call' and x.name in (FL + 'release_ref', FL + 'push') and x.args[0] == b]
                self.ob('slot-reset', bool(rs) and rs[-1] > i and (not rl or rl[0] > rs[-1]), e,
                        'a slot is not flagged unavailable between reading it and giving the block back')
            # linking
            if e.kind == 'atomic' and at(e, B + 'next', 'cas', 'store', 'exchange') and base(e.obj) in shared:
                b, n = base(e.obj), e.args[1 if e.name == 'cas' else 0]
                self.ob('link', e.name == 'cas' and is_null(it, f, e.args[0]) and self.full(i, b, f), e,
                        'a block is linked other than by compare-and-swap behind a full last block')
                for fl, v in (('head', C(0)), ('tail', C(0)), ('next', None)):
                    st_ = [x for x in ev[:i] if at(x, B + fl, 'store', 'init', 'exchange') and base(x.obj) == n]
                    self.ob('link', bool(st_) and (st_[-1].args[0] == v if v else is_null(it, f, st_[-1].args[0])), e,
                            'a block is linked before its %s was reset' % fl)
                fr = [x for x in ev[:i] if at(x, N + 'freed', 'store', 'exchange') and base(x.obj) == n]
                self.ob('link', not fr, e, 'a block is declared usable before it is linked')
                if e.res == C(1) or e.name != 'cas':
                    self.ob('order', order(e) in REL, e, 'a block is linked without release ordering')
                    ts = [x for x in ev[i + 1:] if at(x, Q + 'tail') and x.name in ('store', 'exchange') and x.args[0] == n
                          or at(x, Q + 'tail', 'cas') and x.args[1] == n and x.res == C(1)]
                    self.ob('link', len(ts) >= 1, e, 'a linked block does not become the tail')
                    for x in ts:
                        self.ob('order', order(x) in REL, x, 'the tail is moved without release ordering')
                    fs = [x for x in ev[i + 1:] if at(x, N + 'freed', 'store', 'exchange') and base(x.obj) == n and x.args[0] == C(0)]
                    self.ob('link', len(fs) >= 1, e, 'a linked block stays marked as recycled')
                    state[n] = ('linked', e)
            if at(e, Q + 'tail', 'store', 'exchange', 'cas') and producer:
                n = e.args[1 if e.name == 'cas' else 0]
                self.ob('link', state.get(n, ('',))[0] == 'linked' or self.helped(i, n), e, 'the tail is set to a block that was not linked')
            # unlinking
            if at(e, Q + 'head', 'store', 'exchange') or at(e, Q + 'head', 'cas') and e.res == C(1):
                if not producer and self.what.find('rewind') < 0:
                    n = e.args[1 if e.name == 'cas' else 0]
                    b = e.args[0] if e.name == 'cas' else ([x.res for x in ev[:i] if at(x, Q + 'head', 'load')] or [None])[-1]
                    ok = any(x == n for _, x in self.loads(i, b, B + 'next')) and non_null(it, f, n)
                    self.ob('recycle', ok and self.full(i, b, f) and self.drained(i, b, f), e,
                            'the head moves on from a block that is not fully consumed, or not to its successor')
                    self.ob('recycle', e.name == 'cas' or self.single, e, 'the shared head is moved without compare-and-swap')
                    if not self.single:
                        self.ob('order', order(e) in REL, e, 'the head is moved without release ordering')
                        for x in ev[:i]:
                            if at(x, B + 'next', 'load') and x.res == n:
                                self.ob('order', order(x) in ACQ, x, 'the successor of a block is picked up without acquire ordering')
                    state[b] = ('unlinked', e)
            if e.kind == 'call' and e.name == FL + 'push':
                b = e.args[0]
                self.ob('recycle', state.get(b, ('',))[0] in ('own', 'unlinked'), e, 'a block that may still be linked is recycled')
                state[b] = ('free', e)
                if held.get(b, 0) <= 0:
                    gone.add(b)
            if at(e, Q + 'head', 'load') and not producer and not self.single or at(e, Q + 'tail', 'load') and producer:
                self.ob('order', order(e) in ACQ, e, 'a shared block is picked up without acquire ordering')
        cut = loop_start(self.pa)
        for b, n in held.items():
            acq = [j for j, x in enumerate(ev) if at(x, N + 'refcnt', 'cas') and base(x.obj) == b and x.res == C(1)]
            if n == 1 and acq and acq[-1] < cut:
                continue                # the path ends inside an inner loop the reference is held across
            self.ob('ref-balance', n == 0, ev[-1].where if ev else self.what, 'a block reference is still held at the end of a path')
        popped = [x for x in ev if x.kind == 'call' and x.name == FL + 'pop']
        for b, (s_, e) in state.items():
            if ev.index(e) < cut:
                continue
            self.ob('no-leak', s_ in ('linked', 'free'), e, 'a block is neither linked nor given to the free list')
        return filled, read, popped

    def helped(self, i, n):
        """n is the successor some other producer linked behind the tail"""
        return any(at(x, B + 'next', 'load') and x.res == n and non_null(self.it, self.ev[i].facts, n) for x in self.ev[:i])

    def reads(self, e):
        if e.kind not in ('write', 'call', 'pnew', 'new', 'vcall'):
            return None
        for a in list(e.args) + list((e.x or {}).get('vals', ())):
            for t in subterms(a):
                if t[0] in ('init', 'loc'):
                    s = slot(t[1], 'elem')
                    if s and not (e.kind == 'pnew'):
                        return s
        return None

    def consumed(self, i, e, b, ix):
        it, ev, f = self.it, self.ev, e.facts
        cas = [x for x in ev[:i] if at(x, B + 'head', 'cas') and base(x.obj) == b and x.res == C(1) and x.args[0] == ix and
               x.args[1] == lin_add(ix, C(1))]
        st_ = [x for x in ev if at(x, B + 'head', 'store') and base(x.obj) == b and x.args[0] == lin_add(ix, C(1))]
        lo = self.any(i, b, B + 'head', lambda h: h == ix)
        ok = len(cas) == 1 if not self.single else len(cas) + len(st_) == 1 and lo
        self.ob('consumer-claim', ok, e, 'a slot is read by a consumer that did not move the head past it')
        # the bound is checked before the claim
        cl = (cas or st_ or [e])[0]
        self.ob('consumer-claim', self.any(ev.index(cl), b, B + 'tail', lambda t: it.holds(cl.facts, lt(ix, t))), e,
                'a slot is claimed without finding it below the tail of its block')
        av = [x for x in ev[:i] if x.kind == 'atomic' and x.name == 'load' and slot(x.obj, 'avail') == (b, ix) and it.holds(f, truth(x.res))]
        self.ob('consume-published', bool(av), e, 'a slot is read without having seen it available')
        if av:
            self.ob('order', any(order(x) in ACQ for x in av), av[-1], 'the available flag is read without acquire ordering')


def loop_start(pa):
    """index of the head of the innermost loop a path ends in (0 if it does not)"""
    ev = pa.events
    if pa.kind != 'backedge' or not ev or ev[-1].kind != 'backedge':
        return 0
    l = [i for i, x in enumerate(ev) if x.kind == 'loop' and x.where == ev[-1].where]
    return l[-1] if l else 0


def prefixes(loc):
    while loc and loc[0] in ('f', 'i'):
        yield loc
        loc = loc[1]


def elem_only(f):
    return 'verif_driver::Elem' in f.fn


def check(ctx):
    p = ctx.prog
    g = p.gvars.get(NS + 'MPMCQ_SIZE')
    ctx.require(g is not None and g.get('cv') is not None, 'block size constant not found')
    size = int(g['cv'])
    cfg = lambda: Config(extra_opaque={ERR}, not_opaque=QCLS)

    def roots(qn):
        fs = [f for f in p.fns(qn) if elem_only(f)]
        ctx.require(fs, 'no instantiation of ' + qn)
        return fs
    n = 0
    for qn in ('MPMCQueue::enqueue', 'MPMCQueue::try_enqueue', 'MPSCQueueEventDriven::enqueue', 'MPMCQueueEventDriven::enqueue'):
        for f in roots(NS + qn):
            it, ps = ctx.paths(f, cfg())
            for pa in ps:
                sc = Scan(ctx, it, pa, qn, size, False)
                filled, _, popped = sc.run(True)
                for e in pa.events:
                    if e.kind == 'new' and short(e.name) == 'Block':
                        grow = not qn.endswith('try_enqueue') and any(
                            it.holds(e.facts, truth(('init', ('p', f.qn, q['n'])))) for q in f.params[1:])
                        sc.ob('bounded', grow and any(it.holds(e.facts, pred_not(truth(x.res))) for x in popped), e,
                              'a queue asked not to grow grows, or grows while a spare block exists')
                if pa.kind == 'backedge':
                    sc.ob('result', filled == 0, pa.events[-1], 'an element is stored and the operation starts over')
                elif pa.kind == 'ret':
                    ok1 = it.holds(pa.st.iv, truth(pa.ret))
                    ok0 = it.holds(pa.st.iv, pred_not(truth(pa.ret)))
                    w = pa.events[-1] if pa.events else f.where
                    sc.ob('result', ok1 or ok0, w, 'the result does not tell whether the element was stored')
                    sc.ob('result', filled == (1 if ok1 else 0), w, 'the result and whether an element was stored disagree', sig=qn)
                    if ok0:
                        bounded = qn.endswith('try_enqueue') or any(
                            it.holds(pa.st.iv, pred_not(truth(('init', ('p', f.qn, q['n']))))) for q in f.params[1:])
                        sc.ob('result', bounded and any(it.holds(pa.st.iv, pred_not(truth(x.res))) for x in popped), w,
                              'an element is refused although the queue may grow or a spare block exists')
                n += 1
    for qn, single in (('MPMCQueue::try_dequeue', False), ('MPSCQueue::try_dequeue', True)):
        for f in roots(NS + qn):
            it, ps = ctx.paths(f, cfg())
            for pa in ps:
                sc = Scan(ctx, it, pa, qn, size, single)
                _, read, _ = sc.run(False)
                if pa.kind == 'backedge':
                    sc.ob('result', read == 0, pa.events[-1], 'an element is taken and the operation starts over')
                elif pa.kind == 'ret':
                    ok1 = it.holds(pa.st.iv, truth(pa.ret))
                    ok0 = it.holds(pa.st.iv, pred_not(truth(pa.ret)))
                    w = pa.events[-1] if pa.events else f.where
                    sc.ob('result', (ok1 or ok0) and read == (1 if ok1 else 0), w, 'the result and whether an element was taken disagree', sig=qn)
                    if ok0:
                        k = len(pa.events)
                        emp = any(sc.drained(k, b, pa.st.iv) and
                                  (sc.any(k, b, B + 'tail', lambda t: it.holds(pa.st.iv, lt(t, C(size)))) or
                                   sc.any(k, b, B + 'next', lambda t: is_null(it, pa.st.iv, t)))
                                  for b in sc.shared())
                        sc.ob('result', emp, w, 'the queue is reported empty without having found it so')
                    if ok1:
                        outs = [x for x in pa.events if x.kind == 'write' and sc.reads(x) and
                                any(y == ('p', f.qn, f.params[0]['n']) for y in chain(x.obj))]
                        sc.ob('result', len(outs) >= 1, w, 'the element taken is not handed to the caller', sig=qn + ':out')
    for f in roots(NS + 'MPSCQueue::rewind'):
        it, ps = ctx.paths(f, cfg())
        for pa in ps:
            if pa.kind == 'ret':
                rewind(ctx, it, pa, f, size)
    # a new queue
    for f in [x for x in p.fns(NS + 'MPMCQueue::(ctor)') if elem_only(x)][:1]:
        it, ps = ctx.paths(f, cfg())
        for pa in ps:
            blk = [e.res for e in pa.events if e.kind == 'new']
            ctx.ob('init', len(blk) == 1, f.where, 'a new queue does not have exactly one block', path=pa)
            def last(field, b):
                r = [e.args[0] for e in pa.events if at(e, field, 'store', 'init', 'exchange') and e.args]
                return r[-1] if r else None
            hd, tl = last(Q + 'head', None), last(Q + 'tail', None)
            lds = [e.res for e in pa.events if at(e, Q + 'head', 'load')]
            ctx.ob('init', hd in blk and (tl in blk or tl in lds), f.where, 'head and tail of a new queue are not its block', path=pa)
            for fl in ('head', 'tail', 'next'):
                v = last(B + fl, None)
                ctx.ob('init', v is not None and (v == C(0) or v[0] == 'null'), f.where, '%s of the first block is not reset' % fl, path=pa)
    freelist(ctx)
    for r in ('producer-claim', 'publish', 'consumer-claim', 'consume-published', 'slot-reset', 'block-held', 'ref-balance', 'ref-acquire',
              'not-recycled', 'link', 'recycle', 'no-leak', 'bounded', 'result', 'rewind', 'init', 'freelist-push', 'freelist-pop'):
        ctx.need(r)


def chain(loc):
    while loc:
        yield loc
        loc = loc[1] if loc[0] in ('f', 'i') else None


def rewind(ctx, it, pa, f, size):
    ev = pa.events
    w = f.where
    pn = [(i, e) for i, e in enumerate(ev) if e.kind == 'pnew' and slot(e.obj, 'elem')]
    ctx.ob('rewind', len(pn) == 1 and it.holds(pa.st.iv, truth(pa.ret)), w, 'the element put back is not stored exactly once', path=pa)
    if len(pn) != 1:
        return
    i, e = pn[0]
    b, ix = slot(e.obj, 'elem')
    heads = [x.res if x.name == 'load' else x.args[0] for x in ev[:i] if at(x, B + 'head', 'load', 'store') and base(x.obj) == b]
    ctx.ob('rewind', any(ix == lin_add(h, C(-1)) for h in heads), e.where, 'the element put back is not stored just before the head', path=pa)
    cur = [x.res for x in ev[:i] if at(x, Q + 'head', 'load')]
    newh = [(j, x) for j, x in enumerate(ev) if at(x, Q + 'head', 'store', 'exchange')]
    ctx.ob('rewind', b in cur or any(x.args[0] == b for _, x in newh), e.where, 'the element put back is not stored in the first block', path=pa)
    if newh:
        j, x = newh[-1]
        nb = x.args[0]
        def last(fl):
            r = [y.args[0] for y in ev[:i] if at(y, B + fl, 'store', 'init') and base(y.obj) == nb]
            return r[-1] if r else None
        ctx.ob('rewind', last('head') == C(size) and last('tail') == C(size) and last('next') in cur, x.where,
               'a block put in front is not an empty, full-length block leading to the previous first block', path=pa)
    else:
        ctx.ob('rewind', any(it.holds(e.facts, le(C(1), h)) for h in heads) or
               any(it.holds(e.facts, le(C(1), x.res)) for x in ev[:i] if at(x, B + 'head', 'load') and base(x.obj) in cur), e.where,
               'an element is put back before the first slot of a block', path=pa)
    ctx.ob('rewind', any(x.kind == 'atomic' and x.name == 'store' and slot(x.obj, 'avail') == (b, ix) and x.args[0] == C(1) for x in ev), e.where,
           'the element put back is not flagged available', path=pa)
    hs = [x for x in ev if at(x, B + 'head', 'store') and base(x.obj) == b]
    ctx.ob('rewind', bool(hs) and hs[-1].args[0] == ix, e.where, 'the head is not moved onto the element put back', path=pa)


def freelist(ctx):
    p = ctx.prog
    # release_ref
    f = p.one(FL + 'release_ref')
    u = ('init', ('p', f.qn, f.params[0]['n']))
    it = Interp(p, Config(extra_opaque={ERR}, not_opaque={NS + 'FreeList'}))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        ev = pa.events
        dec = [(i, e) for i, e in enumerate(ev) if at(e, N + 'refcnt', 'rmw') and base(e.obj) == u and e.args[0] == C(-1)]
        ctx.ob('freelist-push', len(dec) == 1, f.where, 'a reference is not released exactly once', path=pa)
        if len(dec) != 1:
            continue
        old = dec[0][1].res
        ins = [(i, e) for i, e in enumerate(ev) if at(e, FL + 'top') and (e.name == 'cas' and e.res == C(1) or e.name in ('store', 'exchange'))]
        lastref = it.holds(pa.st.iv, eq(old, C(1)))
        if pa.kind == 'backedge':
            ctx.ob('freelist-push', not ins, f.where, 'a node may be put in the free list twice', path=pa)
            continue
        if not ins:
            ctx.ob('freelist-push', it.holds(pa.st.iv, pred_not(eq(old, C(1)))), f.where,
                   'a node whose last reference went is not put in the free list', path=pa)
            continue
        i, e = ins[0]
        ctx.ob('freelist-push', lastref and len(ins) == 1 and e.name == 'cas' and e.args[1] == u, e.where,
               'a node is put in the free list other than once, when its last reference went', path=pa)
        nx = [x for x in ev[:i] if at(x, N + 'next', 'store') and base(x.obj) == u]
        ctx.ob('freelist-push', bool(nx) and nx[-1].args[0] == e.args[0], e.where, 'a node in the free list does not lead to the previous top', path=pa)
        ctx.ob('order', order(e) in REL, e.where, 'a node enters the free list without release ordering', path=pa)
        rc = [x for x in ev[dec[0][0] + 1:] if at(x, N + 'refcnt', 'store') and base(x.obj) == u]
        ctx.ob('freelist-push', len(rc) == 1 and rc[0].args[0] == C(1), e.where, 'a node in the free list does not count as one reference', path=pa)
    # push
    f = p.one(FL + 'push')
    u = ('init', ('p', f.qn, f.params[0]['n']))
    it = Interp(p, Config(extra_opaque={ERR, FL + 'release_ref'}, not_opaque={NS + 'FreeList'}))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        ev = pa.events
        fr = [i for i, e in enumerate(ev) if at(e, N + 'freed', 'store', 'exchange') and base(e.obj) == u and e.args[0] == C(1)]
        rl = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == FL + 'release_ref' and e.args[0] == u]
        ctx.ob('freelist-push', len(rl) == 1 and bool(fr) and fr[0] < rl[0], f.where,
               'a recycled node is not marked as such before its reference is released', path=pa)
    # pop
    f = p.one(FL + 'pop')
    it = Interp(p, Config(extra_opaque={ERR, FL + 'release_ref'}, not_opaque={NS + 'FreeList'}))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    out = ('p', f.qn, f.params[0]['n'])
    for pa in ps:
        ev = pa.events
        tops = {e.res for e in ev if at(e, FL + 'top', 'load')}
        for e in ev:
            if at(e, FL + 'top', 'load'):
                ctx.ob('order', order(e) in ACQ, e.where, 'the top of the free list is read without acquire ordering', path=pa)
        held = {}
        taken = None
        for i, e in enumerate(ev):
            b = base(e.obj) if e.obj else None
            if at(e, N + 'refcnt', 'cas') and e.res == C(1):
                ctx.ob('ref-acquire', e.args[1] == lin_add(e.args[0], C(1)) and it.holds(e.facts, le(C(1), e.args[0])), e.where,
                       'a node reference is taken without making sure the count was not zero', path=pa)
                held[b] = held.get(b, 0) + 1
            elif at(e, N + 'refcnt', 'rmw', 'store', 'exchange'):
                ctx.ob('ref-acquire', False, e.where, 'the reference count of a shared node is changed other than by compare-and-swap', path=pa)
            elif e.kind == 'call' and e.name == FL + 'release_ref':
                ctx.ob('ref-balance', held.get(e.args[0], 0) > 0, e.where, 'a node reference is released that is not held', path=pa)
                held[e.args[0]] = held.get(e.args[0], 0) - 1
            elif at(e, N + 'next', 'load'):
                ctx.ob('freelist-pop', held.get(b, 0) > 0, e.where, 'the successor of a node is read without holding the node', path=pa)
            elif at(e, FL + 'top', 'store', 'exchange', 'cas'):
                u = e.args[0] if e.name == 'cas' else None
                nx = [x.res for x in ev[:i] if at(x, N + 'next', 'load') and base(x.obj) == u]
                ctx.ob('freelist-pop', e.name == 'cas' and held.get(u, 0) > 0 and e.args[1] in nx, e.where,
                       'the top of the free list is changed other than by compare-and-swap to the successor of a held node', path=pa)
                if e.res == C(1):
                    taken = u
            elif e.kind == 'write' and e.obj == out:
                ctx.ob('freelist-pop', taken is not None and e.args[0] == taken, e.where, 'a node is returned that was not removed', path=pa)
        for b, k in held.items():
            ctx.ob('ref-balance', k == 0, ev[-1].where, 'a node reference is still held at the end of a path', path=pa)
        if taken is not None:
            ctx.ob('freelist-pop', any(e.kind == 'write' and e.obj == out and e.args[0] == taken for e in ev), f.where,
                   'a removed node is not returned', path=pa)
        if pa.kind == 'ret' and it.holds(pa.st.iv, pred_not(truth(pa.ret))):
            ctx.ob('freelist-pop', any(is_null(it, pa.st.iv, t) for t in tops), f.where, 'the free list is reported empty without being so', path=pa)
            ctx.ob('freelist-pop', taken is None, f.where, 'a removed node is reported as none', path=pa)
        elif pa.kind == 'backedge' and taken is not None:
            pass
