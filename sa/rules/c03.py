"""A connection is torn down once and completely."""
from .common import *
from ..system import EV_CLASSES
from ..interp import subterms
TITLE = 'Each connection is torn down exactly once and completely'
EXPLAIN = ('Typestate over the terminated flag of a connection: every task path, continued through the tasks it posts, is reduced '
           'to its teardown steps (claim, event removal, pool removal, notification, upper-layer teardown, close); the steps may '
           'follow only a won claim, and after a won claim each has to occur, once, in an order that never leaves an event '
           'or a pool entry behind a closed descriptor.')
RULES = {'claim-first': 'pool removal, notification and close of a connection are preceded by winning its terminated flag',
         'lost-claim': 'a task that lost the claim performs no teardown step',
         'complete': 'after a won claim the connection is removed, announced as lost and closed exactly once',
         'events': 'every event object of the connection and its queue handler are removed before the descriptor is closed',
         'order': 'the pool entry is gone and the upper layer informed before any task can run after the close',
         'request': 'a termination request always leads to a task that claims the connection',
         'pooled': 'a connection that owns a descriptor is entered in the pool',
         'stop': 'stopping tears down and closes every connection left in the pool, after all threads were joined',
         'close-owner': 'a descriptor is closed only by the owner of the object that records it'}
ASSUME = ['a task posted on a running loop is executed once (C12, C13)']
POOL = NS + 'ConnPool::pool'
TERM = CONN + 'terminated'
FD = CONN + 'fd'
POST = (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call')


def lam_of(e):
    if e.kind == 'call' and e.name in POST:
        v = e.x['vals'][0]
        while v[0] == 'st':
            v = v[1]
        return v if v[0] == 'lam' else None
    return None


class Td:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.it = ctx, s, s.interp
        self.lam = {}
        self.evf = set()
        for c in s.chain:
            r = ctx.prog.rec_by_qn.get(c + '::Conn')
            for f in (r or {}).get('fields', []):
                if any(str(f.get('t', '')).endswith(x) or x in str(f.get('t', '')) for x in EV_CLASSES):
                    self.evf.add(c + '::Conn::' + f['n'])
        ctx.require(len(self.evf) >= 2, 'event fields of the connection class not found')

    def run(self, v):
        k = repr((v[3], [c[3] for c in v[4]]))
        if k not in self.lam:
            self.lam[k] = self.it.run_lambda(v)
        return self.lam[k]

    def notifies(self, e):
        """posted task announces the loss of a connection to the user"""
        v = lam_of(e)
        if v is None or not e.obj or self.s.tcall_role(e.obj) != USER:
            return None
        for p in self.run(v):
            for x in p.events:
                if x.kind == 'icall' and x.name == NS + 'ConnPool::conn_cb' and len(x.args) == 2:
                    if x.args[1] in (C(0), ('null',)):
                        return self.conn_of_handle(x, v)
        return None

    def conn_of_handle(self, x, v):
        for d, n, k, cv in v[4]:
            if any(cv == t for a in (x.x or {}).get('vals', x.args) for t in subterms(a)) or any(cv == t for a in x.args for t in subterms(a)):
                return ('obj', cv)
        for d, n, k, cv in v[4]:
            if n == 'conn' or 'onn' in str(n):
                return ('obj', cv)
        return None

    def token(self, e):
        """(step, connection) or None"""
        c = claim(e)
        if c:
            return ('claim', c)
        if e.kind in ('call', 'write') and e.obj and e.obj[0] == 'f' and e.obj[2] in self.evf:
            if e.kind == 'write' or short(e.name) == 'clear':
                return ('clear:' + short(e.obj[2]), e.obj[1])
        if e.kind == 'call' and short(e.name) == 'unreg_handler' and e.obj:
            l = e.obj
            while l[0] == 'f':
                if l[2] == CONN + 'send_buffer':
                    return ('unreg', l[1])
                l = l[1]
        if e.kind == 'call' and e.obj and e.obj[0] == 'f' and e.obj[2] == POOL and short(e.name) in ('erase', 'extract'):
            for a in (e.x or {}).get('vals', e.args):
                for t in subterms(a):
                    if t[0] == 'init' and t[1][0] == 'f' and t[1][2] == FD:
                        return ('erase', t[1][1])
            return ('erase', None)
        if e.kind == 'call' and e.name == 'close':
            a = e.x['vals'][0] if e.x and 'vals' in e.x else e.args[0]
            if a[0] == 'init' and a[1][0] == 'f' and a[1][2] == FD:
                return ('close', a[1][1])
            return None
        if e.kind == 'enter' and short(e.name) == 'on_dispatcher_teardown':
            return ('upper', None)
        if e.kind == 'call' and e.name in POST:
            n = self.notifies(e)
            if n:
                return ('notify', n)
        return None

    def seqs(self, pa, start, depth=0):
        """step sequences of a path from an event on, continued through posted tasks"""
        out = [[]]
        for e in pa.events[start:]:
            t = self.token(e)
            if t:
                for o in out:
                    o.append((t[0], t[1], e, id(pa)))
                continue
            v = lam_of(e)
            if v is not None and depth < 2 and self.s.tcall_role(e.obj) in (DISP, WORKER):
                subs = []
                for p in self.run(v):
                    if any(self.token(x) or lam_of(x) for x in p.events):
                        for q in self.seqs(p, 0, depth + 1):
                            if q and q not in subs:
                                subs.append(q)
                    elif [] not in subs:
                        subs.append([])
                if any(subs):
                    out = [o + q for o in out for q in subs]
        return out

    def claims(self, v, depth=0):
        """does every path of the posted task end in a claim (own, or in a task it posts)?"""
        for p in self.run(v):
            if any((self.token(x) or ('',))[0] == 'claim' for x in p.events):
                continue
            if depth < 2 and any(lam_of(x) is not None and self.claims(lam_of(x), depth + 1) for x in p.events):
                continue
            if known_terminated(self.it, p, len(p.events)):
                continue
            return False
        return True


def known_terminated(it, pa, i):
    facts = pa.st.iv
    for x in pa.events[:i]:
        if x.kind == 'atomic' and x.obj and x.obj[0] == 'f' and x.obj[2] == TERM and x.res is not None and \
                (lost(it, x, facts) if x.name in ('exchange', 'cas') else it.holds(facts, truth(x.res))):
            return True
    return False


def joined(evs, i):
    return any(e.kind == 'call' and short(e.name) == 'join' and 'thread' in e.name for e in evs[:i])


def check(ctx):
    marks = frozenset(f.qn for f in ctx.prog.functions.values() if short(f.qn) == 'on_dispatcher_teardown')
    ctx.require(bool(marks), 'upper-layer teardown function not found')
    for net in ('MsgNetwork', 'ClientNetwork', 'PeerNetwork'):
        s = ctx.system(net, marks=marks)
        td = Td(ctx, s)
        for t in s.tasks:
            seen = set()
            for pa in t.paths:
                task(ctx, td, t, pa, seen)
        request(ctx, td)
        stop(ctx, td)
    ctx.need('complete', 6)
    ctx.need('claim-first', 6)
    ctx.need('request', 3)
    ctx.need('pooled', 4)
    ctx.need('stop', 3)


def task(ctx, td, t, pa, seen):
    s, it = td.s, td.it
    evs = pa.events
    fresh = {('obj', e.res) for e in evs if e.kind == 'new' and e.res is not None}
    sg = '%s:%s' % (short(s.net), t.label.split(NS, 1)[-1])
    for i, e in enumerate(evs):
        tok = td.token(e)
        if not tok:
            if e.kind == 'call' and e.name == 'close':
                close_owner(ctx, td, t, pa, i, sg)
            continue
        what, conn = tok
        if what == 'claim':
            if conn in fresh or joined(evs, i) or (t.root is not None and short(t.root.qn) == 'set_terminated'):
                continue
            mine = won(it, e, pa.st.iv)
            seqs = td.seqs(pa, i + 1)
            for q in seqs:
                key = (e.where, mine, tuple((x[0], x[1]) for x in q))
                steps = [x for x in q if x[1] in (conn, None)]
                names = [x[0] for x in steps]
                if key in seen:
                    continue
                seen.add(key)
                if not mine:
                    bad = [n for n in names if n in ('erase', 'close', 'notify', 'upper')]
                    ctx.ob('lost-claim', not bad, e.where, 'teardown step (%s) without having won the claim' % ', '.join(bad), pa, sig=sg)
                    continue
                if pa.kind == 'throw':
                    ctx.ob('complete', False, e.where, 'an exception leaves a claimed connection half torn down', pa, sig=sg + ':throw')
                    continue
                for n, msg in (('erase', 'removed from the pool'), ('notify', 'announced as lost'), ('close', 'closed')):
                    ctx.ob('complete', names.count(n) == 1, e.where, 'after the claim the connection is %s %d times' % (msg, names.count(n)), pa, sig=sg + ':' + n)
                if 'close' not in names:
                    continue
                ci = names.index('close')
                for f in sorted(td.evf):
                    ctx.ob('events', 'clear:' + short(f) in names[:ci], e.where, 'event %s is not removed before the descriptor is closed' % short(f), pa,
                           sig=sg + ':' + short(f))
                ctx.ob('events', 'unreg' in names[:ci], e.where, 'the queue handler is not removed before the descriptor is closed', pa, sig=sg + ':unreg')
                same = {x[0] for x in steps if x[3] == steps[ci][3]}      # one dispatcher task: nothing can run in between
                ctx.ob('order', 'erase' in names[:ci] or 'erase' in same, e.where, 'the descriptor is closed while the pool still maps it to the connection', pa, sig=sg + ':erase')
                ctx.ob('order', 'upper' in names[:ci] or 'upper' in same, e.where, 'the upper layer never lets go of the closed connection', pa, sig=sg + ':upper')
        elif what in ('erase', 'close', 'notify'):
            ok = joined(evs, i) or (conn is not None and won_before(it, evs, i, conn, pa.st.iv))
            if not ok and t.lam is not None:
                ps = posters(s, t)
                ok = bool(ps)
                for pp, pi, pe, v, u in ps:
                    names = [c[1] for c in t.lam[4] if conn is not None and ('obj', c[3]) == conn]
                    good = any(won_before(it, pp.events, pi, ('obj', c[3]), pp.st.iv) for c in v[4] if c[1] in names)
                    ok = ok and good
            key = ('cf', e.where, ok)
            if key not in seen:
                seen.add(key)
                ctx.ob('claim-first', ok, e.where, 'a connection is %s by a task that did not claim it' %
                       {'erase': 'removed from the pool', 'close': 'closed', 'notify': 'announced as lost'}[what], pa, sig=sg + ':' + what)
    # a connection that was given a descriptor is pooled
    if pa.kind == 'ret':
        for i, e in enumerate(evs):
            if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == FD and e.args[0] not in (C(-1),) and not (t.root is not None and t.root.kind == 'ctor'):
                ins = [x for x in evs[i:] if x.kind == 'call' and x.obj and x.obj[0] == 'f' and x.obj[2] == POOL and
                       short(x.name) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'operator[]')]
                key = ('pool', e.where, bool(ins))
                if key in seen:
                    continue
                seen.add(key)
                ctx.ob('pooled', bool(ins), e.where, 'a connection owns a descriptor but is not entered in the pool', pa, sig=sg)
                ph = [x for x in evs[i:] if lam_of(x) is not None or (x.kind == 'call' and x.name.startswith(NS) and x.name.endswith('FdEvent::(ctor)') and len(x.args) >= 2)]
                if ins and ph:
                    ctx.ob('pooled', evs.index(ins[0]) < evs.index(ph[0]), ph[0].where, 'the connection is handed on before it is in the pool', pa, sig=sg + ':early')


def close_owner(ctx, td, t, pa, i, sg):
    e = pa.events[i]
    a = e.x['vals'][0] if e.x and 'vals' in e.x else e.args[0]
    evs = pa.events
    if a[0] == 'init' and a[1][0] == 'f' and short(a[1][2]) == 'listen_fd':
        return
    if a[0] == 's' and a[3] in ('socket', 'accept', 'accept4'):
        # made on this path: must not be recorded in a pooled connection
        rec = [x for x in evs[:i] if x.kind == 'write' and x.obj[0] == 'f' and x.obj[2] == FD and x.args[0] == a]
        ctx.ob('close-owner', not rec, e.where, 'a descriptor recorded in a connection is closed outside its teardown', pa, sig=sg)
        return
    # any other descriptor: a field of some object; only the listening socket is left
    names, base = field_chain(a)
    ctx.ob('close-owner', any(isinstance(n, str) and short(n) == 'listen_fd' for n in names) or not any(isinstance(n, str) and n == FD for n in names),
           e.where, 'a descriptor of a connection is closed outside its teardown', pa, sig=sg)


def request(ctx, td):
    for name in ('terminate', 'disp_terminate', 'worker_terminate'):
        for f in ctx.prog.fns(NS + 'ConnPool::' + name):
            ps = td.it.run(f)
            ctx.note(f.qn, ps, td.it)
            for pa in ps:
                if pa.kind != 'ret':
                    continue
                ok = any(lam_of(e) is not None and td.claims(lam_of(e)) for e in pa.events) or known_terminated(td.it, pa, len(pa.events))
                ctx.ob('request', ok, f.where, 'a termination request does not lead to a task that claims the connection', pa, sig='%s:%s' % (short(td.s.net), name))


def over_pool(e, conn):
    """the connection is an element of the pool that is walked through (range loop, or a cursor bounded by the pool)"""
    terms = list(subterms(conn)) + [x for vp in e.facts for t, _ in vp for x in subterms(t)]
    return any(x[0] == 'f' and x[2] == POOL for x in terms)


def stop(ctx, td):
    """loop over the pool after the joins"""
    s = td.s
    fs = [t for t in s.tasks if t.root is not None and short(t.root.qn) == 'stop' and t.role == USER]
    ctx.require(bool(fs), 'stop() not found')
    for t in fs:
        n = 0
        seen = set()
        for pa in t.paths:
            evs = pa.events
            li = [i for i, e in enumerate(evs) if e.kind == 'loop']
            elems = {}
            for i, e in enumerate(evs):
                tok = td.token(e)
                if tok and tok[1] is not None and li and i > li[-1] and joined(evs, i) and over_pool(e, tok[1]):
                    elems.setdefault(tok[1], []).append((tok[0], i, e))
            if pa.kind != 'backedge' or not li:
                continue
            for conn, steps in elems.items():
                names = [x[0] for x in steps]
                key = tuple(names)
                n += 1
                if key in seen:
                    continue
                seen.add(key)
                e = steps[0][2]
                sg = '%s:%s' % (short(s.net), short(t.root.qn))
                ctx.ob('stop', all(joined(evs, i) for _, i, _ in steps), e.where, 'connections are torn down before the threads are joined', pa, sig=sg + ':join')
                ctx.ob('stop', names.count('close') == 1, e.where, 'a connection left in the pool is closed %d times' % names.count('close'), pa, sig=sg + ':close')
                if 'close' in names:
                    ci = names.index('close')
                    for f in sorted(td.evf):
                        ctx.ob('stop', 'clear:' + short(f) in names[:ci], e.where, 'event %s is not removed before the descriptor is closed' % short(f), pa,
                               sig=sg + ':' + short(f))
                    ctx.ob('stop', 'unreg' in names[:ci], e.where, 'the queue handler is not removed before the descriptor is closed', pa, sig=sg + ':unreg')
                    up = [i for i, x in enumerate(evs) if x.kind == 'enter']
                    ctx.ob('stop', bool(up), e.where, 'the upper layer is not informed', pa, sig=sg + ':upper')
        # a normal return after running must have gone through the pool loop
        for pa in t.paths:
            if pa.kind == 'ret' and joined(pa.events, len(pa.events)):
                lp = [e for e in pa.events if e.kind == 'loop']
                ctx.ob('stop', n > 0 and bool(lp), t.where, 'stop() does not go through the connections left in the pool', pa, sig='%s:loop' % short(s.net))
                break
