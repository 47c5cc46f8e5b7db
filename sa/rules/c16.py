"""Asynchronous requests: one id each, and every failure reaches the error callback once, under that id."""
from .common import *
TITLE = 'A failed asynchronous request is reported once, under the id it returned'
RULES = {
    'id': 'an asynchronous request draws its id atomically, once, and returns that very id',
    'posted': 'the request is handed to the dispatcher exactly once',
    'contained': 'no exception of the request\'s work escapes unreported',
    'reported': 'a failure is reported exactly once: by its id, or as fatal if it is none of the request\'s own errors',
    'refused': 'a message that was not queued is a failure',
    'quiet': 'nothing is reported when the request succeeded',
    'delivered': 'a report invokes the registered error callback exactly once on the user loop with the error, the fatal flag and the id',
    'fatal': 'a fatal error of the dispatcher or of a worker is reported as fatal exactly once, and the dispatcher takes no more calls',
}
EXPLAIN = ('Every public request returning an id, in all three network types: its paths, the paths of the function it posts to the '
           'dispatcher (with exception edges), and of the report posted back to the user loop.')
ASSUME = ['a posted function runs once (C13)', 'out-of-memory exceptions are reported as fatal or not at all']
CP = NS + 'ConnPool::'
TCN = (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call')
OWN = (NS + 'PeerNetworkError', NS + 'ConnPoolError', NS + 'MsgNetworkError')


def lam_of(e):
    if e.kind != 'call' or e.name not in TCN:
        return None
    v = (e.x or {}).get('vals', e.args)[0]
    while v[0] == 'st':
        v = v[1]
    return v if v[0] == 'lam' else None


def bool_known(it, facts, v, want):
    return it.holds(facts, truth(v)) if want else it.holds(facts, pred_not(truth(v)))


class Reports:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.it = ctx, s, s.interp
        self.good = set()

    def of(self, e):
        """(how, error, id) if the event reports an error"""
        if e.kind == 'icall' and e.name in (CP + 'disp_error_cb', CP + 'worker_error_cb'):
            return ('fatal', e.args[0], None)
        if e.kind == 'icall' and e.name == CP + 'error_cb':
            return ('direct', e.args[0], e.args[2] if len(e.args) > 2 else None)
        l = lam_of(e)
        if l is None or self.s.tcall_role(e.obj) != USER:
            return None
        ps = self.it.run_lambda(l)
        hits = [x for q in ps for x in q.events if x.kind == 'icall' and x.name == CP + 'error_cb']
        if not hits:
            return None
        for q in ps:
            if q.kind == 'backedge':
                continue
            n = [x for x in q.events if x.kind == 'icall' and x.name == CP + 'error_cb']
            unset = any(len(vp) == 1 and CP + 'error_cb' in repr(vp) and self.it.holds(q.st.iv, pred_not(truth(vp[0][0]))) for vp in q.st.iv)
            self.ctx.ob('delivered', len(n) == (0 if unset else 1) and q.kind == 'ret', e.where,
                        '%s: the error callback is invoked %d times per report' % (self.s.net, len(n)), path=q, sig=e.where + ':n')
            for x in n:
                self.ctx.ob('delivered', len(x.args) == 3, e.where, 'the error callback is given %d arguments' % len(x.args), path=q)
        a = hits[0].args
        same = all(h.args == a for h in hits)
        self.ctx.ob('delivered', same, e.where, 'the error callback is given different values on different paths', path=None, sig=e.where + ':same')
        return ({C(0): 'error', C(1): 'fatal-user'}.get(a[1], 'unknown'), a[0], a[2])


def is_error(v):
    return any(x[0] == 'ap' and short(x[1]) in ('current_exception', 'make_exception_ptr') or
               x[0] == 's' and len(x) > 3 and str(x[3]) in ('current_exception', 'make_exception_ptr') for x in subterms(v))


def check(ctx):
    for net in ('PeerNetwork', 'ClientNetwork', 'MsgNetwork'):
        s = ctx.system(net)
        rep = Reports(ctx, s)
        n = 0
        fld = ctx.prog.field(NS + 'ConnPool', 'async_id')
        ctx.require(fld is not None, 'request counter not found')
        seen = set()
        for t in s.tasks:
            if t.role != USER or t.root is None or t.parent is not None:
                continue
            rt = ret_type(t.root)
            api = rt and t.root.access == 0
            drew = any(drawn(e) for pa in t.paths for e in pa.events)
            if not api and not drew:
                continue
            n += 1
            for pa in t.paths:
                request(ctx, s, rep, t, pa, seen)
        ctx.require(n >= 3, 'asynchronous requests of %s not found' % net)
        fatal(ctx, s, rep)
    for r in RULES:
        ctx.need(r)


def ret_type(f):
    r = f.ret
    t = r if isinstance(r, str) else (r.get('t') if isinstance(r, dict) else str(r))
    return t in ('int32_t', 'int', 'std::int32_t', '__int32_t')


def drawn(e):
    """the event draws a request id: True if atomically, by one"""
    if e.obj is not None and e.obj[0] == 'f' and e.obj[2] == CP + 'async_id' and e.kind in ('atomic', 'write'):
        if e.kind == 'atomic' and e.name == 'rmw' and e.args[0] in (C(1), C(-1)):
            return 'ok'
        if e.kind == 'atomic' and e.name == 'load':
            return 'load'
        return 'bad'
    return None


def request(ctx, s, rep, t, pa, seen):
    it = s.interp
    w = t.where
    who = '%s: %s' % (s.net.split('::')[-1], short(t.root.qn))
    sig = '%s:%s' % (s.net, t.root.qn)
    if pa.kind == 'backedge':
        return
    ids = [e for e in pa.events if drawn(e)]
    ok = len([e for e in ids if drawn(e) == 'ok']) == 1 and all(drawn(e) == 'ok' for e in ids)
    ctx.ob('id', ok, w, '%s: the id of the request is not drawn by one atomic step' % who, path=pa, sig=sig)
    if not ok:
        return
    idv = ids[0].res
    ctx.ob('id', pa.kind == 'ret' and plain(pa.ret, idv), w, '%s: the id returned is not the one drawn (%s)' % (who, show(pa.ret) if pa.ret else pa.kind),
           path=pa, sig=sig + ':ret')
    posts = [e for e in pa.events if lam_of(e) is not None]
    disp = [e for e in posts if s.tcall_role(e.obj) == DISP]
    ctx.ob('posted', len(disp) == 1 and disp[0].name == TCN[0], w, '%s: the request is handed to the dispatcher %d times' % (who, len(disp)), path=pa, sig=sig)
    for e in disp[:1]:
        ps = it.run_lambda(lam_of(e))
        loops = {}
        for q in ps:
            if q.kind == 'backedge':
                loops.setdefault(loop_of(q), []).append(q)
        for q in ps:
            work(ctx, s, rep, who, sig, e, q, idv, loops)


def plain(v, idv):
    while v is not None and v != idv and v[0] in ('ap', 'cast', 'trunc') and len(v) > 2 and len(v[2]) == 1:
        v = v[2][0]
    return v == idv


def loop_of(pa):
    for e in reversed(pa.events):
        if e.kind == 'backedge':
            return e.where
    return None


def sends(pa):
    return [e for e in pa.events if e.kind == 'call' and short(e.name) == 'enqueue' and 'send_buffer' in repr(e.obj)]


def work(ctx, s, rep, who, sig, post, q, idv, loops):
    it = s.interp
    w = post.where
    ctx.ob('contained', q.kind != 'throw', w, '%s: an exception of the request is lost' % who, path=q, sig=sig)
    for i, e in enumerate(q.events):
        if not e.intry and s.throwing(e) and e.name not in TCN and not (e.kind == 'icall' and 'error_cb' in e.name):
            ctx.ob('contained', False, e.where, '%s: an exception of %s is lost' % (who, short(e.name)), path=q, sig=sig + e.where)
    reps = [(i, rep.of(e), e) for i, e in enumerate(q.events)]
    reps = [(i, r, e) for i, r, e in reps if r]
    catches = [(i, e) for i, e in enumerate(q.events) if e.kind == 'catch']
    if q.kind == 'throw':
        return
    refused = [e for e in sends(q) if not bool_known(it, q.st.iv, e.res, True)]
    if catches:
        i, c = catches[-1]
        own = any(a[0] == 'str' and a[1] in OWN for a in c.args)
        after = [(r, e) for j, r, e in reps if j > i]
        ctx.ob('reported', len(reps) == 1 and len(after) == 1, c.where, '%s: a failure is reported %d times' % (who, len(reps)), path=q, sig=sig + ':n')
        for r, e in after[:1]:
            fine = r[0] == 'error' and plain(r[2], idv) or not own and r[0] == 'fatal'
            ctx.ob('reported', fine and is_error(r[1]), e.where, '%s: a failure is not reported with the error under the id of the request (%s)'
                   % (who, r[0] + (' ' + show(r[2]) if r[2] is not None else '')), path=q, sig=sig + ':how')
        return
    # no exception on this path
    for j, r, e in reps:
        ctx.ob('reported', r[0] == 'error' and plain(r[2], idv) and is_error(r[1]), e.where,
               '%s: a failure is not reported with the error under the id of the request' % who, path=q, sig=sig + ':how')
    if q.kind == 'backedge':
        return
    inloop = any(e.kind == 'loop' for e in q.events)
    if not reps:
        for e in refused:
            ctx.ob('refused', False, e.where, '%s: a message that was not queued is not reported' % who, path=q, sig=sig)
        if sends(q) and not refused:
            ctx.ob('refused', True, w, '', path=q)
        if inloop:
            for lw, bs in loops.items():
                if not any(e.kind == 'loop' and e.where == lw for e in q.events):
                    continue
                for b in bs:
                    sb = [e for e in sends(b) if not bool_known(it, b.st.iv, e.res, True)]
                    if not sb or any(rep.of(e) for e in b.events):
                        continue
                    ctx.ob('refused', carried(it, q, b, sb), sb[0].where, '%s: a message that was not queued is forgotten by the loop' % who, path=b, sig=sig)
    else:
        ctx.ob('quiet', bool(refused) or inloop or len(reps) == 1 and fails_known(it, q), w, '%s: a failure is reported though there was none' % who, path=q, sig=sig)
        ctx.ob('reported', len(reps) == 1, w, '%s: a failure is reported %d times' % (who, len(reps)), path=q, sig=sig + ':n')
    if not reps and not refused:
        ctx.ob('quiet', True, w, '', path=q)


def fails_known(it, q):
    """some look-up or other test of the path came out negative (an error reported without throwing)"""
    return bool(q.st.iv)


def ev0(t, asg):
    """value of a term (0/1/None) when the terms in asg have the given truth values"""
    if t in asg:
        return asg[t]
    if t[0] == 'c':
        return 1 if t[1] else 0
    if t[0] in ('op', 'ap') and t[1] in ('&', '&&', '|', '||', '^'):
        xs = t[2:] if t[0] == 'op' else t[2]
        vs = [ev0(x, asg) for x in xs]
        if t[1][0] == '&':
            return 0 if 0 in vs else (1 if all(v == 1 for v in vs) else None)
        if t[1][0] == '|':
            return 1 if 1 in vs else (0 if all(v == 0 for v in vs) else None)
        return None
    if t[0] == 'not' or t[0] == 'op' and t[1] == '!':
        v = ev0(t[-1] if t[0] == 'not' else t[2], asg)
        return None if v is None else 1 - v
    if t[0] == 'lin':
        vs = [(ev0(x, asg), k) for x, k in t[1]]
        if all(k > 0 for _, k in vs) and t[2] > 0:
            return 1            # a counter of failures
        if all(v == 0 for v, k in vs):
            return 1 if t[2] else 0
        if t[2] >= 0 and all(k > 0 for _, k in vs) and any(v == 1 for v, _ in vs):
            return 1
        if t[2] == 1 and len(vs) == 1 and vs[0][1] == -1 and vs[0][0] is not None:
            return 1 - vs[0][0]
        return None
    if t[0] in ('ne', 'eq') and t[2] == 0 and len(t[1]) == 1:
        v = ev0(t[1][0][0], asg)
        return None if v is None else v if t[0] == 'ne' else 1 - v
    return None


def carried(it, q, b, sb):
    """a loop-carried flag remembers that a send failed, and the quiet exit q requires that it does not"""
    for l, v in q.st.cells.items():
        if not (isinstance(v, tuple) and v and v[0] == 'h'):
            continue
        if it.holds(q.st.iv, truth(v)):
            bad = 0
        elif it.holds(q.st.iv, pred_not(truth(v))):
            bad = 1
        else:
            continue
        n = b.st.cells.get(l)
        if n is None:
            continue
        h = v
        facts = b.st.iv
        known = lambda x: 1 if it.holds(facts, truth(x)) else 0 if it.holds(facts, pred_not(truth(x))) else None
        good = True
        for e in sb:
            asg = {e.res: 0}
            kh = known(h)
            if kh is not None:
                asg[h] = kh
            if ev0(n, asg) != bad:
                good = False
        if known(h) != 1 - bad and ev0(n, dict({h: bad}, **({}))) != bad:
            good = False
        if good:
            return True
    return False


def fatal(ctx, s, rep):
    it = s.interp
    for fld in ('disp_error_cb', 'worker_error_cb'):
        vals = s.fields.get(CP + fld, {})
        ctx.require(vals, '%s is never set' % fld)
        for v in vals:
            ctx.require(v[0] == 'lam', '%s is not a function of the pool' % fld)
            ps = it.run_lambda(v)
            w = '%s:%d' % (rel(v[6]), v[2])
            for q in ps:
                if q.kind == 'backedge':
                    continue
                arg = [l for l in [('p', v[7] + '::<lambda@%d>' % v[2], 'err')]]
                hits = []
                for e in q.events:
                    r = rep.of(e)
                    if r:
                        hits.append(r)
                        continue
                    l = lam_of(e)
                    if l is not None and fld == 'worker_error_cb' and s.tcall_role(e.obj) == DISP:
                        for x in it.run_lambda(l):
                            got = [rep.of(y) for y in x.events]
                            hits += [g for g in got if g]
                okk = len(hits) == 1 and passes_error(hits[0][1]) and (
                    hits[0][0] == 'fatal-user' and hits[0][2] == C(-1) if fld == 'disp_error_cb' else hits[0][0] in ('fatal', 'fatal-user'))
                ctx.ob('fatal', okk, w, '%s: a fatal error is reported %d times%s' % (s.net, len(hits), '' if len(hits) != 1 else ' and not as such with the error'),
                       path=q, sig='%s:%s' % (s.net, fld))
                if fld == 'disp_error_cb':
                    st = [e for e in q.events if e.kind in ('call', 'atomic', 'write') and 'tcall' in repr(e.obj) and
                          (short(e.name) == 'stop' or e.kind != 'call' and 'stopped' in repr(e.obj))]
                    ctx.ob('fatal', bool(st), w, '%s: the dispatcher goes on taking calls after a fatal error' % s.net, path=q,
                           sig='%s:%s:stop' % (s.net, fld))


def passes_error(v):
    """the error is the one given"""
    return v[0] in ('init', 'loc', 'p') or is_error(v)
