"""Failures on network threads: contained in the task, reported once, confined to the connection."""
from .peers import *
from ..system import System, ERRS
from .c23 import Throws
TITLE = 'A failure on a network thread is contained, reported and confined'
RULES = {
    'contained': 'no event callback or posted task of a network thread ends with an exception',
    'reported': 'an exception caught on a network thread is handed to the error callback exactly once, as the error it is',
    'confined': 'a failure in serving a connection ends that connection and no other',
    'fatal': 'the failure of an internal task is passed on to the dispatcher\'s fatal error report',
    'thread': 'a worker thread does nothing but run its event loop, with signals blocked',
    'handler': 'a user handler or decoding that fails on a message ends only the connection it came from',
}
EXPLAIN = ('Every event callback and posted task of the worker and dispatcher threads in the three network types, with an exception edge at every call that can raise '
           '(explicit throws, reached transitively; user callbacks; virtual hooks), and every catch clause met.')
ASSUME = ['starting an event already set up, hashing and memory allocation do not fail', 'what a handed-over call raises is its caller\'s (C13)',
          'the write path is that of an established connection once its queue is watched (C11)']
CP = NS + 'ConnPool::'
SINKS = (CP + 'disp_error_cb', CP + 'worker_error_cb', CP + 'Worker::on_fatal_error')
IOF = (CONN + 'send_data_func', CONN + 'recv_data_func')
RECOV = CP + 'recoverable_error'
ENDS = (CP + 'worker_terminate', CP + 'disp_terminate')
QUIETC = {NS + x for x in ('FdEvent', 'TimerEvent', 'TimedFdEvent', 'SHA1', 'SHA256', 'Event')}


class Raises(Throws):
    def __init__(self, prog, mine):
        Throws.__init__(self, prog, mine)
        self.io = {}
        self.fields = {}

    def __call__(self, e):
        if e.kind == 'icall':
            if e.name in SINKS:
                return ()
            if e.name in IOF:
                return ('?',) if self.iofails(e.name) else ()
            return ('?',)
        if e.kind == 'call':
            c = e.name.rsplit('::', 1)[0]
            if e.name.endswith('::(ctor)') and c.endswith('Error'):
                return ()
            if (c in QUIETC or c.startswith(NS + '_SHA') or c.startswith(NS + 'SHA')) and not e.name.endswith('::(ctor)'):
                return ()
            if short(e.name) in ('set_result', 'get_hash') or e.name in (RECOV,) + ENDS:
                return ()
        return Throws.__call__(self, e)

    def iofails(self, fld):
        """whether a transfer function of an established connection can raise"""
        if fld not in self.io:
            self.io[fld] = False
            it = Interp(self.prog, Config(may_throw=self, extra_opaque=ERRS | ERRC | {RECOV} | set(ENDS), max_states=20000))
            bad = False
            for v in self.fields.get(fld, ()):
                f = self.prog.functions.get(v[1]) if v[0] == 'fn' else None
                if f is None:
                    bad = True
                    continue
                ps = it.run(f)
                if any(e.kind == 'call' and e.name == NS + 'TLS::do_handshake' for p in ps for e in p.events):
                    continue
                bad = bad or any(p.kind == 'throw' for p in ps)
            self.io[fld] = bad
        return self.io[fld]


def check(ctx):
    prog = ctx.prog
    mine = [f for f in prog.functions.values() if f.body is not None and (rel(f.file).startswith('include/') or rel(f.file).startswith('src/'))]
    for net in ('MsgNetwork', 'PeerNetwork', 'ClientNetwork'):
        plain = ctx.system(net)
        th = Raises(prog, mine)
        th.fields = {k: list(v) for k, v in plain.fields.items()}
        ctx.require(all(th.fields.get(f) for f in IOF), 'transfer functions of connections not found')
        s = System.__new__(System)
        cfg = Config(resolve=lambda n, qn: s.resolve(n, qn), extra_opaque=ERRS | ERRC | {RECOV} | set(ENDS) | {NS + 'PeerId::(ctor)'}, max_states=40000, may_throw=th)
        s.__init__(prog, net, config=cfg, may_throw=None)
        n = 0
        for t in s.tasks:
            if t.role not in (WORKER, DISP):
                continue
            if t.parent is None:
                if t.root is not None and any(v[0] == 'fn' and v[1] == t.root.fn for f in IOF for v in th.fields[f]):
                    continue                      # judged where it is invoked
            elif t.parent.kind == 'call' and t.parent.name == NS + 'ThreadCall::call':
                continue
            n += 1
            ctx.note(t.label, t.paths, s.interp)
            task(ctx, s, net, t)
        ctx.require(n >= 8, 'tasks of the network threads not found')
        handlers(ctx, s, net, th)
        sinks(ctx, s, net, th)
    threads(ctx)
    for r in RULES:
        ctx.need(r)


def same(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


def conns(s, t):
    """values a task was given: captured ones and parameters"""
    if t.lam is not None:
        return {same(c[-1]) for c in t.lam[4]} | {same(x) for c in t.lam[4] for x in subterms(c[-1])}
    return {('init', ('p', t.root.qn, p['n'])) for p in t.root.params}


def err(e):
    """(how, error, id) if the event reports an error"""
    if e.kind == 'icall' and e.name in SINKS:
        return ('fatal', e.args[0] if e.args else None, None)
    if e.kind == 'call' and e.name == RECOV:
        a = vals(e)
        return ('error', a[0], a[1] if len(a) > 1 else None)
    return None


def current(v):
    return v is not None and any(x[0] in ('ap', 's') and 'current_exception' in str(x[1:4]) for x in subterms(v))


def task(ctx, s, net, t):
    w, sig = t.where, '%s:%s' % (net, t.label)
    it = s.interp
    own = conns(s, t)
    for pa in t.paths:
        ctx.ob('contained', pa.kind != 'throw', pa.events[-1].where if pa.kind == 'throw' and pa.events else w,
               '%s: an exception leaves %s' % (net, t.label), path=pa, sig=sig)
        cs = [i for i, e in enumerate(pa.events) if e.kind == 'catch']
        if not cs:
            for e in pa.events:
                r = err(e)
                if r and r[0] == 'error':
                    ctx.ob('reported', not current(r[1]), e.where, '%s: an error is reported though none was caught' % net, path=pa, sig=sig + ':none')
            continue
        if pa.kind == 'throw':
            continue
        for k, i in enumerate(cs):
            c = pa.events[i]
            end = cs[k + 1] if k + 1 < len(cs) else len(pa.events)
            rs = [(err(e), e) for e in pa.events[i:end] if err(e)]
            ctx.ob('reported', len(rs) == 1 and all(current(r[1]) for r, _ in rs), c.where,
                   '%s: a failure caught in %s is %s' % (net, t.label, 'reported %d times' % len(rs) if len(rs) != 1 else 'reported as another error'),
                   path=pa, sig=sig + ':' + c.where)
            ends = [e for e in pa.events[i:end] if e.kind == 'call' and e.name in ENDS]
            for r, e in rs[:1]:
                if r[0] != 'error' or same(r[2]) != C(-1):
                    continue
                if any(x.kind == 'call' and x.name == 'accept' for x in pa.events) or any(x.kind == 'call' and x.name.startswith('accept') for q in t.paths for x in q.events):
                    ctx.ob('confined', not ends, c.where, '%s: a failure in accepting a connection ends another' % net, path=pa, sig=sig + ':accept')
                    continue
                a = [same(vals(x)[0]) for x in ends]
                ctx.ob('confined', len(a) == 1 and a[0] in own, c.where,
                       '%s: a failure in %s %s' % (net, t.label, 'leaves the connection open' if not a else 'ends another connection'), path=pa, sig=sig + ':' + c.where)


def handlers(ctx, s, net, th):
    """functions the network stores as handlers of messages: what they raise ends the connection of the message"""
    it3 = Interp(ctx.prog, Config(resolve=s.resolve, extra_opaque=ERRS | ERRC | {RECOV} | set(ENDS), max_states=40000,
                                  may_throw=lambda e: ('std::runtime_error',) if th(e) else ()))
    n = 0
    for t in s.tasks:
        if t.role != USER or t.lam is None:
            continue
        own = None
        if any(e.kind == 'catch' for pa in t.paths for e in pa.events):
            for pa in it3.run_lambda(t.lam):
                ctx.ob('handler', pa.kind != 'throw', pa.events[-1].where, '%s: a standard exception of a handler or of decoding is not caught' % net, path=pa,
                       sig='%s:%s:std' % (net, t.label))
        for pa in t.paths:
            for i, e in enumerate(pa.events):
                if e.kind != 'catch':
                    continue
                own = own or argconns(t)
                n += 1
                ends = [x for x in pa.events[i:] if x.kind == 'call' and x.name in ENDS]
                a = [same(vals(x)[0]) for x in ends]
                ctx.ob('handler', pa.kind != 'throw' and len(a) == 1 and (a[0] in own or any(x in own for x in subterms(a[0]))), e.where, '%s: a message that cannot be handled does not end its connection' % net, path=pa,
                       sig='%s:%s' % (net, t.label))
    ctx.require(n > 0 or net != 'MsgNetwork', 'the failure of a handler is not caught')


def argconns(t):
    """parameters of a callback (its captured values are not connections)"""
    out = set()
    for pa in t.paths:
        for e in pa.events:
            for a in (vals(e) or ()):
                if isinstance(a, tuple):
                    for x in subterms(a):
                        if x[0] == 'init' and x[1][0] in ('p', 'l', 'v'):
                            out.add(x)
    return out


def sinks(ctx, s, net, th):
    """the report of a worker's fatal error reaches the dispatcher's, which never raises"""
    it = s.interp
    plain = ctx.system(net)
    for fld in SINKS:
        vs = [same(v) for v in plain.fields.get(fld, ())]
        for v in vs:
            if v[0] != 'lam':
                continue
            for pa in it.run_lambda(v):
                ctx.ob('contained', pa.kind != 'throw', '%s:%d' % (rel(v[6]), v[2]), '%s: reporting an error raises another' % net, path=pa, sig='%s:%s' % (net, fld))
    ws = [same(v) for v in plain.fields.get(CP + 'worker_error_cb', ())]
    ctx.require(len(ws) == 1 and ws[0][0] == 'lam', 'the error report of the workers is not found')
    for pa in it.run_lambda(ws[0]):
        ls = [(lam_of(e), e) for e in pa.events if lam_of(e)]
        ok = len(ls) == 1 and s.tcall_role(ls[0][1].obj) == DISP
        ctx.ob('fatal', ok, ws[0][6] and '%s:%d' % (rel(ws[0][6]), ws[0][2]), '%s: a worker does not pass its failure on to the dispatcher' % net, path=pa, sig=net)
        for l, e in ls[:1]:
            for q in it.run_lambda(l):
                x = [y for y in q.events if y.kind == 'icall' and y.name == CP + 'disp_error_cb']
                ctx.ob('fatal', len(x) == 1 and len(x[0].args) == 1 and x[0].args[0][0] in ('init', 'p', 'st', 's', 'ap'), e.where,
                       '%s: the failure of a worker is passed on %d times' % (net, len(x)), path=q, sig=net + ':fwd')


def threads(ctx):
    """what a worker thread runs"""
    prog = ctx.prog
    it = Interp(prog, Config(max_states=20000))
    n = 0
    for f in prog.methods_of(CP + 'Worker'):
        if f.kind in ('ctor', 'dtor') or f.defaulted:
            continue
        for pa in it.run(f):
            for e in pa.events:
                if e.kind != 'call' or e.name != 'std::thread::(ctor)' or not e.args:
                    continue
                n += 1
                v = same(e.args[0])
                ok = v[0] == 'lam'
                for q in (it.run_lambda(v) if ok else ()):
                    cs = [x for x in q.events if x.kind == 'call']
                    d = [x for x in cs if x.name == NS + 'EventContext::dispatch' or x.name == 'uv_run']
                    m = [i for i, x in enumerate(cs) if x.name in ('pthread_sigmask', 'sigprocmask') and vals(x)[0] == C(0)]
                    fill = [i for i, x in enumerate(cs) if x.name == 'sigfillset']
                    ctx.ob('thread', len(d) == 1, e.where, 'a worker thread runs its event loop %d times' % len(d), path=q, sig='loop')
                    ctx.ob('thread', bool(m) and bool(fill) and fill[0] < m[0] and (not d or m[0] < cs.index(d[0])), e.where, 'a worker thread starts without its signals blocked', path=q, sig='mask')
                ctx.ob('thread', ok, e.where, 'what a worker thread runs is not known', sig='fn')
    ctx.require(n > 0, 'the worker thread is not found')
