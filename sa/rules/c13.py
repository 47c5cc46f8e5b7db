"""C13: cross-thread calls run once and return their outcome."""
from .common import *

TITLE = 'Cross-thread calls run once and return their result or error'
RULES = {
    'run-once': 'a posted call is executed exactly once unless the receiver was stopped, then not at all',
    'handle-once': 'the record of a posted call is deleted exactly once, after its last use',
    'answered': 'a blocking caller is answered exactly once, after the call ran or failed',
    'error': 'an exception of the call, or a stopped receiver, reaches the caller as the error of the result and never escapes the receiver',
    'queued': 'posting a call puts its record in the receiver\'s unbounded queue exactly once, complete',
    'wait': 'a blocking call waits until its answer is there, and the answerer does not touch the waiter afterwards',
    'result': 'the result carries its value, error and deleter along when moved and raises the error when read',
    'result-type': 'a result is read with the type it was stored with, and is stored on every path of the call',
    'no-block': 'no internal thread, and no thread holding a lock, waits for a cross-thread call',
}
EXPLAIN = ('Paths of the call receiver (with an exception edge at every execution), of posting, waiting and answering; every blocking call '
           'site of the library in its thread role; every result read against the types stored by the posted function.')
ASSUME = ['queue and wake-up as in C10 and C12', 'an asynchronous exception inside the queue itself is out of scope']
TC = NS + 'ThreadCall::'
H = TC + 'Handle::'
NT = NS + 'ThreadNotifier::'
NOTOP = {NS + 'ThreadCall', NS + 'ThreadCall::Handle'}


def hptr(e):
    """the call record an event works on"""
    l = e.obj
    while l and l[0] in ('f', 'i'):
        if l[0] == 'f' and l[2].startswith(H) and l[1][0] == 'obj':
            return l[1][1]
        l = l[1]
    return None


def check(ctx):
    p = ctx.prog
    receiver(ctx)
    posting(ctx)
    notifier(ctx)
    result(ctx)
    types(ctx)
    for s in ctx.systems():
        for t in s.tasks:
            for pa in t.paths:
                for e in pa.events:
                    if e.kind == 'call' and e.name == TC + 'call':
                        ctx.ob('no-block', t.role not in (DISP, WORKER), e.where, '%s: %s thread waits for a cross-thread call (%s)'
                               % (s.net, t.role, t.label), path=pa, sig=e.where + ':role')
                        ctx.ob('no-block', not e.locks, e.where, '%s: a cross-thread call is waited for while holding %s'
                               % (s.net, ', '.join(show_loc(l[0] if isinstance(l, tuple) and isinstance(l[0], tuple) else l) for l in e.locks)), path=pa,
                               sig=e.where + ':lock')
    for r in RULES:
        ctx.need(r)


def receiver(ctx):
    from .c12 import lams
    p = ctx.prog
    f = [x for x in p.fns(NS + 'ThreadCall::(ctor)') if not x.copy and not x.move]
    ctx.require(f, 'ThreadCall constructor not found')
    f = f[0]
    thrower = lambda ev: ('?',) if ev.kind == 'icall' and ev.obj is not None and H + 'callback' in str(ev.obj) else ()
    it = Interp(p, Config(extra_opaque={ERR}, not_opaque=NOTOP, may_throw=thrower))
    n = 0
    for pa in it.run(f):
        for e0, l in lams(pa, lambda e: e.kind == 'call' and short(e.name) == 'reg_handler'):
            for q in it.run_lambda(l):
                n += 1
                one_round(ctx, it, q, e0)
    ctx.note(f.qn, [], it)
    ctx.require(n >= 3, 'call receiver not understood')


def one_round(ctx, it, pa, e0):
    ev = pa.events
    w = e0.where
    ctx.ob('error', pa.kind != 'throw', w, 'an exception escapes the receiver', path=pa)
    dq = [i for i, e in enumerate(ev) if e.kind == 'call' and short(e.name) == 'try_dequeue']
    got = [i for i in dq if it.holds(pa.st.iv, truth(ev[i].res))]
    if not got:
        return
    seg = ev[got[-1]:]
    runs = [(i, e) for i, e in enumerate(seg) if e.kind == 'icall' and e.obj and e.obj[0] == 'f' and e.obj[2] == H + 'callback']
    dels = [(i, e) for i, e in enumerate(seg) if e.kind == 'delete' and short(e.name) == 'Handle']
    hs = {e.args[0] for _, e in dels} | {hptr(e) for _, e in runs}
    hs.discard(None)
    ctx.ob('handle-once', len(dels) == 1 and len(hs) == 1, w, 'the record of a call is deleted %d times' % len(dels), path=pa)
    if len(dels) != 1:
        return
    h = dels[0][1].args[0]
    late = [e for e in seg[dels[0][0] + 1:] if hptr(e) == h]
    ctx.ob('handle-once', not late, w, 'the record of a call is used after it was deleted', path=pa)
    stopped = stop_known(it, pa, True)
    running = stop_known(it, pa, False)
    ctx.ob('run-once', len(runs) == (0 if stopped else 1), w, 'a call is executed %d times' % len(runs), path=pa)
    failed = any(e.kind in ('catch',) for e in seg)
    nts = [(i, e) for i, e in enumerate(seg) if e.kind == 'call' and e.name == NT + 'notify']
    waits = notifier_known(it, pa, h)
    if waits is False:
        ctx.ob('answered', not nts, w, 'a caller that does not wait is answered', path=pa)
    else:
        ctx.ob('answered', len(nts) == 1, w, 'a waiting caller is answered %d times' % len(nts), path=pa)
        for i, e in nts:
            ctx.ob('answered', i < dels[0][0] and (not runs or runs[-1][0] < i), w, 'a caller is answered before the call ran or after its record is gone',
                   path=pa)
            v = (e.x or {}).get('vals', e.args)[0]
            ok = any(x == ('f', ('obj', h), H + 'result') for t in list(e.args) + [v] for x in subterms(t)) or H + 'result' in repr(e.args)
            ctx.ob('answered', ok, e.where, 'a caller is answered with something other than the result of its call', path=pa)
    if stopped or failed:
        er = [i for i, e in enumerate(seg) if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == TC + 'Result::error' and
              'current_exception' in repr(e.args) or e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == TC + 'Result::error'
              and 'make_exception_ptr' in repr(e.args)]
        ctx.ob('error', bool(er) and (not nts or er[-1] < nts[-1][0]), w, 'a failed call is answered without its error', path=pa)


def stop_known(it, pa, val):
    for vp in pa.st.iv:
        if len(vp) == 1:
            t = vp[0][0]
            if any(x[0] == 'f' and x[2] == NS + 'ThreadCall::stopped' for x in subterms(t)):
                if it.holds(pa.st.iv, truth(t) if val else pred_not(truth(t))):
                    return True
    return False


def notifier_known(it, pa, h):
    """True/False: the caller waits / does not; None: not consulted"""
    for vp in pa.st.iv:
        if len(vp) == 1:
            t = vp[0][0]
            if any(x[0] == 'f' and x[2] == H + 'notifier' for x in subterms(t)):
                if it.holds(pa.st.iv, pred_not(truth(t))):
                    return False
                if it.holds(pa.st.iv, truth(t)):
                    return True
    return None


def posting(ctx):
    p = ctx.prog
    for nm in ('async_call', 'call'):
        fs = p.fns(TC + nm)
        ctx.require(fs, 'ThreadCall::%s not instantiated' % nm)
        for f in fs:
            it = Interp(p, Config(extra_opaque={ERR}, not_opaque=NOTOP))
            ps = it.run(f)
            ctx.note(f.qn, ps, it)
            for pa in ps:
                if pa.kind != 'ret':
                    continue
                ev = pa.events
                w = f.where
                nw = [e.res for e in ev if e.kind == 'new' and short(e.name) == 'Handle']
                q = [(i, e) for i, e in enumerate(ev) if e.kind == 'call' and short(e.name) == 'enqueue']
                ctx.ob('queued', len(nw) == 1 and len(q) == 1, w, '%s: a call is queued %d times' % (nm, len(q)), path=pa)
                if len(nw) != 1 or len(q) != 1:
                    continue
                i, e = q[0]
                vals = (e.x or {}).get('vals', e.args)
                ctx.ob('queued', vals[0] == nw[0] and (len(vals) < 2 or it.holds(e.facts, truth(vals[1]))), w,
                       '%s: the record queued is not the new one, or may be refused' % nm, path=pa)
                cb = [j for j, x in enumerate(ev) if x.kind == 'write' and x.obj and x.obj[0] == 'f' and x.obj[2] == H + 'callback' and
                      'callback' in repr(x.args)]
                ctx.ob('queued', bool(cb) and cb[-1] < i, w, '%s: the record is queued before its function is set' % nm, path=pa)
                nt = [(j, x) for j, x in enumerate(ev) if x.kind == 'write' and x.obj and x.obj[0] == 'f' and x.obj[2] == H + 'notifier'
                      and hptr(x) == nw[0] and x.args[0][0] != 'null']
                wt = [j for j, x in enumerate(ev) if x.kind == 'call' and x.name == NT + 'wait']
                if nm == 'call':
                    ctx.ob('wait', len(nt) == 1 and nt[0][0] < i and len(wt) == 1 and wt[0] > i, w,
                           'a blocking call does not wait for its own answer', path=pa)
                    if wt and nt:
                        ctx.ob('wait', nt[0][1].args[0] in (('loc', ev[wt[0]].obj), ('addr', ev[wt[0]].obj)), w, 'a blocking call waits for another answer than its own', path=pa)
                else:
                    ctx.ob('wait', not nt and not wt, w, 'an asynchronous call waits', path=pa)
    for f in p.fns(H + '(ctor)'):
        if f.copy or f.move:
            continue
        it = Interp(p, Config(not_opaque=NOTOP))
        for pa in it.run(f):
            v = [e.args[0] for e in pa.events if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == H + 'notifier']
            ctx.ob('queued', bool(v) and v[-1] in (('null',), C(0)), f.where, 'a new call record does not start without a waiter', path=pa)


def notifier(ctx):
    p = ctx.prog
    no = {NS + 'ThreadNotifier'}
    for f in p.fns(NT + 'notify')[:1]:
        it = Interp(p, Config(not_opaque=no))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            ev = pa.events
            rd = [i for i, e in enumerate(ev) if e.kind == 'write' and e.obj == ('f', ('obj', ('this',)), NT + 'ready') and e.args[0] == C(1)]
            dt = [i for i, e in enumerate(ev) if e.obj == ('f', ('obj', ('this',)), NT + 'data') and e.kind in ('call', 'write')]
            nt = [i for i, e in enumerate(ev) if e.kind == 'call' and short(e.name) in ('notify_all', 'notify_one')]
            ctx.ob('wait', bool(rd) and bool(dt) and bool(nt), f.where, 'answering does not set the data, the flag and wake the waiter', path=pa)
            un = [i for i, e in enumerate(ev) if e.kind == 'unlock']
            for i in rd + dt + nt:
                ctx.ob('wait', locked(ev, i), ev[i].where, 'answering touches the waiter outside its lock, when it may be gone', path=pa)
            ctx.ob('wait', not un or max(rd + dt + nt, default=-1) < un[-1], f.where, 'answering touches the waiter after unlocking it', path=pa)
    for f in p.fns(NT + 'wait')[:1]:
        it = Interp(p, Config(not_opaque=no))
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            ev = pa.events
            ws = [e for e in ev if e.kind == 'call' and short(e.name) == 'wait']
            ok = False
            for e in ws:
                from .c12 import lam_of
                for v in list((e.x or {}).get('vals', ())) + list(e.args):
                    l = lam_of(v)
                    if l:
                        rs = it.run_lambda(l)
                        ok = all(q.kind == 'ret' and q.ret is not None and
                                 (is_ready(q.ret) or it.holds(q.st.iv, pred_not(truth(q.ret))) or
                                  any(is_ready(vp[0][0]) and it.holds(q.st.iv, truth(vp[0][0])) for vp in q.st.iv if len(vp) == 1))
                                 for q in rs)
            if not ok:
                ok = any(len(vp) == 1 and is_ready(vp[0][0]) and it.holds(pa.st.iv, truth(vp[0][0])) for vp in pa.st.iv)
            ctx.ob('wait', ok, f.where, 'waiting ends without the answer being there', path=pa)
            ctx.ob('wait', NT + 'data' in repr([e.args for e in ev]) or NT + 'data' in repr(pa.ret), f.where,
                   'waiting returns something other than the answer', path=pa)


def is_ready(t):
    return any(x[0] == 'f' and x[2] == NT + 'ready' for x in subterms(t)) and t[0] in ('init', 's')


def locked(ev, i):
    return bool(ev[i].locks)


def result(ctx):
    p = ctx.prog
    R = TC + 'Result::'
    no = {NS + 'ThreadCall::Result'}
    f = p.one(R + 'get')
    it = Interp(p, Config(not_opaque=no))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        if pa.kind == 'ret' and not any(e.kind == 'call' and short(e.name) == 'rethrow_exception' for e in pa.events):
            ok = any(R + 'error' in repr(vp) and it.holds(pa.st.iv, pred_not(truth(vp[0][0]))) for vp in pa.st.iv if len(vp) == 1)
            ctx.ob('result', ok, f.where, 'a result is read without checking for its error', path=pa)
            ctx.ob('result', R + 'data' in repr(pa.ret), f.where, 'reading a result does not return its value', path=pa)
    for f in p.fns(R + '(ctor)'):
        if not f.move:
            continue
        it = Interp(p, Config(not_opaque=no))
        ps = it.run(f)
        o = ('p', f.qn, f.params[0]['n'])
        for pa in ps:
            for fl in ('data', 'error', 'deleter'):
                ctx.ob('result', R + fl in repr(pa.value(('f', ('obj', ('this',)), R + fl))), f.where, 'moving a result leaves its %s behind' % fl, path=pa)
            nul = [e for e in pa.events if e.kind == 'write' and e.obj == ('f', o, R + 'data') and e.args[0] in (('null',), C(0))]
            ctx.ob('result', bool(nul), f.where, 'a moved result still owns its value', path=pa)
    for f in p.fns(R + '(dtor)'):
        it = Interp(p, Config(not_opaque=no))
        for pa in it.run(f):
            n = [e for e in pa.events if e.kind == 'icall' and e.obj and e.obj[0] == 'f' and e.obj[2] == R + 'deleter']
            null = any(R + 'data' in repr(vp) and it.holds(pa.st.iv, pred_not(truth(vp[0][0]))) for vp in pa.st.iv if len(vp) == 1)
            ctx.ob('result', len(n) == (0 if null else 1), f.where, 'the value of a result is released %d times' % len(n), path=pa)


def norm_t(t):
    t = (t or '').strip()
    while True:
        o = t
        for s in ('const ', 'volatile '):
            if t.startswith(s):
                t = t[len(s):]
        while t.endswith('&') or t.endswith(' const'):
            t = t[:-1].rstrip() if t.endswith('&') else t[:-6]
        if t == o:
            return t


def types(ctx):
    """every read of a blocking call's result, against what the posted function stores"""
    p = ctx.prog
    s_all = ctx.systems()
    n = 0
    for f in sorted(p.functions.values(), key=lambda f: (f.file, f.line, f.fn)):
        if f.body is None:
            continue
        decls = {}
        for node in walk(f.body):
            if node['k'] == 'decl':
                for v in node.get('v', []):
                    if 'd' in v and v.get('init'):
                        decls[v['d']] = v['init']
        for node in walk(f.body):
            if node['k'] != 'cast' or norm_t(node.get('ft')) != 'void *' or not norm_t(node.get('t')).endswith('*'):
                continue
            get = node.get('a')
            while isinstance(get, dict) and get.get('k') in ('cast', 'paren', 'mat', 'bind'):
                get = get.get('a')
            if not isinstance(get, dict) or get.get('qn') != TC + 'Result::get':
                if isinstance(get, dict) and get.get('k') == 'ref' and get.get('d') in decls:
                    get = first_get(decls[get['d']])
                if not isinstance(get, dict) or get.get('qn') != TC + 'Result::get':
                    continue
            lam = find_lam(get.get('obj'), decls)
            if lam is None:
                continue
            want = norm_t(node['t'][:-1])
            have = set()
            collect(p, lam.get('body'), have, set())
            n += 1
            w = '%s:%d' % (rel(f.file), node.get('l', f.line))
            ctx.ob('result-type', have == {want}, w, '%s: a result stored as %s is read as %s' % (short(f.qn), ', '.join(sorted(have)) or 'nothing', want))
            # stored on every path
            for s in s_all:
                for t in s.tasks:
                    if t.lam is not None and t.lam[3] == lam.get('_i'):
                        for pa in t.paths:
                            if pa.kind == 'ret':
                                ctx.ob('result-type', any(e.kind == 'call' and e.name == H + 'set_result' for e in pa.events), w,
                                       '%s: a result is read that the call does not store on every path' % short(f.qn), path=pa, sig=w + ':path')
    ctx.require(n >= 3, 'reads of cross-thread results not found')


def first_get(node):
    for x in walk(node):
        if x.get('qn') == TC + 'Result::get':
            return x
    return None


def find_lam(node, decls, depth=0):
    if node is None or depth > 4:
        return None
    for x in walk(node):
        if x.get('qn') == TC + 'call':
            for y in walk(x.get('args', [])):
                if y['k'] in ('lambda', 'lam'):
                    return y
        if x['k'] == 'ref' and x.get('d') in decls and 'ThreadCall::Result' in (x.get('t') or ''):
            r = find_lam(decls[x['d']], decls, depth + 1)
            if r is not None:
                return r
    return None


def collect(p, body, have, seen):
    for x in walk(body):
        if x.get('qn') == H + 'set_result' and x.get('fn') in p.functions:
            have.add(norm_t((p.functions[x['fn']].targs or ['?'])[0]))
        elif x.get('fn') in p.functions and x.get('repo') and x['fn'] not in seen and p.functions[x['fn']].body is not None:
            g = p.functions[x['fn']]
            if any('ThreadCall::Handle' in (q.get('t') or '') for q in g.params):
                seen.add(x['fn'])
                collect(p, g.body, have, seen)
