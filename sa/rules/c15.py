"""Event wrappers: each libuv handle has one owner, calls back into that owner, and is closed once."""
from .common import *
TITLE = 'An event calls back into its current owner and its handle is closed once'
EXPLAIN = ('Ownership accounting over every abstract path of every operation on the five event wrappers (create, start, stop, '
           'clear, move, assign, swap, drop) and of the functions given to the event loop: every loop handle that exists ends '
           'up with one wrapper whose address it carries, or is stopped and closed once; failures of the loop are raised; a '
           'start passes on what was asked; the loop callback invokes the callback of the wrapper exactly once.')
RULES = {'one-owner': 'after any operation a live handle is held by exactly one wrapper, or was closed exactly once',
         'points-back': 'a handle held by a wrapper carries that wrapper\'s address',
         'state-moves': 'callback, descriptor and time-out move along with the handle',
         'init-checked': 'a failed initialisation raises an error and no wrapper is left with the handle',
         'start-checked': 'a failed start raises an error',
         'start-args': 'a start passes on the events, time or signal asked for, one-shot for timers, with the wrapper\'s own trampoline',
         'trampoline': 'the function given to the loop invokes the wrapper\'s callback exactly once, with the descriptor, events and error indication',
         'stop': 'stopping stops the handle without closing it, and does nothing to an empty wrapper',
         'closed-freed': 'the close callback frees the handle',
         'timed': 'activity restarts the time-out, a time-out stops the descriptor event and is reported as such'}
ASSUME = ['libuv calls the given function with the handle it was started with, and the close callback once after uv_close',
          'operator new does not return null']
EVC = [NS + x for x in ('FdEvent', 'TimerEvent', 'TimedFdEvent', 'SigEvent', 'CheckEvent')]


def fnref(P, v):
    """the function a value refers to"""
    if v is not None and v[0] == 'fn':
        return P.functions.get(v[1])
    if v is not None and v[0] in ('loc', 'addr') and v[1][0] == 'g':
        fs = [f for f in P.fns(v[1][1]) if f.body is not None]
        return fs[0] if fs else None
    return None


KIND = {'ev_fd': 'FdEvent', 'ev_timer': 'TimerEvent', 'ev_timedfd': 'TimedFdEvent', 'ev_sig': 'SigEvent', 'ev_check': 'CheckEvent'}
NULLV = (('null',), ('c', 0))
INIT = {'uv_poll_init': 1, 'uv_timer_init': 1, 'uv_signal_init': 1, 'uv_check_init': 1, 'uv_poll_init_socket': 1}
START = {'uv_poll_start', 'uv_timer_start', 'uv_signal_start', 'uv_signal_start_oneshot', 'uv_check_start'}
STOP = {'uv_poll_stop', 'uv_timer_stop', 'uv_signal_stop', 'uv_check_stop'}


def handle_fields(P, cls):
    """(qualified field, is it a libuv handle pointer)"""
    out = []
    for c in P.bases(cls):
        for f in (P.rec_by_qn.get(c) or {}).get('fields', ()):
            out.append((c + '::' + f['n'], f['t'].startswith('uv_') and f['t'].endswith('*') and not f['t'].startswith('uv_loop'), f))
    return out


def check(ctx):
    P = ctx.prog
    cfg = lambda: Config(not_opaque=EVC, inline_dtors=EVC, split=True, extra_opaque={ERR})
    nops = 0
    for k, c in KIND.items():
        cls = NS + c
        fields = handle_fields(P, cls)
        hf = [f for f, h, _ in fields if h]
        ctx.require(len(hf) == (2 if c == 'TimedFdEvent' else 1), 'handle members of %s not found' % c)
        for op in P.functions.values():
            if not op.qn.startswith('verif_driver::%s::' % k) or op.kind != 'method':
                continue
            nops += 1
            it, ps = ctx.paths(op, cfg())
            for pa in ps:
                one(ctx, it, op, pa, c, fields, hf)
    ctx.require(nops >= 50, 'event operations not found (%d)' % nops)
    trampolines(ctx, cfg)
    for r in ('one-owner', 'points-back', 'state-moves', 'init-checked', 'start-checked', 'start-args', 'trampoline', 'stop', 'closed-freed', 'timed'):
        ctx.need(r)


def one(ctx, it, op, pa, c, fields, hf):
    what = short(op.qn)
    sig = op.qn.split('::', 1)[1]
    facts = pa.st.iv

    def ob(rule, ok, text, e=None):
        w = e.where if e is not None else next((x.where for x in reversed(pa.events) if 'event.h' in x.where), op.where)
        ctx.ob(rule, ok, w, '%s: %s' % (sig, text), pa, sig=sig)

    def null(v):
        return v in NULLV or it.holds(facts, eq(v, C(0)))
    new = [e.res for e in pa.events if e.kind == 'new' and e.name.startswith('uv_')]
    if any(it.holds(facts, eq(v, C(0))) for v in new):
        return          # operator new does not return null
    if any(len(vp) == 2 and all(t[0][0] == 'addr' for t in vp) and it.holds(facts, eq(vp[0][0], vp[1][0])) for vp in facts) and what != 'self_move':
        return          # a parameter at the address of a temporary, or two parameters that are one object
    val = lambda l: pa.st.cells.get(l, ('init', l))
    ps = {p['n']: ('p', op.qn, p['n']) for p in op.params if p.get('tr', '').endswith('Event')}
    start = {}
    for n, l in ps.items():
        for f in hf:
            start[('init', ('f', l, f))] = (n, f)
    for n, l in ps.items():
        z = [null(('init', ('f', l, f))) for f in hf]
        if any(z) and not all(z):
            return      # the handles of a timed wrapper come and go together (kept by every operation: one-owner)
    # loop functions return zero or a negative error
    bad = lambda v: it.holds(facts, lt(v, C(0))) or it.holds(facts, pred_not(eq(v, C(0))))
    good = lambda v: it.holds(facts, le(C(0), v)) or it.holds(facts, eq(v, C(0)))
    initc = [e for e in pa.events if e.kind == 'call' and e.name in INIT]
    failed = [e for e in initc if bad(e.res)]
    for e in initc:
        d = bad(e.res) or good(e.res)
        ob('init-checked', d and e.args[1] in new, 'the result of %s is not tested' % e.name, e)
    if failed:
        ob('init-checked', pa.kind == 'throw', 'a wrapper is created though its initialisation failed', failed[0])
        for e in failed:
            h = e.args[1]
            held = [n for n, l in ps.items() for f in hf if val(('f', l, f)) == h]
            fr = [x for x in pa.events if x.kind == 'delete' and x.args[0] == h]
            ob('init-checked', not held and len(fr) == 1, 'the handle that could not be initialised is %s' % ('kept' if held else 'not freed once'), e)
        return
    sc = [e for e in pa.events if e.kind == 'call' and e.name in START]
    sfail = [e for e in sc if bad(e.res)]
    for e in sc:
        d = bad(e.res) or good(e.res) or bool(sfail)
        ob('start-checked', d, 'the result of %s is not tested' % e.name, e)
    if sfail:
        ob('start-checked', pa.kind == 'throw', 'a failed start is not reported', sfail[0])
        return
    if pa.kind == 'throw':
        ob('start-checked', False, 'an error is raised though nothing failed')
        return
    # who owns what
    for h in list(start) + new:
        if null(h):
            continue
        if h in new and h not in [e.args[1] for e in initc]:
            ob('init-checked', False, 'a handle is used without being initialised')
            continue
        closed = [i for i, e in enumerate(pa.events) if e.kind == 'call' and e.name == 'uv_close' and e.args[0] == h]
        owners = [(('p', l), l, f) for n, l in ps.items() for f in hf if val(('f', l, f)) == h]
        owners += [(('t', l[1]), l[1], l[2]) for l, v in pa.st.cells.items() if l[0] == 'f' and (l[1][0] == 't' or l[1] == ('obj', pa.ret)) and l[2] in hf and v == h]
        ob('one-owner', len(closed) + len(owners) == 1, 'a handle has %d owners and is closed %d times' % (len(owners), len(closed)))
        for i in closed:
            e = pa.events[i]
            st = [x for x in pa.events[:i] if x.kind == 'call' and x.name in STOP and x.args[0] == h]
            ob('one-owner', bool(st), 'a handle is closed without being stopped first', e)
            cb = e.args[1] if len(e.args) > 1 else None
            g = fnref(ctx.prog, cb)
            ob('closed-freed', g is not None, 'the handle is closed without a close callback', e)
            if g is not None:
                closers.setdefault(ctx, {})[g.qn] = g
        for o, l, f in owners:
            if h in start and start[h] == (l[2] if l[0] == 'p' else None, f):
                d = pa.st.cells.get(('f', ('obj', h), 'uv_handle_s::data')) or next(
                    (v for x, v in pa.st.cells.items() if x[0] == 'f' and x[1] == ('obj', h) and short(x[2]) == 'data'), None)
                if d is None:
                    continue        # untouched
            d = next((v for x, v in pa.st.cells.items() if x[0] == 'f' and x[1] == ('obj', h) and short(x[2]) == 'data'), None)
            ob('points-back', d == ('addr', l), 'the handle does not carry the address of the wrapper that holds it (%s)' % (show(d) if d else 'unset'))
            # the rest of the state came along from the same wrapper
            src = start[h][0] if h in start else None
            if src is not None and l[0] in ('p', 'obj'):
                for g, ish, fi in fields:
                    if ish or short(g) == 'ec':
                        continue
                    if fi.get('tr') == 'std::function' and g != NS + c + '::callback':
                        continue
                    ob('state-moves', val(('f', l, g)) == ('init', ('f', ps[src], g)), '%s does not go along with the handle' % short(g))
            if src is None and l[0] == 'p':
                for g, ish, fi in fields:
                    pn = {'fd': 'fd', 'callback': 'cb'}.get(short(g))
                    if pn and any(p['n'] == pn for p in op.params) and not (short(g) == 'callback' and g != NS + c + '::callback'):
                        v = val(('f', l, g))
                        ob('state-moves', any(x == ('init', ('p', op.qn, pn)) for x in subterms(v)), '%s is not the one given' % short(g))
    # results
    d = ps['dst'] if 'dst' in ps else None
    end = lambda l: [val(('f', l, f)) for f in hf]
    ini = lambda l: [('init', ('f', l, f)) for f in hf]
    if what in ('clear', 'reset'):
        ob('one-owner', all(null(v) for v in end(d)), 'the wrapper is not empty afterwards')
    elif what == 'move_assign':
        s = ps['src']
        ob('one-owner', end(d) == ini(s) and all(null(v) for v in end(s)), 'the handle is not transferred')
    elif what == 'swap':
        s = ps['src']
        ob('one-owner', end(d) == ini(s) and end(s) == ini(d), 'the handles are not exchanged')
    elif what == 'self_move':
        ob('one-owner', end(d) == ini(d), 'assigning a wrapper to itself changes it')
    elif what == 'move_new':
        n = ('obj', pa.ret)
        ob('one-owner', end(n) == ini(ps['src']) and all(null(v) for v in end(ps['src'])), 'the handle is not transferred')
    elif what == 'move_then_drop':
        ob('one-owner', all(null(v) for v in end(ps['src'])), 'the source of a move keeps its handle')
    elif what == 'make':
        ob('one-owner', all(v in new for v in end(d)) and len(set(end(d))) == len(hf), 'no handle is created')
    elif what == 'stop':
        for h in ini(d):
            if null(h):
                ob('stop', not any(e.kind == 'call' and e.name.startswith('uv_') and h in e.args for e in pa.events), 'an empty wrapper is operated on')
            else:
                st = [e for e in pa.events if e.kind == 'call' and e.name in STOP and e.args[0] == h]
                ob('stop', len(st) >= 1 and end(d) == ini(d), 'the handle is not stopped')
    elif what == 'active':
        h = ini(d)[0]
        r = pa.ret
        ok = r == C(1) and it.holds(facts, pred_not(eq(h, C(0)))) or r == C(0) and null(h) or \
            r is not None and r == pred_not(eq(h, C(0)))
        ob('one-owner', ok, 'the wrapper does not tell whether it holds a handle')
    elif what.startswith('start'):
        starts(ctx, it, op, pa, c, ob, ini(d), sc)


closers = {}


def starts(ctx, it, op, pa, c, ob, hs, sc):
    P = lambda n: ('init', ('p', op.qn, n))
    names = {'FdEvent': ['uv_poll_start'], 'TimerEvent': ['uv_timer_start'], 'TimedFdEvent': ['uv_poll_start', 'uv_timer_start'],
             'CheckEvent': ['uv_check_start'],
             'SigEvent': ['uv_signal_start_oneshot' if op.qn.endswith('once') else 'uv_signal_start']}[c]
    ob('start-args', sorted(e.name for e in sc) == names, 'the event is not started with %s' % ', '.join(names))
    for e in sc:
        ok = e.args[0] in hs
        fn = None
        if e.name == 'uv_poll_start':
            ok = ok and e.args[1] == P('events')
            fn = e.args[2]
        elif e.name == 'uv_timer_start':
            ok = ok and ms_of(e.args[2], P('t_sec')) and e.args[3] == C(0)
            fn = e.args[1]
            if c == 'TimedFdEvent':
                t = [v for l, v in pa.st.cells.items() if l[0] == 'f' and short(l[2]) == 'timeout']
                ob('timed', t == [e.args[2]], 'the time-out is not remembered for the restart', e)
        elif e.name.startswith('uv_signal'):
            ok = ok and e.args[2] == P('signum')
            fn = e.args[1]
        else:
            fn = e.args[1]
        ob('start-args', ok, 'the event is not started with what was asked for (%s)' % ', '.join(show(x) for x in e.args), e)
        g = fnref(ctx.prog, fn)
        ob('start-args', g is not None, 'the function given to the loop is not known', e)
        if g is not None:
            tramp.setdefault(ctx, {})[(c, e.name)] = g


tramp = {}


def ms_of(v, t):
    subs = list(subterms(v))
    if v[0] == 'lin' or not any(x[0] == 'f*' or x[0] == 'ap' and 'f*' in x[1] for x in subs):
        return False        # the fraction of a second is lost, or no milliseconds
    return t in subs and not any(x[0] == 'init' and x != t for x in subs) and \
        all(x in (C(1000),) or x[1] == 1000 for x in subs if x[0] == 'c')


def trampolines(ctx, cfg):
    P = ctx.prog
    for (c, how), f in sorted(tramp.get(ctx, {}).items(), key=lambda x: x[0]):
        it, ps = ctx.paths(f, cfg())
        ha = ('init', ('p', f.qn, f.params[0]['n']))
        me = None
        for pa in ps:
            def ob(rule, ok, text, e=None):
                ctx.ob(rule, ok, e.where if e is not None else f.where, '%s: %s' % (short(f.qn), text), pa, sig=f.qn)
            owner = lambda l: any(x == ('f', ('obj', ha), 'uv_' + how.split('_')[1] + '_s::data') or
                                  (x[0] == 'f' and x[1] == ('obj', ha) and short(x[2]) == 'data') for x in locs(l))
            cb = [e for e in pa.events if is_cb(e)]
            if pa.kind == 'throw':
                rs = [e for e in pa.events if e.kind == 'call' and e.name in START]
                ob('trampoline', bool(rs) and it.holds(pa.st.iv, lt(rs[-1].res, C(0))), 'the callback is not invoked', None)
                continue
            ob('trampoline', len(cb) == 1 and owner(cb[0].obj or ('x',)) and cb[0].obj[2] == NS + c + '::callback',
               'the callback of the owning wrapper is not invoked exactly once', cb[0] if cb else None)
            if not cb:
                continue
            e = cb[0]
            a = [x for x in e.args]
            if how == 'uv_poll_start':
                fd = [x for x in subterms(a[0]) if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == NS + 'FdEvent::fd']
                evs = ('init', ('p', f.qn, f.params[2]['n']))
                stt = ('init', ('p', f.qn, f.params[1]['n']))
                if it.holds(pa.st.iv, eq(stt, C(0))):
                    okv = a[1] == evs
                else:
                    okv = it.holds(pa.st.iv, pred_not(eq(stt, C(0)))) and a[1][0] == 'op' and a[1][1] == '|' and \
                        set(a[1][2:]) == {evs, C(1 << 30)} or a[1] == ('op', '|', (evs, C(1 << 30)))
                ob('trampoline', bool(fd) and a[0] == fd[0] and okv, 'the callback is not given the descriptor and the events (with the error bit exactly on failure): %s'
                   % ', '.join(show(x) for x in a), e)
                if c == 'TimedFdEvent':
                    rs = [x for x in pa.events if x.kind == 'call' and x.name == 'uv_timer_start']
                    okt = len(rs) == 1 and pa.events.index(rs[0]) < pa.events.index(e) and \
                        rs[0].args[2][0] == 'init' and short(rs[0].args[2][1][2]) == 'timeout' and rs[0].args[3] == C(0) and \
                        fnref(P, rs[0].args[1]) is tramp[ctx].get((c, 'uv_timer_start'))
                    ob('timed', okt, 'activity does not restart the time-out before the callback runs', e)
            elif how == 'uv_timer_start' and c == 'TimedFdEvent':
                fd = [x for x in subterms(a[0]) if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == NS + 'FdEvent::fd']
                ob('timed', bool(fd) and a[1] == C(1 << 29), 'a time-out is not reported as such', e)
                st = [x for x in pa.events[:pa.events.index(e)] if x.kind == 'call' and x.name == 'uv_poll_stop']
                emp = any(it.holds(pa.st.iv, eq(x, C(0))) for vp in pa.st.iv for x, _ in vp if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == NS + 'FdEvent::ev_fd')
                ob('timed', bool(st) or emp, 'the descriptor event stays active after a time-out', e)
            elif how == 'uv_timer_start':
                ob('trampoline', len(a) == 1 and a[0][0] in ('loc', 'addr', 'rv') or owner(e.obj), 'the callback is not given its timer', e)
            elif how.startswith('uv_signal'):
                ob('trampoline', a == [('init', ('p', f.qn, f.params[1]['n']))], 'the callback is not given the signal', e)
    ctx.require(len(tramp.get(ctx, {})) >= 7, 'the functions given to the loop were not found')
    for f in closers.get(ctx, {}).values():
        it, ps = ctx.paths(f, Config())
        h = ('init', ('p', f.qn, f.params[0]['n']))
        for pa in ps:
            d = [e for e in pa.events if e.kind == 'delete' and e.args[0] == h]
            ctx.ob('closed-freed', len(d) == 1 or it.holds(pa.st.iv, eq(h, C(0))), f.where, 'a closed handle is not freed', pa, sig=f.qn)


def locs(l):
    out = []
    st = [l]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] == 'f':
                out.append(x)
            st.extend(y for y in x if isinstance(y, tuple))
    return out


def is_cb(e):
    return e.kind in ('icall', 'call', 'vcall') and e.obj and e.obj[0] == 'f' and short(e.obj[2]) == 'callback' and \
        (e.kind == 'icall' or short(e.name) in ('operator()',))
