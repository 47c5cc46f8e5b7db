"""What a network was told: its settings, the addresses and ports it is given."""
from .peers import *
from .c24 import Uses
TITLE = 'A network runs with the settings, ports and addresses it was given'
RULES = {
    'kept': 'a setter stores the value it is given in the field of its setting, and nowhere else (the number of workers: at least one), and returns the configuration',
    'copied': 'the network takes each setting from the configuration it is created from',
    'unchanged': 'a setting of a network is not changed after its creation',
    'used': 'a setting is consulted by the network',
    'connection': 'a connection has the configured limits before it is served',
    'identity': 'a connection has its own descriptor, its network, its direction and its remote address before it is served',
    'queue': 'the message queue has the configured capacity, and its handler consults the configured batch size with every message',
    'socket': 'a socket is non-blocking before it is used, a backlog and a connection time-out are those configured',
    'address': 'a connection is requested to the address given, a network listens on the port given',
    'relisten': 'listening again first stops watching and closes the socket of the previous listening, and the new one is recorded and watched',
    'magic': 'a message to be sent carries the configured magic number',
}
EXPLAIN = ('Every setter, every constructor and every use of a setting in the three network types, and all paths of the tasks that accept, connect and listen: a setting is followed from the setter '
           'through the field of the configuration and the member of the network to the call or the field of the connection it governs.')
ASSUME = ['what the limits then do is decided by C04, C05, C06, C10, C17, C20 and C21; key and certificate by C11', 'the socket interface of the system']
CP = NS + 'ConnPool::'
THIS = ('obj', ('this',))
NETS = ('MsgNetwork', 'PeerNetwork')
MATERIAL = ('tls_cert', 'tls_key', 'tls_cert_file', 'tls_key_file', 'tls_skip_ca_check', 'tls_verify_callback')       # C11


def configs(prog, net):
    return [b + '::Config' for b in prog.bases(NS + net) if b + '::Config' in prog.rec_by_qn]


def setters(ctx, net):
    """setting -> field of the configuration"""
    prog = ctx.prog
    res = {}
    for cls in configs(prog, net):
        for f in prog.methods_of(cls):
            if f.body is None or f.kind in ('ctor', 'dtor') or len(f.params) != 1 or f.static or not f.ret.rstrip().endswith('&') or 'Config' not in f.ret or '::operator' in f.qn or f.access:
                continue
            it, ps = ctx.paths(f)
            par = ('p', f.qn, f.params[0]['n'])
            name = short(f.qn)
            fields = set()
            for pa in ps:
                if pa.kind != 'ret':
                    ctx.ob('kept', pa.kind not in ('throw',), f.where, 'setting %s fails' % name, path=pa, sig=name + ':fails')
                    continue
                ws = {k: v for k, v in pa.st.cells.items() if k[0] == 'f' and k[1] == THIS}
                fields |= set(k[2] for k in ws)
                ok = len(ws) == 1
                for k, v in ws.items():
                    w = v == ('init', par) or v == par or v == ('loc', par) or given(v, par)
                    if name == 'nworker' and not w:
                        # at least one
                        low = it.holds(pa.st.iv, lt(('init', par), C(1))) or it.holds(pa.st.iv, le(('init', par), C(1)))
                        w = v == C(1) and low or v[0] == 'ap' and short(v[1]) == 'max' and {strip(x) for x in v[2]} == {C(1), ('init', par)}
                    if name == 'nworker' and w and v == ('init', par):
                        w = it.holds(pa.st.iv, lt(C(0), ('init', par))) or it.holds(pa.st.iv, le(C(1), ('init', par))) or it.holds(pa.st.iv, pred_not(eq(('init', par), C(0))))
                    ok = ok and w
                ok = ok and pa.ret in (('loc', THIS), THIS, ('addr', THIS))
                ctx.ob('kept', ok, f.where, 'setting %s does not keep exactly the value given' % name, path=pa, sig=name)
            ctx.at = getattr(ctx, 'at', {})
            ctx.at[name] = f.where
            if len(fields) == 1:
                res[name] = fields.pop()
    same = [n for n in res if list(res.values()).count(res[n]) > 1]
    ctx.ob('kept', not same, f.where, 'settings %s share a field' % ', '.join(sorted(same)), sig='shared')
    return res


def given(v, par):
    """the value of the parameter, copied, moved or wrapped in a handle"""
    v = strip(v)
    if v == ('init', par):
        return True
    if v[0] == 'ap' and v[1].endswith(('(ctor)', '(copy)', '(move)', 'operator=', 'forward', 'move')) and v[2]:
        return given(v[2][-1], par)
    if v[0] == 'st':
        return any(given(x, par) for _, x in v[2])
    return False


def strip(v):
    while v and v[0] in ('loc', 'rv') and isinstance(v[1], tuple):
        v = ('init', v[1]) if v[1][0] == 'p' else v[1]
    return v


def check(ctx):
    prog = ctx.prog
    members = {}
    for net in NETS:
        st = setters(ctx, net)
        ctx.require(len(st) >= (12 if net == 'MsgNetwork' else 15), 'settings of %s not found' % net)
        members[net] = creation(ctx, net, st)
    unchanged(ctx, members)
    for net in ('MsgNetwork', 'PeerNetwork', 'ClientNetwork'):
        m = members.get(net) or members['MsgNetwork']
        sockets(ctx, net, m)
        magic(ctx, net, m)
    for r in RULES:
        ctx.need(r)


def setting(v, m, name):
    """the value is that of the setting"""
    return v[0] == 'init' and v[1][0] == 'f' and v[1][2] in m.get(name, ())


# ---------------------------------------------------------------- creation
def creation(ctx, net, st):
    """setting -> members of the network that hold it"""
    s = ctx.system(net)
    prog = ctx.prog
    res = {}
    n = 0
    ts = [t for t in s.tasks if t.root is not None and t.root.kind == 'ctor' and t.root.cls == NS + net and not t.root.copy and not t.root.move and len(t.root.params) == 2]
    ctx.require(len(ts) >= 1, 'no constructor of %s' % net)
    for t in ts:
        f = t.root
        par = ('p', f.qn, f.params[1]['n'])
        rets = [pa for pa in t.paths if pa.kind == 'ret']
        ctx.require(bool(rets), 'the constructor of %s does not end' % net)
        for pa in rets:
            n += 1
            at = {}
            for k, v in pa.st.cells.items():
                if k[0] == 'f' and k[1] == THIS and v[0] == 'init' and v[1][0] == 'f' and v[1][1] == par:
                    at.setdefault(v[1][2], set()).add(k[2])
            for name, field in st.items():
                if name in MATERIAL:
                    continue
                v = ('init', ('f', par, field))
                ms = at.get(field, set())
                if name == 'burst_size':
                    ms = ms or {'captured'}
                    batch(ctx, s, pa, f, v, at.get(field, set()))
                res.setdefault(name, set(ms))
                res[name] &= ms
                ctx.ob('copied', bool(ms), f.where, 'the network does not take over %s' % name, path=pa, sig='%s:%s' % (net, name))
            cap = [e for e in pa.events if e.kind in ('call', 'vcall') and short(e.name) == 'set_capacity' and e.obj and field_of(e.obj) and 'incoming_msgs' in repr(e.obj)]
            want = ('init', ('f', par, st.get('max_msg_queue_size')))
            ctx.ob('queue', len(cap) >= 1 and (vals(cap[-1])[0] == want or setting(vals(cap[-1])[0], {'q': at.get(st.get('max_msg_queue_size'), ())}, 'q')), f.where,
                   'the message queue does not have the configured capacity', path=pa, sig=net + ':capacity')
    return res


def batch(ctx, s, pa, f, v, ms):
    regs = [e for e in pa.events if e.kind in ('call', 'vcall') and short(e.name) == 'reg_handler' and e.obj and 'incoming_msgs' in repr(e.obj)]
    ctx.ob('queue', len(regs) == 1, f.where, 'the message queue has %d handlers' % len(regs), path=pa, sig='handler')
    for e in regs:
        l = next((x for x in vals(e) if x[0] == 'lam'), None)
        if l is None:
            for x in vals(e):
                while x[0] == 'st':
                    x = x[1]
                l = x if x[0] == 'lam' else l
        if l is None:
            continue
        terms = [c[3] for c in l[4] if c[3] == v] + [('init', ('f', THIS, x)) for x in ms]
        ctx.ob('queue', bool(terms), e.where, 'the handler of the message queue does not have the configured batch size', path=pa, sig='batch')
        if not terms or getattr(ctx, 'batched', False):
            continue
        ctx.batched = True
        it = Interp(ctx.prog, Config(resolve=s.resolve, extra_opaque=ERRS | ERRC, reads={NS + 'ConnPool::system_state'}))
        qs = it.run_lambda(l)
        ctx.note('message queue handler', qs, it)
        for q in qs:
            if q.kind == 'backedge' or q.kind == 'ret' and q.ret is not None and it.holds(q.st.iv, truth(q.ret)):
                got = [x for x in q.events if x.kind in ('call', 'vcall') and short(x.name) == 'try_dequeue']
                if not got:
                    continue
                seen = any(any(y in terms for x, _ in vp for y in subterms(x)) for vp in q.st.iv)
                ctx.ob('queue', seen, e.where, 'a message is handled without regard to the configured batch size', path=q, sig='batch:' + q.kind)


# ---------------------------------------------------------------- afterwards
def unchanged(ctx, members):
    prog = ctx.prog
    mem = {}
    for net in members:
        for name, ms in members[net].items():
            for x in ms:
                mem[x] = name
    U = Uses(prog)
    used = {x: 0 for x in mem if x != 'captured'}
    for f in prog.functions.values():
        if f.body is None or not (rel(f.file).startswith('include/') or rel(f.file).startswith('src/')):
            continue
        if f.kind == 'ctor' and f.cls and any(x.startswith(f.cls + '::') for x in mem):
            for u, n in U.visit(f.body, lambda q: q['k'] == 'mem' and q.get('dq') in mem):
                used[n['dq']] += u == 'read'
            continue
        for b in [f.body] + list(f.inits or ()):
            for u, n in U.visit(b, lambda q: q['k'] == 'mem' and q.get('dq') in mem):
                x = n['dq']
                if u == 'change' or isinstance(u, tuple) and U.called(u[1]):
                    ctx.ob('unchanged', False, '%s:%s' % (rel(f.file), n.get('l', 0)), '%s is changed by %s' % (mem[x], f.qn), sig='%s:%s' % (mem[x], f.qn))
                used[x] += 1
    for name in sorted(set(mem.values())):
        xs = [x for x in mem if mem[x] == name]
        ctx.ob('unchanged', True, ctx.at[name], '', sig=name)
        ctx.ob('used', 'captured' in xs or any(used[x] for x in xs), ctx.at[name], 'the setting %s has no effect: nothing consults it' % name, sig=name)


# ---------------------------------------------------------------- sockets
FCNTL = ('fcntl', 'fcntl64')


def nonblocking(it, pa, fd, i):
    """the descriptor is known to be non-blocking before event i"""
    if fd[0] == 's' and fd[3] in ('accept4', 'socket'):
        src = next((e for e in pa.events if e.res == fd), None)
        if src is not None and any(flag(a) for a in vals(src)[1:]):
            return True
    for e in pa.events[:i]:
        if e.kind == 'call' and e.name in FCNTL and vals(e)[0] == fd and len(vals(e)) > 2 and vals(e)[1] == C(4):
            if flag(vals(e)[2]) and (it.holds(pa.st.iv, pred_not(eq(e.res, C(-1)))) or it.holds(pa.st.iv, le(C(0), e.res))):
                return True
            if not flag(vals(e)[2]):
                return False
        if e.kind == 'call' and e.name == 'ioctl' and vals(e)[0] == fd and it.holds(pa.st.iv, pred_not(eq(e.res, C(-1)))):
            return True
    return False


def flag(v):
    if v[0] == 'c':
        return isinstance(v[1], int) and v[1] & 0o4000 != 0
    return any(x[0] == 'c' and isinstance(x[1], int) and x[1] & 0o4000 for x in subterms(v)) and '|' in repr(v)


def last(pa, i, pred):
    r = None
    for e in pa.events[:i]:
        if pred(e):
            r = e
    return r


def sockets(ctx, net, m):
    s = ctx.system(net)
    seen = {'accept': 0, 'connect': 0, 'listen': 0}
    done = set()
    for t in s.tasks:
        for pa in t.paths:
            if pa.kind == 'backedge':
                continue
            for i, e in enumerate(pa.events):
                if e.kind != 'call':
                    continue
                k = {'accept': 'accept', 'accept4': 'accept', 'connect': 'connect', 'listen': 'listen'}.get(e.name.lstrip(':'))
                if k is None:
                    continue
                seen[k] += 1
                it = t.interp
                {'accept': accepted, 'connect': connecting, 'listen': listening}[k](ctx, net, m, s, t, it, pa, i, e)
    for k, n in seen.items():
        ctx.require(n > 0, 'no task of %s calls %s' % (net, k))


def record(ctx, net, m, it, pa, conn, fd, upto, mode, w, tag):
    """the fields of a connection at event `upto`"""
    ev = pa.events

    def value(field):
        e = last(pa, upto, lambda e: e.kind == 'write' and e.obj == ('f', ('obj', conn), field))
        return e.args[0] if e is not None else None
    for g in ('recv_chunk_size', 'max_recv_buff_size'):
        v = value(CONN + g)
        ctx.ob('connection', v is not None and setting(v, m, g), w, 'a connection is served with another %s than the one configured' % g, path=pa, sig='%s:%s' % (tag, g))
    e = last(pa, upto, lambda e: e.kind in ('call', 'vcall') and short(e.name) == 'set_capacity' and e.obj and ('obj', conn) in list(subterms(e.obj)) and 'send_buffer' in repr(e.obj))
    ctx.ob('connection', e is not None and setting(vals(e)[0], m, 'max_send_buff_size'), w, 'a connection is served with another send capacity than the one configured', path=pa, sig=tag + ':send')
    ctx.ob('identity', value(CONN + 'fd') == fd, w, 'a connection does not have its own descriptor', path=pa, sig=tag + ':fd')
    v = value(CONN + 'cpool')
    ctx.ob('identity', v in (('this',), ('addr', THIS)), w, 'a connection does not belong to the network that made it', path=pa, sig=tag + ':pool')
    md = next((x['v'] for q in ctx.prog.enums.values() for x in q['e'] if x['n'] == mode), None)
    ctx.require(md is not None, 'no mode ' + mode)
    ctx.ob('identity', value(CONN + 'mode') == C(md), w, 'the direction of a connection is not recorded', path=pa, sig=tag + ':mode')
    return {g: (last(pa, upto, lambda e: e.kind == 'write' and e.obj == ('f', ('f', ('obj', conn), CONN + 'addr'), NS + 'NetAddr::' + g)) or
                None) for g in ('ip', 'port')}


def served(pa, i, conn):
    """the event that hands the connection to a worker or waits for it to be established"""
    for j in range(i, len(pa.events)):
        e = pa.events[j]
        l = lam_of(e)
        if l is not None and any(c[3] == conn for c in l[4]) and not ('disp_tcall' in repr(e.obj)):
            return j
    return None


def armed(pa, i, conn):
    for j in range(i, len(pa.events)):
        e = pa.events[j]
        if e.kind in ('call', 'vcall') and short(e.name) == 'add' and e.obj and ('obj', conn) in list(subterms(e.obj)) and 'ev_connect' in repr(e.obj):
            return j
    return None


def fresh(pa, i):
    """connections recorded with a descriptor after event i"""
    return [(j, e.obj[1][1], e.args[0]) for j, e in enumerate(pa.events) if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == CONN + 'fd' and e.obj[1][0] == 'obj' and e.args[0] != C(-1)]


def accepted(ctx, net, m, s, t, it, pa, i, e):
    fd = e.res
    for j, conn, v in fresh(pa, i):
        k = served(pa, j, conn)
        if k is None:
            continue
        w = e.where
        ctx.ob('socket', nonblocking(it, pa, fd, k), w, 'an accepted socket is used while it may block', path=pa, sig='accept:nonblock')
        a = record(ctx, net, m, it, pa, conn, fd, k, 'PASSIVE', w, 'accept')
        src = vals(e)[1]
        var = src[1] if src[0] == 'addr' else None
        for g in ('ip', 'port'):
            x = a[g]
            ok = x is not None and x.args[0] != C(0)
            if ok and var is not None:
                ok = any(y == var or y[0] == 's' and e.res is not None and y[1:3] == e.res[1:3] for y in subterms(x.args[0])) or 'accept' in repr(x.args[0])
            ctx.ob('identity', ok, w, 'the address of an accepted connection is not the one of the remote', path=pa, sig='accept:' + g)


def connecting(ctx, net, m, s, t, it, pa, i, e):
    fd = vals(e)[0]
    w = e.where
    ctx.ob('socket', nonblocking(it, pa, fd, i), w, 'a connection is requested on a socket that may block', path=pa, sig='connect:nonblock')
    to = {}
    for g, n in (('ip', 's_addr'), ('port', 'sin_port')):
        to[g] = sockaddr(pa, e, n)
    if all(v is not None and v[0] == 'init' and v[1][0] == 'f' for v in to.values()):
        ctx.ob('address', to['ip'][1][1] == to['port'][1][1], w, 'the connection requested is to the ip of one address and the port of another', path=pa, sig='connect:both')
    cs = [c for c in fresh(pa, i) if c[2] == fd]
    for g in ('ip', 'port'):
        v = to[g]
        ctx.ob('address', v is not None and v[0] == 'init' and v[1][0] == 'f' and v[1][2] == NS + 'NetAddr::' + g, w, 'the %s of the connection requested is not that of the address given' % g,
               path=pa, sig='connect:' + g)
    for j, conn, v in cs:
        k = armed(pa, j, conn)
        if k is None:
            continue
        a = record(ctx, net, m, it, pa, conn, fd, len(pa.events), 'ACTIVE', w, 'connect')
        for g in ('ip', 'port'):
            ctx.ob('identity', a[g] is not None and a[g].args[0] == to[g], w, 'the address recorded is not the one connected to', path=pa, sig='connect:' + g)
        ctx.ob('socket', any(setting(v, m, 'conn_server_timeout') for v in vals(pa.events[k])), pa.events[k].where, 'waiting for a connection does not end after the configured time', path=pa, sig='connect:timeout')


def sockaddr(pa, e, field):
    """value of a field of the socket address given to a call"""
    c = ((e.x or {}).get('behind') or {}).get(1)
    if c is None or c[0] != 'st':
        return None
    r = [v for k, v in c[2] if k[0] == 'f' and short(k[2]) == field]
    return r[0] if len(r) == 1 else None


LFD = CP + 'listen_fd'


def listening(ctx, net, m, s, t, it, pa, i, e):
    fd, backlog = vals(e)[0], vals(e)[1]
    w = e.where
    ctx.ob('socket', setting(backlog, m, 'max_listen_backlog'), w, 'the backlog is not the one configured', path=pa, sig='listen:backlog')
    ok = it.holds(pa.st.iv, pred_not(lt(e.res, C(0)))) or it.holds(pa.st.iv, eq(e.res, C(0))) or it.holds(pa.st.iv, pred_not(eq(e.res, C(-1))))
    if pa.kind != 'ret' or not ok:
        return
    add = [j for j in range(i, len(pa.events)) if pa.events[j].kind in ('call', 'vcall') and short(pa.events[j].name) == 'add' and 'ev_listen' in repr(pa.events[j].obj)]
    ctx.ob('relisten', len(add) == 1, w, 'the listening socket is not watched', path=pa, sig='watched')
    if add:
        ctx.ob('socket', nonblocking(it, pa, fd, add[0]), w, 'the listening socket may block', path=pa, sig='listen:nonblock')
        mk = last(pa, add[0], lambda x: x.kind == 'call' and x.name == NS + 'FdEvent::(ctor)' and len(vals(x)) >= 3)
        ctx.ob('relisten', mk is not None and vals(mk)[1] == fd, w, 'the event does not watch the listening socket', path=pa, sig='event')
    b = last(pa, i, lambda x: x.kind == 'call' and x.name.lstrip(':') == 'bind')
    v = sockaddr(pa, b, 'sin_port') if b is not None else None
    ctx.ob('address', b is not None and vals(b)[0] == fd and v is not None and v[0] == 'init' and v[1][0] == 'f' and v[1][2] == NS + 'NetAddr::port', w,
           'the network does not listen on the port given', path=pa, sig='listen:port')
    ctx.ob('relisten', pa.st.cells.get(('f', THIS, LFD)) == fd, w, 'the listening socket is not recorded', path=pa, sig='recorded')
    old = ('init', ('f', THIS, LFD))
    none = it.holds(pa.st.iv, eq(old, C(-1))) or it.holds(pa.st.iv, lt(old, C(0)))
    if not none:
        cl = [j for j, x in enumerate(pa.events) if x.kind == 'call' and x.name.lstrip(':') == 'close' and vals(x)[0] == old]
        un = [j for j, x in enumerate(pa.events) if x.kind in ('call', 'vcall') and short(x.name) in ('clear', 'del') and 'ev_listen' in repr(x.obj)]
        ctx.ob('relisten', len(cl) == 1 and bool(un) and un[0] < cl[0], w, 'the socket of the previous listening stays open or watched', path=pa, sig='previous')


# ---------------------------------------------------------------- messages
def magic(ctx, net, m):
    prog = ctx.prog
    n = 0
    for f in prog.methods_of(NS + net):
        if f.body is None or f.static or short(f.qn) not in ('send_msg', 'send_msg_deferred', 'multicast_msg') or f.access:
            continue
        priv = {g.qn for g in prog.methods_of(NS + net) if short(g.qn).startswith('_')} | {NS + 'MsgNetwork::_send_msg', NS + 'MsgNetwork::_send_msg_deferred'}
        it = Interp(prog, Config(opaque_classes={NS + 'MsgBase'}, extra_opaque=priv | ERRS))
        for pa in it.run(f):
            mk = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'MsgBase::(ctor)' and len(vals(e)) == 2]
            if pa.kind != 'ret' or not mk:
                continue
            n += 1
            later = [e for e in pa.events if e.kind == 'call' and e.name == NS + 'MsgBase::set_magic']
            ctx.ob('magic', all(setting(vals(e)[1], m, 'msg_magic') for e in mk) and all(setting(vals(e)[0], m, 'msg_magic') for e in later), f.where,
                   'a message is sent with another magic number than the one configured', path=pa, sig=f.qn)
    ctx.require(n > 0, 'no function of %s makes a message to send' % net)
