"""TLS: nothing bypasses a completed handshake."""
from .peers import *
from ..system import System
TITLE = 'With TLS on, no byte or user event bypasses a completed handshake'
RULES = {
    'session': 'with TLS on, a connection gets a TLS session on its own socket, accepting exactly if it was accepted',
    'stage': 'with TLS on, a connection exchanges plain bytes never, and encrypted ones only after its handshake',
    'gate': 'with TLS on, a connection is set up, announced and read only after its handshake',
    'cert': 'the certificate of the remote is taken from the session before the connection is set up',
    'setup': 'a completed handshake sets the connection up once, here and in the dispatcher, and announces it',
    'want': 'an incomplete handshake waits for exactly the direction the session asks for',
    'hard': 'a failed handshake is raised and ends the connection with an error',
    'wire': 'encrypted bytes go through the session of the connection',
    'fresh': 'the error of a TLS operation is judged apart from earlier ones',
    'verify': 'the remote\'s certificate is asked for, and checked unless the check is configured off',
    'context': 'the certificate and key configured are used, and set-up fails with the documented error if they do not fit',
}
EXPLAIN = ('All tasks of the network with the TLS wrapper made transparent: every change of a socket callback, every set-up, announcement and '
           'hand-over is traced back through the posts that lead to it to a successful handshake or to TLS being off.')
ASSUME = ['OpenSSL performs TLS as documented', 'posted functions run once (C13)']
TLSC = {NS + 'TLS', NS + 'TLSContext'}
TLSF = CONN + 'tls'
CERT = CONN + 'peer_cert'
ENABLE = NS + 'ConnPool::enable_tls'
WT = NS + 'ConnPool::worker_terminate'
IOF = ('recv_data_func', 'send_data_func')
PLAIN = {'recv', 'send', 'read', 'write', 'recvmsg', 'sendmsg', 'readv', 'writev', 'recvfrom', 'sendto'}
CRYPT = {'SSL_read', 'SSL_write', 'SSL_read_ex', 'SSL_write_ex', 'SSL_peek'}
SHAKE = {'SSL_do_handshake', 'SSL_connect', 'SSL_accept'}
GETCERT = {'SSL_get_peer_certificate', 'SSL_get1_peer_certificate'}
SET = ('on_worker_setup', 'on_dispatcher_setup')


def check(ctx):
    for net in ('MsgNetwork', 'PeerNetwork'):
        T(ctx, net)
    context(ctx)
    for r in RULES:
        ctx.need(r)


def bare(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


def consts(lam):
    return (lam[3], tuple((c[1], c[3]) for c in lam[4] if c[3][0] in ('c', 'null')))


class T:
    def __init__(self, ctx, net):
        self.ctx, self.p = ctx, ctx.prog
        self.s = s = System.__new__(System)
        cfg = Config(resolve=lambda n, qn: s.resolve(n, qn), extra_opaque=ERRS | ERRC, not_opaque=TLSC, max_states=20000)
        s.__init__(ctx.prog, net, config=cfg)
        ctx.require(not s.unresolved, 'callback hand-off not understood in %s: %s' % (net, s.unresolved[:3]))
        self.it = self.s.interp
        for t in self.s.tasks:
            ctx.note(t.label, t.paths, self.it)
        self.posts = {}
        for t in self.s.tasks:
            for pa in t.paths:
                for i, e in enumerate(pa.events):
                    l = lam_of(e)
                    if l is None and e.kind == 'call' and (e.name.endswith('EventDriven::reg_handler') or e.name.endswith('Event::(ctor)')) and vals(e):
                        l = bare(vals(e)[-1])
                    if l is not None and l[0] == 'lam':
                        self.posts.setdefault(consts(l), []).append((t, pa, i))
        self.kinds()
        self.gates()
        self.feed()
        self.shake()
        self.fresh()
        self.wire()
        self.contained()

    # ------------------------------------------------------------------ facts
    def zero(self, f, v):
        return v in (C(0), ('null',)) or self.it.holds(f, pred_not(truth(v)))

    def nonzero(self, f, v):
        return v[0] == 'c' and v[1] != 0 or self.it.holds(f, truth(v))

    def tls_known(self, facts):
        """1/0 if TLS is known to be on/off, else None"""
        for k in facts:
            for x, _ in k:
                if x[0] == 'init' and x[1][0] == 'f' and x[1][2] == ENABLE:
                    if self.it.holds(facts, truth(x)):
                        return 1
                    if self.it.holds(facts, pred_not(truth(x))):
                        return 0
        return None

    def shaken(self, pa, i, facts):
        """the event of a handshake known to have succeeded before event i"""
        for e in pa.events[:i]:
            if e.kind == 'call' and e.name in SHAKE and self.it.holds(facts, eq(e.res, C(1))):
                return e
        return None

    def guarded(self, t, pa, i, seen=frozenset()):
        facts = pa.events[i].facts
        if facts is None:
            facts = {}
        if self.tls_known(facts) == 0 or self.shaken(pa, i, facts):
            return True
        if t.lam is None:
            return False
        k = consts(t.lam)
        if k in seen:
            return True
        ps = self.posts.get(k, ())
        return bool(ps) and all(self.guarded(u, q, j, seen | {k}) for u, q, j in ps)

    # ------------------------------------------------------------------ what the socket callbacks may do
    def kinds(self):
        self.kind = {}
        fids = {}
        for f in IOF:
            for v in self.s.fields.get(CONN + f, ()):
                if v[0] == 'fn':
                    fids[v[1]] = v[2]
        self.ctx.require(len(fids) >= 4, 'socket callbacks not found')
        it = Interp(self.p, Config(abstract=IO_ABSTRACT, extra_opaque={ERR}, not_opaque=TLSC, resolve=self.s.resolve))
        self.io = {}
        for fid, qn in fids.items():
            fn = self.p.functions.get(fid)
            self.ctx.require(fn is not None and fn.body is not None, 'no body for ' + qn)
            ps = it.run(fn)
            names = {e.name for pa in ps for e in pa.events if e.kind == 'call'}
            k = set()
            if names & PLAIN:
                k.add('plain')
            if names & CRYPT:
                k.add('crypt')
            if names & SHAKE:
                k.add('shake')
            self.ctx.ob('stage', len(k) <= 1, fn.where, '%s mixes plain, encrypted and handshake traffic' % short(qn), sig='mix:' + qn)
            self.kind[fid] = k.pop() if len(k) == 1 else ('none' if not k else 'mixed')
            self.io[fid] = (qn, fn, it, ps)
        self.ctx.require(set(self.kind.values()) >= {'plain', 'crypt', 'shake'}, 'plain, encrypted and handshake callbacks not found')

    def gates(self):
        ctx = self.ctx
        n = 0
        done = {}
        for t in self.s.tasks:
            for pa in t.paths:
                for i, e in enumerate(pa.events):
                    if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] in (CONN + IOF[0], CONN + IOF[1]):
                        v = bare(e.args[0])
                        if v[0] != 'fn':
                            if v not in (('null',), C(0)) and e.obj[1][0] == 'obj' and not fresh_obj(e.obj[1]):
                                ctx.ob('stage', False, e.where, 'a socket callback is set to something unknown', path=pa, sig='unk:' + e.where)
                            continue
                        n += 1
                        k = self.kind.get(v[1], 'mixed')
                        if k == 'plain':
                            ok = self.known_chain(t, pa, i, 0)
                            ctx.ob('stage', ok, e.where, 'plain bytes may be exchanged with TLS on', path=pa, sig='plain:' + e.where)
                        elif k in ('crypt', 'none'):
                            ok = (bool(self.shaken(pa, i, e.facts or {})) or self.known_chain(t, pa, i, 1)) and self.guarded(t, pa, i)
                            ctx.ob('stage', ok, e.where, 'encrypted bytes may be exchanged before the handshake is complete, or with TLS off', path=pa, sig='crypt:' + e.where)
                        elif k == 'shake':
                            ctx.ob('stage', self.tls_known(e.facts or {}) == 1 and not self.shaken(pa, i, e.facts or {}), e.where,
                                   'a handshake is started with TLS off or already done', path=pa, sig='shake:' + e.where)
                        else:
                            ctx.ob('stage', False, e.where, 'a socket callback mixes kinds of traffic', path=pa, sig='mixed:' + e.where)
                        continue
                    what = None
                    if e.kind in ('call', 'write', 'icall', 'vcall') and any(short(c) in SET for c in callers(e)):
                        if self.entered(e, pa, i):
                            what = 'set up'
                    elif e.kind == 'icall' and e.name == NS + 'ConnPool::conn_cb' and self.on(e):
                        what = 'announced'
                    elif e.kind == 'call' and e.name.endswith('EventDriven::reg_handler') and e.obj and any(
                            x[0] == 'f' and x[2] == CONN + 'send_buffer' for x in subterms(e.obj)):
                        what = 'given a queue of outgoing data'
                    if what:
                        ok = self.guarded(t, pa, i)
                        n += 1
                        ctx.ob('gate', ok, e.where, 'with TLS on, a connection is %s before its handshake is complete' % what, path=pa, sig='gate:%s:%s' % (what, e.where))
        ctx.require(n >= 6, 'changes of socket callbacks, set-ups and announcements not found')

    def known_chain(self, t, pa, i, on, seen=frozenset()):
        """on every way to the event TLS is known to be on (or off)"""
        k = self.tls_known(pa.events[i].facts or {})
        if k is not None:
            return k == on
        if t.lam is None or consts(t.lam) in seen:
            return False
        ps = self.posts.get(consts(t.lam), ())
        return bool(ps) and all(self.known_chain(u, q, j, on, seen | {consts(t.lam)}) for u, q, j in ps)

    def entered(self, e, pa, i):
        """first event of the set-up function on the path"""
        me = [c for c in callers(e) if short(c) in SET]
        prev = pa.events[i - 1] if i else None
        return prev is None or not any(c in me for c in callers(prev))

    def on(self, e):
        a = vals(e)
        return len(a) >= 2 and not self.zero(e.facts or {}, a[1])

    # ------------------------------------------------------------------ a new connection in its worker
    def feed(self):
        ctx = self.ctx
        n = 0
        for t in self.s.tasks:
            for pa in t.paths:
                mk = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'call' and e.name == 'SSL_new']
                kinds = {}
                for i, e in enumerate(pa.events):
                    if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] in (CONN + IOF[0], CONN + IOF[1]) and bare(e.args[0])[0] == 'fn':
                        if self.kind.get(bare(e.args[0])[1]) == 'shake':
                            kinds.setdefault(e.obj[1], {})[e.obj[2]] = e
                if not mk and not kinds:
                    continue
                if pa.kind != 'ret' or any(e.kind == 'catch' for e in pa.events):
                    continue
                n += 1
                for conn, w in kinds.items():
                    ctx.ob('session', len(w) == 2, t.where, 'only one direction of a new connection starts with the handshake', path=pa, sig='both')
                    ctx.ob('session', len(mk) == 1, t.where, 'a connection that starts a handshake gets %d sessions' % len(mk), path=pa, sig='one')
                    watch = [e for e in pa.events if e.kind == 'call' and e.obj == ('f', conn, CONN + 'ev_socket') and short(e.name) in ('add', 'del', 'clear')]
                    ok = bool(watch) and short(watch[-1].name) == 'add' and vals(watch[-1])[0] in (C(1), C(2), C(3))
                    ctx.ob('session', ok, t.where, 'a new connection is not watched for its handshake', path=pa, sig='watched')
                    if len(mk) != 1:
                        continue
                    i, e = mk[0]
                    ssl = e.res
                    cx = vals(e)[0]
                    ctx.ob('session', any(x[0] == 'f' and x[2] == NS + 'ConnPool::tls_ctx' for x in subterms(cx)), e.where,
                           'the session does not use the context of the network', path=pa, sig='ctx')
                    st = [x for x in pa.events if x.kind == 'call' and x.name in ('SSL_set_fd',) and vals(x)[0] == ssl]
                    oth = [x for x in pa.events if x.kind == 'call' and x.name in ('SSL_set_rfd', 'SSL_set_wfd', 'SSL_set_bio')]
                    evfd = [vals(x)[1] for x in pa.events if x.kind == 'call' and x.name == NS + 'FdEvent::(ctor)' and len(vals(x)) >= 3]
                    ok = len(st) == 1 and not oth and (vals(st[0])[1] in evfd or vals(st[0])[1] == ('init', ('f', conn, CONN + 'fd')))
                    ctx.ob('session', ok, e.where, 'the session is not on the socket of the connection', path=pa, sig='fd')
                    ac = [x for x in pa.events if x.kind == 'call' and x.name == 'SSL_set_accept_state' and vals(x)[0] == ssl]
                    co = [x for x in pa.events if x.kind == 'call' and x.name == 'SSL_set_connect_state' and vals(x)[0] == ssl]
                    mode = ('init', ('f', conn, CONN + 'mode'))
                    pas = self.passive()
                    facts = last_facts(pa)
                    if ac and not co:
                        ok = self.it.holds(facts, eq(mode, pas))
                    elif co and not ac:
                        ok = self.it.holds(facts, pred_not(eq(mode, pas)))
                    else:
                        ok = False
                    ctx.ob('session', ok, e.where, 'the side of the handshake is not that of the connection', path=pa, sig='side')
                    cell = pa.st.cells.get(('f', conn, TLSF))
                    own = cell is not None and self.owner_ssl(pa, cell, ssl)
                    ctx.ob('session', own, e.where, 'the session is not kept by the connection', path=pa, sig='kept')
                    fl = [x for x in pa.events if x.kind == 'call' and x.name in ('SSL_set_mode', 'SSL_ctrl') and vals(x)[0] == ssl]
                    ctx.ob('session', any(moving(x) for x in fl), e.where, 'a blocked write could not be repeated from another buffer', path=pa, sig='moving')
                    bad = [x for x in pa.events if x.kind == 'call' and short(x.name) in ('SSL_set_verify', 'SSL_CTX_set_verify')]
                    ctx.ob('verify', not bad, e.where, 'the session overrides the certificate check', path=pa, sig='override')
        ctx.require(n, 'no path starts a handshake')

    def passive(self):
        for e in self.p.enums.values():
            for x in e['e']:
                if x['n'] == 'PASSIVE':
                    return C(x['v'])
        self.ctx.require(False, 'no passive connection mode')

    def owner_ssl(self, pa, box, ssl):
        box = bare(box)
        return pa.st.cells.get(('f', ('obj', box), NS + 'TLS::ssl')) == ssl

    # ------------------------------------------------------------------ the handshake
    def shake(self):
        ctx, it = self.ctx, self.it
        n = ok_n = 0
        errs = {'SSL_ERROR_WANT_READ': 2, 'SSL_ERROR_WANT_WRITE': 3}
        tasks = [t for t in self.s.tasks if t.root is not None and self.kind.get(t.root.fn) == 'shake']
        ctx.require(tasks, 'no handshake callbacks')
        for t in tasks:
            conn = ('obj', ('init', ('p', t.root.qn, t.root.params[0]['n'])))
            for pa in t.paths:
                if pa.kind == 'backedge':
                    continue
                hs = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'call' and e.name in SHAKE]
                ctx.ob('want', len(hs) == 1, t.where, 'the handshake is advanced %d times' % len(hs), path=pa, sig='once')
                if len(hs) != 1:
                    continue
                n += 1
                i, h = hs[0]
                ctx.ob('wire', mine(vals(h)[0], conn), h.where, 'the handshake is not that of the connection', path=pa, sig='shake')
                facts = last_facts(pa)
                watch = [e for e in pa.events[i:] if e.kind == 'call' and e.obj == ('f', conn, CONN + 'ev_socket') and short(e.name) in ('add', 'del', 'clear')]
                m = 0
                for e in watch:
                    m = vals(e)[0] if short(e.name) == 'add' else 0
                posts = [e for e in pa.events[i:] if lam_of(e) is not None]
                err = [e for e in pa.events[i:] if e.kind == 'call' and e.name == 'SSL_get_error']
                if it.holds(facts, eq(h.res, C(1))):
                    crt = [(j, e) for j, e in enumerate(pa.events) if e.kind == 'call' and e.name in GETCERT]
                    if pa.kind == 'throw':
                        ok = crt and any(self.zero(facts, e.res) for _, e in crt)
                        setups = [e for e in pa.events if e.kind in ('call', 'write') and any(short(c) in SET for c in callers(e))]
                        ctx.ob('cert', ok and not setups and not posts, t.where, 'a completed handshake fails for another reason than a missing certificate', path=pa, sig='throw')
                        continue
                    ok_n += 1
                    w = [(j, e) for j, e in enumerate(pa.events) if e.kind == 'write' and e.obj == ('f', conn, CERT)]
                    got = len(crt) == 1 and mine(vals(crt[0][1])[0], conn) and self.nonzero(facts, crt[0][1].res) and len(w) == 1 and \
                        self.is_cert(pa, w[0][1].args[0], crt[0][1].res)
                    ctx.ob('cert', got, t.where, 'the certificate of the remote is not recorded', path=pa, sig='cert')
                    first = [j for j, e in enumerate(pa.events) if any(short(c) in SET for c in callers(e)) or lam_of(e) is not None]
                    ctx.ob('cert', not w or not first or w[0][0] < first[0], t.where, 'the connection is set up before the certificate is recorded', path=pa, sig='late')
                    self.established(t, pa, conn, posts)
                elif err:
                    ok = len(err) == 1 and wide(vals(err[0])[1]) == h.res and mine(vals(err[0])[0], conn)
                    ctx.ob('want', ok, t.where, 'the error asked for is not that of the handshake', path=pa, sig='err')
                    r = err[0].res
                    if it.holds(facts, eq(r, C(2))):
                        ctx.ob('want', pa.kind == 'ret' and m == C(1) and not posts, t.where, 'a handshake that needs to read does not wait for exactly that', path=pa, sig='read')
                    elif it.holds(facts, eq(r, C(3))):
                        ctx.ob('want', pa.kind == 'ret' and m == C(2) and not posts, t.where, 'a handshake that needs to write does not wait for exactly that', path=pa, sig='write')
                    else:
                        ctx.ob('hard', pa.kind == 'throw' and not posts or self.ends(pa, conn), t.where, 'a failed handshake is not raised', path=pa, sig='raise')
                else:
                    ctx.ob('hard', pa.kind == 'throw' and not posts, t.where, 'the result of the handshake is not judged', path=pa, sig='unjudged')
        ctx.require(n and ok_n, 'no completed handshake')

    def is_cert(self, pa, v, crt):
        v = bare(v)
        return pa.st.cells.get(('f', ('obj', v), NS + 'X509::x509')) == crt or crt in set(subterms(v)) or \
            any(e.kind == 'call' and e.name == NS + 'X509::(ctor)' and e.obj == ('obj', v) and any(self.cert_of(pa, x, crt) for x in vals(e)) for e in pa.events) or \
            any(e.kind == 'write' and e.obj == ('obj', v) and self.cert_of(pa, e.args[0], crt) for e in pa.events)

    def cert_of(self, pa, x, crt):
        x = bare(x)
        return x == crt or any(e.kind == 'call' and e.name == NS + 'X509::(ctor)' and e.res == x and crt in vals(e) for e in pa.events) or crt in set(subterms(x))

    def ends(self, pa, conn):
        return any(e.kind in ('call', 'vcall') and short(e.name) in ('worker_terminate', 'disp_terminate') for e in pa.events)

    def established(self, t, pa, conn, posts):
        """the effects of a completed handshake"""
        ctx = self.ctx
        c = conn[1]
        ws = [i for i, e in enumerate(pa.events) if any(short(x) == 'on_worker_setup' for x in callers(e)) and self.entered(e, pa, i)]
        q = [e for e in pa.events if e.kind == 'call' and e.name.endswith('EventDriven::reg_handler') and any(x == ('f', conn, CONN + 'send_buffer') for x in subterms(e.obj or ()))]
        ctx.ob('setup', len(ws) >= 1, t.where, 'a completed handshake does not set the connection up in its worker', path=pa, sig='worker')
        ctx.ob('setup', len(q) == 1, t.where, 'a completed handshake does not take over the outgoing data', path=pa, sig='queue')
        d = [e for e in posts if self.s.tcall_role(e.obj) == DISP]
        ctx.ob('setup', len(d) == 1 and len(posts) == 1, t.where, 'a completed handshake is handed to the dispatcher %d times' % len(d), path=pa, sig='post')
        fin = {}
        for e in pa.events:
            if e.kind == 'write' and e.obj[0] == 'f' and e.obj[1] == conn and e.obj[2] in (CONN + IOF[0], CONN + IOF[1]):
                fin[e.obj[2]] = bare(e.args[0])
        for f in IOF:
            v = fin.get(CONN + f)
            ok = v is not None and v[0] == 'fn' and self.kind.get(v[1]) in (('crypt',) if f == 'send_data_func' else ('crypt', 'none'))
            ctx.ob('setup', ok, t.where, 'after the handshake a direction is not switched to encrypted traffic', path=pa, sig='switch:' + f)
        for e in d:
            qs = self.it.run_lambda(lam_of(e), iv=dict(e.facts or {}))
            for r in qs:
                if r.kind == 'backedge':
                    continue
                if any(x.kind == 'catch' for x in r.events) or r.kind != 'ret':
                    continue
                up = [x for x in r.events if lam_of(x) is not None and self.s.tcall_role(x.obj) == USER]
                good = [x for x in up if self.announces(x, c)]
                ctx.ob('setup', len(good) == 1, t.where, 'a completed handshake is announced %d times' % len(good), path=r, sig='announce')

    def announces(self, e, conn):
        for r in self.it.run_lambda(lam_of(e)):
            if any(x.kind == 'icall' and x.name == NS + 'ConnPool::conn_cb' and vals(x)[0] == conn and self.on(x) for x in r.events):
                return True
        return False

    # ------------------------------------------------------------------ errors of TLS operations
    def fresh(self):
        ctx = self.ctx
        n = 0
        for fid, (qn, fn, it, ps) in sorted(self.io.items(), key=lambda x: x[1][0]):
            for pa in ps:
                for i, e in enumerate(pa.events):
                    if e.kind == 'call' and e.name in CRYPT | SHAKE:
                        n += 1
                        ok = False
                        for x in reversed(pa.events[:i]):
                            if x.kind == 'call' and x.name == 'ERR_clear_error':
                                ok = True
                                break
                            if x.kind == 'call' and (x.name.startswith('SSL_') or x.name in ('on_read',)):
                                break
                        ctx.ob('fresh', ok, e.where, 'errors left by other connections are not cleared before the operation, so its result is misjudged', path=pa,
                               sig='fresh:' + e.where)
                    elif e.kind == 'call' and e.name == 'SSL_get_error':
                        op = [x for x in pa.events[:i] if x.kind == 'call' and x.name in CRYPT | SHAKE]
                        ok = bool(op) and vals(op[-1])[0] == vals(e)[0] and wide(vals(e)[1]) == op[-1].res
                        ctx.ob('fresh', ok, e.where, 'the error asked for is not that of the last operation', path=pa, sig='of:' + e.where)
        ctx.require(n, 'no TLS operations')

    def wire(self):
        ctx = self.ctx
        n = 0
        for fid, (qn, fn, it, ps) in sorted(self.io.items(), key=lambda x: x[1][0]):
            conn = ('obj', ('init', ('p', fn.qn, fn.params[0]['n'])))
            for pa in ps:
                for e in pa.events:
                    if e.kind == 'call' and e.name in CRYPT:
                        n += 1
                        ctx.ob('wire', mine(vals(e)[0], conn), e.where, 'bytes go through another session', path=pa, sig='wire:' + e.where)
        ctx.require(n, 'no encrypted traffic')

    # ------------------------------------------------------------------ errors end the connection
    def contained(self):
        ctx = self.ctx
        n = 0
        for t in self.s.tasks:
            for pa in t.paths:
                ic = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'icall' and e.name in (CONN + IOF[0], CONN + IOF[1])]
                ca = [i for i, e in enumerate(pa.events) if e.kind == 'catch']
                if t.lam is None or not ic or not self.from_socket(t):
                    continue
                n += 1
                ctx.ob('hard', all(e.intry for _, e in ic), t.where, 'an error of a socket callback escapes into the event loop', path=pa, sig='escape')
                if ca and ic[-1][0] < ca[0]:
                    c = self.conn_of(t)
                    ok = any(e.kind in ('call', 'vcall') and short(e.name) in ('worker_terminate', 'disp_terminate') and vals(e)[0] == c for e in pa.events[ca[0]:]) or \
                        self.terminating(pa.events[ca[0]:], c)
                    rep = any(e.kind in ('call', 'vcall') and e.name in ERRS or self.reports(e) for e in pa.events[ca[0]:])
                    ctx.ob('hard', ok and rep and pa.kind == 'ret', t.where, 'a failed handshake does not end the connection with an error', path=pa, sig='ended')
        ctx.require(n, 'socket events not found')

    def reports(self, e):
        l = lam_of(e)
        if l is None or self.s.tcall_role(e.obj) != USER:
            return False
        return any(x.kind == 'icall' and x.name == NS + 'ConnPool::error_cb' for q in self.it.run_lambda(l) for x in q.events)

    def from_socket(self, t):
        for u, pa, i in self.posts.get(consts(t.lam), ()):
            if pa.events[i].name == NS + 'FdEvent::(ctor)':
                return True
        return False

    def conn_of(self, t):
        """the connection whose socket event runs the task"""
        cs = set()
        for u, pa, i in self.posts.get(consts(t.lam), ()):
            for e in pa.events[i:]:
                if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == CONN + 'ev_socket':
                    cs.add(e.obj[1][1])
                    break
        return cs.pop() if len(cs) == 1 else None

    def terminating(self, evs, c):
        for e in evs:
            l = lam_of(e)
            if l is None:
                continue
            if any(claim(x) == ('obj', c) for q in self.it.run_lambda(l) for x in q.events):
                return True
        return False


def wide(v):
    while v[0] == 'narrow':
        v = v[2]
    return v


def fresh_obj(o):
    return o[1][0] == 's' and str(o[1][3]).startswith('new ')


def moving(e):
    a = vals(e)
    if e.name == 'SSL_set_mode':
        m = a[1]
    else:
        if a[1] != C(33):
            return False
        m = a[2]
    return m[0] == 'c' and m[1] & 2 and m[1] & 1


def mine(ssl, conn):
    """the session handle is the one kept by the connection"""
    ssl = bare(ssl)
    return any(x == ('f', conn, TLSF) for x in subterms(ssl)) and any(x[0] == 'f' and x[2] == NS + 'TLS::ssl' for x in subterms(ssl))


# ---------------------------------------------------------------- context of the network
CFG = NS + 'ConnPool::Config::'
USE_CERT = {'SSL_CTX_use_certificate', 'SSL_CTX_use_certificate_file', 'SSL_CTX_use_certificate_chain_file'}
USE_KEY = {'SSL_CTX_use_PrivateKey', 'SSL_CTX_use_PrivateKey_file'}


def context(ctx):
    fs = [f for f in ctx.prog.methods_of(NS + 'ConnPool') if f.kind == 'ctor' and not f.copy and not f.move and not f.defaulted]
    ctx.require(len(fs) == 1, 'constructor of the network not found')
    f = fs[0]
    it = Interp(ctx.prog, Config(not_opaque=TLSC, extra_opaque=ERRC, split=True, max_states=20000))
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    par = ('p', f.qn, f.params[1]['n'])

    def opt(name):
        ctx.require(ctx.prog.field(CFG[:-2], name) is not None, 'no option ' + name)
        return ('init', ('f', par, CFG + name))
    on, skip, cb, xc, xk = (opt(n) for n in ('_enable_tls', '_tls_skip_ca_check', '_tls_verify_callback', '_tls_cert', '_tls_key'))
    fc, fk = opt('_tls_cert_file'), opt('_tls_key_file')
    m = Model(ctx, it=it)
    n = 0

    def true(facts, v):
        return v[0] == 'c' and v[1] != 0 or it.holds(facts, truth(v))

    def false(facts, v):
        return v in (C(0), ('null',)) or it.holds(facts, pred_not(truth(v)))

    def good(facts, v):
        return it.holds(facts, lt(C(0), v))

    for pa in ps:
        facts = last_facts(pa)
        ssl = [e for e in pa.events if e.kind == 'call' and e.name.startswith('SSL_')]
        if not true(facts, on):
            ctx.ob('context', pa.kind == 'throw' or false(facts, on), f.where, 'TLS is not set up as configured', path=pa, sig='asked')
            continue
        mk = [e for e in ssl if e.name == 'SSL_CTX_new']
        cr = [e for e in ssl if e.name in USE_CERT]
        kr = [e for e in ssl if e.name in USE_KEY]
        vf = [e for e in ssl if e.name == 'SSL_CTX_set_verify']
        ck = [e for e in ssl if e.name == 'SSL_CTX_check_private_key']
        if pa.kind == 'throw':
            # the error raised is the documented one
            last = ssl[-1] if ssl else None
            if last is None:
                continue
            code = 'TLS_LOAD_CERT' if last.name in USE_CERT else 'TLS_LOAD_KEY' if last.name in USE_KEY else 'TLS_KEY_NOT_MATCH' if last.name == 'SSL_CTX_check_private_key' else None
            if code is None or good(facts, last.res):
                continue
            rs = [vals(e)[0] for e in pa.events if e.kind == 'call' and e.name in ERRC]
            ctx.ob('context', bool(rs) and rs[-1] == m.code(code), f.where, 'set-up fails with another error than documented', path=pa, sig='code:' + code)
            continue
        if pa.kind == 'backedge':
            continue
        n += 1
        box = pa.st.cells.get(('f', ('obj', ('this',)), NS + 'ConnPool::tls_ctx'), ('null',))
        own = pa.st.cells.get(('f', ('obj', bare(box)), NS + 'TLSContext::ctx'))
        ok = len(mk) == 1 and own == mk[0].res and true(facts, own)
        ctx.ob('context', ok, f.where, 'the network keeps no context', path=pa, sig='kept')
        if not ok:
            continue
        mine_ = all(vals(e)[0] == own for e in cr + kr + vf + ck)
        ctx.ob('context', mine_, f.where, 'another context is prepared', path=pa, sig='other')
        ok = len(cr) == 1 and good(facts, cr[0].res) and source(pa, facts, cr[0], xc, fc, true, false)
        ctx.ob('context', ok, f.where, 'the configured certificate is not used', path=pa, sig='cert')
        ok = len(kr) == 1 and good(facts, kr[0].res) and source(pa, facts, kr[0], xk, fk, true, false)
        ctx.ob('context', ok, f.where, 'the configured key is not used', path=pa, sig='key')
        mem = bare(pa.st.cells.get(('f', ('obj', ('this',)), NS + 'ConnPool::tls_cert'), ('null',)))
        ok = bool(cr) and (mem in set(subterms(vals(cr[0])[1])) or any(e.kind == 'write' and e.obj == ('obj', mem) and e.args[0] in set(subterms(vals(cr[0])[1])) for e in pa.events))
        ctx.ob('context', ok, f.where, 'the certificate of the network is not the one it uses', path=pa, sig='own')
        ok = len(ck) == 1 and good(facts, ck[0].res) and bool(kr) and pa.events.index(ck[0]) > pa.events.index(kr[0]) and bool(cr) and \
            pa.events.index(ck[0]) > pa.events.index(cr[0])
        ctx.ob('context', ok, f.where, 'it is not checked that key and certificate fit', path=pa, sig='fit')
        ok = len(vf) == 1
        ctx.ob('verify', ok, f.where, 'the verification of certificates is not set', path=pa, sig='set')
        if not ok:
            continue
        mode, fn = vals(vf[0])[1], bare(vals(vf[0])[2])
        ctx.ob('verify', mode[0] == 'c' and mode[1] & 1 == 1, vf[0].where, 'the certificate of the remote is not asked for', path=pa, sig='peer')
        if true(facts, skip):
            ctx.ob('verify', accepts(ctx, fn), vf[0].where, 'certificates are checked although the check is configured off', path=pa, sig='skip')
        elif false(facts, skip):
            ctx.ob('verify', fn == cb, vf[0].where, 'the configured check is not used', path=pa, sig='callback')
        else:
            ctx.ob('verify', False, vf[0].where, 'the configured check is ignored', path=pa, sig='ignored')
    ctx.require(n, 'no path sets TLS up')


def accepts(ctx, fn):
    """the function accepts every certificate"""
    if fn[0] != 'fn' or fn[1] not in ctx.prog.functions or ctx.prog.functions[fn[1]].body is None:
        return False
    ps = Interp(ctx.prog, Config()).run(ctx.prog.functions[fn[1]])
    return bool(ps) and all(p.kind == 'ret' and p.ret is not None and p.ret[0] == 'c' and p.ret[1] != 0 for p in ps)


def source(pa, facts, e, obj, file, true, false):
    """the material used is the object configured, or else the file configured"""
    sub = set(subterms(vals(e)[1]))
    if true(facts, obj):
        return obj in sub
    if not false(facts, obj):
        return False
    if e.name.endswith('_file'):
        return file in sub or file[1] in sub or any(x[0] == 'ap' and x[1] == 'c_str' and file[1] in set(subterms(x)) | set(x[2]) for x in sub)
    for x in sub:
        for y in pa.events:
            if y.kind == 'call' and y.res == x and short(y.name) == 'create_from_pem_file' or y.kind == 'call' and y.res == x and short(y.name) == 'create_privkey_from_pem_file':
                a = bare(vals(y)[0])
                return a == file or file in set(subterms(a)) or file[1] in set(subterms(a))
    return False
