"""Descriptors, files and crypto objects: released once or handed to one owner."""
from .peers import *
from ..program import walk
TITLE = 'Descriptors, files and crypto objects are released exactly once'
RULES = {
    'released': 'what is obtained is released or handed to one owner, on every path, failures included',
    'once': 'nothing is released twice or used after its release',
    'owner': 'an owner releases what it holds exactly once when it is destroyed',
    'moved': 'moving an owner hands over what it holds and leaves the source with nothing',
    'copy': 'an owner cannot be copied',
    'replace': 'an owner that takes a new object has released the one it held',
    'listen': 'the listening socket is closed once when the network stops, and before it is replaced',
    'callback': 'no exception is thrown through a C library',
}
EXPLAIN = ('Every function of the library that obtains a descriptor, file or OpenSSL object, directly or from a helper, is run on all abstract paths, '
           'thrown exceptions and failed calls included; the handle obtained must be released once or end in the field of an owner, whose destructor and '
           'move constructor are run in turn.')
ASSUME = ['memory allocation does not fail', 'the connection record releases its descriptor (C03)']
PKEYF = {'EVP_PKEY_free'}
CRTF = {'X509_free'}
FD = {'close'}
# name -> (releasing functions, 'ptr' | 'fd' | ('out', argument))
ACQ = {'fopen': ({'fclose'}, 'ptr'), 'fdopen': ({'fclose'}, 'ptr'), 'opendir': ({'closedir'}, 'ptr'),
       'socket': (FD, 'fd'), 'accept': (FD, 'fd'), 'accept4': (FD, 'fd'), 'open': (FD, 'fd'), 'eventfd': (FD, 'fd'), 'dup': (FD, 'fd'),
       'timerfd_create': (FD, 'fd'), 'epoll_create1': (FD, 'fd'),
       'EVP_PKEY_new': (PKEYF, 'ptr'), 'PEM_read_PrivateKey': (PKEYF, 'ptr'), 'PEM_read_bio_PrivateKey': (PKEYF, 'ptr'), 'd2i_AutoPrivateKey': (PKEYF, 'ptr'),
       'd2i_PrivateKey': (PKEYF, 'ptr'), 'X509_get_pubkey': (PKEYF, 'ptr'), 'EVP_RSA_gen': (PKEYF, 'ptr'), 'EVP_PKEY_dup': (PKEYF, 'ptr'),
       'X509_new': (CRTF, 'ptr'), 'PEM_read_X509': (CRTF, 'ptr'), 'PEM_read_bio_X509': (CRTF, 'ptr'), 'd2i_X509': (CRTF, 'ptr'), 'X509_dup': (CRTF, 'ptr'),
       'SSL_get_peer_certificate': (CRTF, 'ptr'), 'SSL_get1_peer_certificate': (CRTF, 'ptr'),
       'BN_new': ({'BN_free', 'BN_clear_free'}, 'ptr'), 'RSA_new': ({'RSA_free'}, 'ptr'), 'SSL_new': ({'SSL_free'}, 'ptr'),
       'SSL_CTX_new': ({'SSL_CTX_free'}, 'ptr'), 'BIO_new': ({'BIO_free', 'BIO_free_all'}, 'ptr'), 'BIO_new_file': ({'BIO_free', 'BIO_free_all'}, 'ptr'),
       'i2d_PublicKey': ({'CRYPTO_free', 'CRYPTO_clear_free'}, ('out', 1)), 'i2d_PrivateKey': ({'CRYPTO_free', 'CRYPTO_clear_free'}, ('out', 1)),
       'getaddrinfo': ({'freeaddrinfo'}, ('out0', 3)),        # (obtained when the result is zero)
       'i2d_X509': ({'CRYPTO_free', 'CRYPTO_clear_free'}, ('out', 1)), 'i2d_PUBKEY': ({'CRYPTO_free', 'CRYPTO_clear_free'}, ('out', 1))}
RELEASE = set().union(*(r for r, _ in ACQ.values()))
# functions that take the object over
TAKES = {'EVP_PKEY_assign': 2, 'fdopen': 0, 'SSL_set0_rbio': 1, 'SSL_set0_wbio': 1}
CRYPTO = {NS + x for x in ('TLS', 'TLSContext', 'X509', 'PKey', 'NotifyFd')}
CONNFD = CONN + 'fd'
LISTEN = NS + 'ConnPool::listen_fd'


def bare(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


class Throws:
    """calls that may raise an error of the library or of the user (memory exhaustion apart)"""

    def __init__(self, prog, mine):
        self.by_name = {}
        for f in mine:
            if f.kind == 'method' or f.virtual or f.overrides:
                self.by_name.setdefault(short(f.qn), []).append(f)
        self.prog = prog
        self.cache = {}
        self.plain = Interp(prog, Config())
        self.raises = {}
        self.by_qn = {}
        for f in mine:
            self.by_qn.setdefault(f.qn, []).append(f)

    def raising(self, qn):
        """whether a function that is not followed reaches a throw or code of the user"""
        if qn not in self.raises:
            self.raises[qn] = False
            fs = self.by_qn.get(qn, ())
            self.raises[qn] = not fs or any(self.node(n) for f in fs for b in [f.body, *[i for i in f.inits or ()]] for n in walk(b))
        return self.raises[qn]

    def node(self, n):
        if not isinstance(n, dict):
            return False
        if n.get('k') == 'throw' or n.get('k') in ('icall', 'vcall'):
            return True
        q = n.get('qn') or ''
        return q.startswith(NS) and q in self.by_qn and self.raising(q)

    def __call__(self, e):
        if e.kind == 'icall':
            return ('?',)
        if e.kind == 'vcall':
            n = short(e.name)
            if n not in self.cache:
                fs = [f for f in self.by_name.get(n, ()) if f.body is not None and f.params is not None]
                self.cache[n] = True
                self.cache[n] = not fs or any(p.kind == 'throw' or any(x.kind in ('icall', 'vcall') for x in p.events) for f in fs for p in self.plain.run(f))
            return ('?',) if self.cache[n] else ()
        if e.kind == 'call' and e.name.startswith(NS) and e.name in self.by_qn and self.raising(e.name):
            return ('?',)
        return ()


def check(ctx):
    prog = ctx.prog
    mine = [f for f in prog.functions.values() if f.body is not None and (rel(f.file).startswith('include/') or rel(f.file).startswith('src/'))]
    refs = {}
    for f in mine:
        s = set()
        for n in walk(f.body):
            if isinstance(n, dict) and n.get('k') in ('call', 'mcall', 'construct') or isinstance(n, dict) and 'qn' in n:
                s.add(n.get('qn'))
        for i in f.inits or ():
            for n in walk(i):
                if isinstance(n, dict) and n.get('qn'):
                    s.add(n['qn'])
        refs[f.fn] = s
    # helpers that hand a bare object to their caller
    it = Interp(prog, Config(not_opaque=CRYPTO, inline_dtors=CRYPTO, split=True, may_throw=Throws(prog, mine), max_states=20000))
    todo = [f for f in mine if refs[f.fn] & set(ACQ)]
    ctx.require(len(todo) >= 12, 'functions that obtain resources not found')
    done = set()
    owners = {}
    nacq = 0
    while todo:
        f = todo.pop(0)
        if f.fn in done or f.lam:
            continue
        done.add(f.fn)
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        passes = False
        for pa in ps:
            n, p = path(ctx, it, f, pa, owners)
            nacq += n
            passes = passes or p
        if passes:
            todo += [g for g in mine if f.qn in refs[g.fn]]
    ctx.require(nacq >= 20, 'resources obtained not found')
    # functions that release something they did not obtain
    for f in mine:
        if f.fn in done or f.lam or not refs[f.fn] & RELEASE:
            continue
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            path(ctx, it, f, pa, owners)
    for (cls, field), rel_ in sorted(owners.items()):
        owner(ctx, it, cls, field, rel_, mine)
    listening(ctx, it)
    callbacks(ctx, it, mine, refs)
    for r in RULES:
        ctx.need(r)


def handle(e):
    k = ACQ[e.name][1]
    if k in ('ptr', 'fd'):
        return e.res
    outs = (e.x or {}).get('outs') or {}
    return None


def out_value(pa, e, idx):
    """value stored through an output argument of a call"""
    line = str(e.where).rsplit(':', 1)[-1]
    want = 'out%d' % idx
    cands = set()
    for x in pa.events[pa.events.index(e):]:
        for a in (vals(x) or ()):
            if isinstance(a, tuple):
                for y in subterms(a):
                    if y[0] == 's' and str(y[3]) == want and str(y[4]) == line:
                        cands.add(y)
    for v in pa.st.cells.values():
        for y in subterms(v):
            if y[0] == 's' and len(y) > 4 and str(y[3]) == want and str(y[4]) == line:
                cands.add(y)
    return cands.pop() if len(cands) == 1 else None


def same(a, b):
    return bare(a) == b


def path(ctx, it, f, pa, owners):
    """obligations of one path; returns (objects obtained, whether one is handed to the caller bare)"""
    evs = pa.events
    facts = last_facts(pa)
    n = 0
    passes = False
    for i, e in enumerate(evs):
        if e.kind != 'call' or e.name not in ACQ:
            continue
        rels, k = ACQ[e.name]
        if isinstance(k, tuple):
            if k[0] == 'out0':
                if it.holds(facts, pred_not(eq(e.res, C(0)))):
                    n += 1
                    continue
            elif not it.holds(facts, lt(C(0), e.res)):
                if it.holds(facts, le(e.res, C(0))):
                    n += 1
                    continue
            h = out_value(pa, e, k[1])
            if h is None:
                a = vals(e)[k[1]] if len(vals(e)) > k[1] else ('null',)
                if a in (('null',), C(0)):
                    continue
                if pa.kind == 'backedge':
                    continue
                n += 1
                ctx.ob('released', False, e.where, 'the buffer obtained in %s is never released' % short(f.qn), path=pa, sig='out:%s:%s' % (f.qn, e.name))
                continue
        else:
            h = e.res
            none = it.holds(facts, lt(h, C(0))) if k == 'fd' else it.holds(facts, pred_not(truth(h)))
            if none:
                n += 1
                continue
        n += 1
        rs = [j for j, x in enumerate(evs) if j > i and x.kind == 'call' and x.name in rels and vals(x) and same(vals(x)[0], h)]
        for j, x in enumerate(evs):             # a local guard releases what it holds when it goes out of scope
            if j > i and x.kind == 'call' and x.name == 'std::unique_ptr::(ctor)' and len(x.args) > 1 and same(x.args[0], h) and \
                    x.args[1][0] == 'fn' and x.args[1][2] in rels and x.obj and x.obj[0] not in ('f', 'obj', 'i') and \
                    not any(y.kind == 'call' and y.name in ('std::unique_ptr::release', 'std::unique_ptr::reset') and y.obj == x.obj for y in evs[j:]):
                rs.append(len(evs))
        tk = [j for j, x in enumerate(evs) if j > i and x.kind == 'call' and x.name in TAKES and len(vals(x)) > TAKES[x.name] and same(vals(x)[TAKES[x.name]], h)]
        sinks = [] if rs else owned(it, f, pa, h)
        if pa.kind == 'backedge':
            ok = len(rs) <= 1
        else:
            ok = len(rs) + len(tk) == 1 or (not rs and not tk and bool(sinks))
        what = 'descriptor' if k == 'fd' else 'object'
        ctx.ob('released', ok or len(rs) + len(tk) > 1, e.where, 'the %s obtained by %s in %s is %s' % (what, e.name, short(f.qn), 'lost' + (' when an error is raised' if pa.kind == 'throw' else '')),
               path=pa, sig='lost:%s:%s%s' % (f.qn, e.name, ':throw' if pa.kind == 'throw' else ''))
        ctx.ob('once', len(rs) + len(tk) <= 1, e.where, 'what %s obtained is released %d times in %s' % (e.name, len(rs) + len(tk), short(f.qn)), path=pa, sig='twice:%s:%s' % (f.qn, e.name))
        for s in sinks:
            if s == 'caller':
                passes = True
            elif s != 'stored' and s[1] != CONNFD and s[1] != LISTEN:
                owners.setdefault(s, set()).update(rels)
        if rs:
            for x in evs[rs[0] + 1:]:
                if x.kind == 'call' and any(same(a, h) for a in vals(x) or ()) and x.name not in rels:
                    ctx.ob('once', False, x.where, 'what %s obtained is used after its release in %s' % (e.name, short(f.qn)), path=pa, sig='after:%s:%s' % (f.qn, e.name))
            live = [c for c in owned(it, f, pa, h) if c != 'stored' and not dead(pa, f)]
            ctx.ob('once', not any(c != 'caller' or not f.kind == 'dtor' for c in live), e.where, 'what %s obtained is released but still kept or returned in %s' % (e.name, short(f.qn)), path=pa,
                   sig='kept:%s:%s' % (f.qn, e.name))
    # what is released twice without having been obtained here
    seen = {}
    for e in evs:
        if e.kind == 'call' and e.name in RELEASE and vals(e):
            v = bare(vals(e)[0])
            if v in (('null',), C(0)):
                continue
            if any(x.res == v for x in evs if x.kind == 'call' and x.name in ACQ):
                continue
            n2 = seen.get(v, 0)
            ctx.ob('once', n2 == 0, e.where, 'something is released twice in %s' % short(f.qn), path=pa, sig='again:%s' % f.qn)
            seen[v] = n2 + 1
    return n, passes


def dead(pa, f):
    return pa.kind == 'throw'


def owned(it, f, pa, h):
    """where the object is kept at the end of the path: fields of objects that live on, 'caller' (returned bare)"""
    out = []
    ret = bare(pa.ret) if pa.ret is not None and pa.kind == 'ret' else None
    if ret is not None and ret == h:
        out.append('caller')
    for loc, v in pa.st.cells.items():
        if bare(v) != h:
            continue
        if loc[0] == 'f':
            root = loc[1]
            if root == ('obj', ('this',)):
                if pa.kind == 'throw' and f.kind == 'ctor':
                    continue
                out.append((loc[2].rsplit('::', 1)[0], loc[2]))
            elif root[0] == 'obj':
                o = root[1]
                if o[0] == 's' and str(o[3]).startswith('new '):
                    out.append((loc[2].rsplit('::', 1)[0], loc[2]))
                elif o == ret or ret is not None and o in set(subterms(ret)):
                    out.append((loc[2].rsplit('::', 1)[0], loc[2]))
                elif o[0] != 's' or loc[2] == CONNFD:
                    out.append((loc[2].rsplit('::', 1)[0], loc[2]))
            elif root == ret or ret is not None and (root in set(subterms(ret)) or ret in set(subterms(root))):
                out.append((loc[2].rsplit('::', 1)[0], loc[2]))
            elif root[0] in ('p',) or any(x[0] == 'p' for x in subterms(root)):
                out.append((loc[2].rsplit('::', 1)[0], loc[2]))
        elif loc[0] == 'p':
            out.append('caller')
    return out


# ---------------------------------------------------------------- owners
def owner(ctx, it, cls, field, rels, mine):
    prog = ctx.prog
    fs = [f for f in mine if f.cls == cls]
    this = ('obj', ('this',))
    loc = ('f', this, field)
    d = [f for f in fs if f.kind == 'dtor']
    ctx.ob('owner', len(d) == 1, d[0].where if d else cls, '%s does not release what it holds' % short(cls), sig='none:' + cls)
    if len(d) != 1:
        return
    d = d[0]
    v = ('init', loc)

    def frees(pa):
        return [e for e in pa.events if e.kind == 'call' and e.name in rels and vals(e) and same(vals(e)[0], v)]
    guard = False
    ps = it.run(d)
    ctx.note(d.qn, ps, it)
    isfd = bool(rels & FD)
    for pa in ps:
        facts = last_facts(pa)
        none = it.holds(facts, lt(v, C(0))) if isfd else it.holds(facts, pred_not(truth(v)))
        r = frees(pa)
        if not r and not none and isfd:
            guard = True            # depends on more than the handle: decided with each constructor below
            continue
        ctx.ob('owner', len(r) == 1 or none and not r, d.where, '%s releases what it holds %d times when destroyed' % (short(cls), len(r)), path=pa, sig='dtor:' + cls)
    for c in [f for f in fs if f.kind == 'ctor' and not f.defaulted]:
        ps = it.run(c)
        ctx.note(c.qn, ps, it)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            h = bare(pa.st.cells.get(loc, ('undef',)))
            if c.move:
                src = ('f', ('p', c.qn, c.params[0]['n']), field)
                ok = h == ('init', src) and pa.st.cells.get(src) in (('null',), C(0), C(-1))
                ctx.ob('moved', ok, c.where, 'a moved-from %s still holds what it handed over' % short(cls), path=pa, sig='move:' + cls)
                continue
            if h == ('undef',):
                ctx.ob('owner', guard, c.where, '%s is built without a value in what it releases' % short(cls), path=pa, sig='uninit:' + cls)
                continue
            facts = last_facts(pa)
            got = h[0] == 's' or h[0] == 'init'
            acq = any(e.kind == 'call' and e.name in ACQ and e.res == h for e in pa.events)
            qs = it.run(d, cells=dict(pa.st.cells), iv=dict(pa.st.iv))
            for q in qs:
                n = len([e for e in q.events if e.kind == 'call' and e.name in rels and vals(e) and same(vals(e)[0], h)])
                if acq:
                    ctx.ob('owner', n == 1, d.where, '%s releases what it obtained %d times when destroyed' % (short(cls), n), path=q, sig='life:%s:%s' % (cls, c.where))
                elif guard:
                    ctx.ob('owner', n == 0, d.where, '%s releases what it does not own' % short(cls), path=q, sig='foreign:%s:%s' % (cls, c.where))
    if not isfd:
        rec = prog.rec_by_qn.get(cls, {})
        ms = [m for m in rec.get('methods', ()) if isinstance(m, dict) and not m.get('deleted')]
        cp = [m for m in ms if m.get('copy') or m.get('copyassign') and m.get('defaulted')] or rec.get('icopy') or rec.get('iassign')
        ctx.ob('copy', not cp, d.where, '%s can be copied, so two owners release the same object' % short(cls), sig='copy:' + cls)
        mv = [m for m in ms if (m.get('move') or m.get('moveassign')) and m.get('defaulted')]
        ctx.ob('moved', not mv, d.where, 'a moved-from %s still holds what it handed over' % short(cls), sig='movedef:' + cls)
        for f in [f for f in fs if short(f.qn) == 'operator=']:
            for pa in it.run(f):
                if pa.kind == 'ret':
                    end = bare(pa.st.cells.get(loc, v))
                    kept = end == v or any(bare(x) == v for k, x in pa.st.cells.items() if k != loc)
                    ctx.ob('replace', kept or len(frees(pa)) == 1, f.where, 'what %s held is lost when it is assigned' % short(cls), path=pa, sig='assign:' + cls)
    # other functions that put something new into the field
    for f in fs:
        if f.kind in ('ctor', 'dtor') or short(f.qn) == 'operator=':
            continue
        for pa in it.run(f):
            w = [e for e in pa.events if e.kind == 'write' and e.obj == loc]
            if w:
                facts = w[0].facts or {}
                none = it.holds(facts, pred_not(truth(v)))
                before = [e for e in pa.events[:pa.events.index(w[-1]) + 1] if e.kind == 'call' and e.name in rels and vals(e) and same(vals(e)[0], v)]
                ctx.ob('replace', none or len(frees(pa)) == 1 or pa.kind != 'ret', f.where, 'what %s held is lost when it is replaced' % short(cls), path=pa, sig='field:' + f.qn)
            elif frees(pa):
                ctx.ob('once', False, f.where, '%s releases what it will release again when destroyed' % short(f.qn), path=pa, sig='early:' + f.qn)


# ---------------------------------------------------------------- listening socket
def listening(ctx, it):
    prog = ctx.prog
    loc = ('f', ('obj', ('this',)), LISTEN)
    v = ('init', loc)
    n = closed = 0
    for f in prog.methods_of(NS + 'ConnPool'):
        if f.body is None or f.kind == 'ctor':
            continue
        if not any(isinstance(x, dict) and x.get('n') == 'listen_fd' for x in walk(f.body)):
            continue
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        for pa in ps:
            w = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'write' and e.obj == loc]
            cl = [(i, e) for i, e in enumerate(pa.events) if e.kind == 'call' and e.name in FD and vals(e) and same(vals(e)[0], v)]
            if not w and not cl:
                continue
            n += 1
            facts = last_facts(pa)
            none = it.holds(facts, eq(v, C(-1)))
            if w:
                ok = none and not cl or len(cl) == 1 and cl[0][0] < w[0][0] or pa.kind == 'throw' and w[0][0] > len(pa.events)
                ctx.ob('replace', ok, f.where, 'the previous listening socket is not closed when it is replaced', path=pa, sig='listen:' + f.qn)
                end = bare(pa.st.cells.get(loc, v))
                # everything obtained in between and dropped again
                ctx.ob('listen', True, f.where, '', path=pa)
                closed_end = [e for e in pa.events if e.kind == 'call' and e.name in FD and vals(e) and same(vals(e)[0], end) and end[0] == 's']
                ctx.ob('listen', not closed_end, f.where, 'a closed listening socket is remembered', path=pa, sig='closed:' + f.qn)
            else:
                ctx.ob('listen', False, f.where, 'a closed listening socket is remembered, so it is closed again', path=pa, sig='stale:' + f.qn)
    # stopping closes it
    fs = prog.fns(NS + 'ConnPool::stop')
    ctx.require(len(fs) == 1, 'stop of the network not found')
    it2 = Interp(prog, Config(not_opaque=CRYPTO, split=True, max_states=20000, extra_opaque={NS + 'ConnPool::stop_workers'}))
    for pa in it2.run(fs[0]):
        if pa.kind != 'ret':
            continue
        closed += 1
        facts = last_facts(pa)
        cl = [e for e in pa.events if e.kind == 'call' and e.name in FD and vals(e) and same(vals(e)[0], v)]
        none = it2.holds(facts, eq(v, C(-1))) or it2.holds(facts, lt(v, C(0)))
        ctx.ob('listen', none and not cl or len(cl) == 1, fs[0].where, 'stopping leaves the listening socket open', path=pa, sig='stop')
    ctx.require(n and closed, 'the listening socket is not found')


# ---------------------------------------------------------------- callbacks given to C libraries
def callbacks(ctx, it, mine, refs):
    prog = ctx.prog
    n = 0
    done = set()
    for f in mine:
        names = set()
        for node in walk(f.body):
            if not isinstance(node, dict) or node.get('k') != 'call' or '::' in (node.get('qn') or '::'):
                continue
            if not node['qn'].startswith(('PEM_', 'SSL_', 'd2i_', 'EVP_', 'X509_', 'RSA_')):
                continue
            for a in node.get('args', ()):
                for x in walk(a):
                    if isinstance(x, dict) and x.get('k') in ('fn', 'ref', 'fnref') and x.get('fn') in prog.functions:
                        names.add(x['fn'])
                    elif isinstance(x, dict) and isinstance(x.get('fn'), str) and x['fn'] in prog.functions and x.get('k') != 'call':
                        names.add(x['fn'])
        for nm in names - done:
            done.add(nm)
            g = prog.functions[nm]
            if g.body is None:
                continue
            ps = it.run(g)
            ctx.note(g.qn, ps, it)
            for pa in ps:
                n += 1
                ctx.ob('callback', pa.kind != 'throw', g.where, '%s throws an exception through the C library that calls it' % short(g.qn), path=pa, sig='throws:' + g.qn)
    ctx.require(n, 'no callbacks given to the crypto library')
