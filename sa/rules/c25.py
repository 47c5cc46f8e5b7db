"""The C interface: every function does what the C++ operation it names does."""
from .peers import *
from .c21 import Loops, whole
from ..program import walk
TITLE = 'The C interface does what the C++ operation it names does'
RULES = {
    'operation': 'a C function performs the operation it names, once, on the object it is given, and nothing else',
    'arguments': 'the arguments are passed on once each and in order, and moved from only where the name says so',
    'result': 'the result of the operation is returned: its value, a new object made of it, or the object asked for',
    'error': 'the error argument tells success, the error raised by the library, or an unknown one, and a failure returns null or false',
    'contained': 'no exception leaves a function that can report a failure',
    'callback': 'a callback is called once for each event, with its arguments in order and the user data it was registered with',
    'free': 'a function that frees deletes what it is given, once',
    'strings': 'every error code has its own description, and any other number a safe one',
}
EXPLAIN = ('Every extern "C" function of the library on all abstract paths, with the C++ interface opaque, so that the calls made, their arguments and results are '
           'compared with what the name and signature of the function say; an exception edge is added at each call that reaches a throw.')
ASSUME = ['the names of the C++ operations say what they do (their behaviour is decided by the other properties)', 'memory allocation does not fail']
PREFIX = ('msgnetwork_config_', 'msgnetwork_conn_', 'msgnetwork_', 'peernetwork_config_', 'peernetwork_conn_', 'peernetwork_', 'clientnetwork_conn_', 'clientnetwork_',
          'peerid_array_', 'peerid_', 'netaddr_array_', 'netaddr_', 'uint256_', 'datastream_', 'bytearray_', 'x509_', 'pkey_', 'eventcontext_', 'threadcall_', 'sigev_',
          'timerev_', 'mpscqueue_', 'msg_')
ALIAS = {'msgnetwork_reg_handler': ('set_handler', 'reg_handler'), 'msg_consume_payload': ('get_payload',)}
OF = {'peernetwork_conn_peer': ('peernetwork_', 'conn_peer')}       # (not an operation of a connection)
WORDS = {'ACCEPT': 'accept', 'LISTEN': 'listen', 'CONNECT': 'connect', 'PEER': 'peer', 'ALREADY': 'already', 'CLIENT': 'client', 'NETADDR': 'addr', 'OPTVAL': 'val', 'OPTNAME': 'name',
         'ACTION': 'action', 'LONG': 'long', 'CERT': 'cert', 'KEY': 'key', 'TLS_LOAD': 'load', 'X509': 'x509', 'FD': 'fd', 'INIT': 'init', 'START': 'start', 'RAND': 'rand',
         'CONN_NOT_READY': 'connection', 'AVAIL': 'avail', 'UNKNOWN': 'unknown', 'OVERSIZED': 'oversized', 'GENERIC': 'generic'}
LIBERR = NS + 'SalticidaeError'
QUIET = {NS + 'Logger'}


def bare(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


class Raising:
    """functions that reach a throw (not looking into functions that are only handed on)"""

    def __init__(self, prog):
        self.prog, self.cache = prog, {}

    def nodes(self, n, run=False):
        if isinstance(n, dict):
            if n.get('k') == 'lambda' and not run:
                return
            if n.get('qn') == NS + 'ThreadCall::call':
                yield n
                for v in n.values():        # (the caller waits for the task and gets its exception)
                    yield from self.nodes(v, True)
                return
            yield n
            for v in n.values():
                yield from self.nodes(v, run and n.get('k') != 'lambda')
        elif isinstance(n, list):
            for v in n:
                yield from self.nodes(v, run)

    def fn(self, fid):
        f = self.prog.functions.get(fid)
        if f is None or f.body is None:
            return False
        if fid not in self.cache:
            self.cache[fid] = False
            self.cache[fid] = any(n.get('k') == 'throw' or n.get('fn') and n['fn'] != fid and self.fn(n['fn'])
                                  for b in [f.body] + list(f.inits or ()) for n in self.nodes(b))
        return self.cache[fid]

    def __call__(self, e):
        if e.kind != 'call' or not isinstance(e.node, dict):
            return ()
        fid = e.node.get('fn') or (e.node.get('f') or {}).get('fn') if isinstance(e.node.get('f'), dict) else e.node.get('fn')
        return (LIBERR, 'std::runtime_error') if fid and self.fn(fid) else ()


def op_of(f):
    if f.qn in OF:
        return OF[f.qn]
    for p in PREFIX:
        if f.qn.startswith(p):
            return p, f.qn[len(p):]
    return None, None


def check(ctx):
    prog = ctx.prog
    fs = [f for f in prog.functions.values() if f.externc and f.body is not None and rel(f.file).startswith('src/')]
    ctx.require(len(fs) >= 100, 'functions of the C interface not found')
    th = Raising(prog)
    classes = {r for r in prog.rec_by_qn if r.startswith(NS)}
    it = Interp(prog, Config(opaque_classes=classes, max_states=20000, may_throw=th, extra_opaque=(NS + 'from_hex',)))
    n = 0
    for f in sorted(fs, key=lambda f: f.qn):
        pre, op = op_of(f)
        if pre is None:
            continue
        n += 1
        Wrapper(ctx, it, f, pre, op).check()
    ctx.require(n >= 100, 'functions of the C interface not recognised')
    strings(ctx, prog)
    helpers(ctx, prog)
    for r in RULES:
        ctx.need(r)


class Wrapper:
    def __init__(self, ctx, it, f, pre, op):
        self.ctx, self.it, self.f, self.pre, self.op = ctx, it, f, pre, op
        self.names = [p['n'] for p in f.params]
        self.types = {p['n']: p['t'] for p in f.params}
        self.err = [p for p in self.names if 'SalticidaeCError' in self.types[p] and '(*)' not in self.types[p]]
        self.cbs = [p for p in self.names if '(*)' in self.types[p]]
        k = self.names.index(self.cbs[0]) if self.cbs else None
        self.user = [self.names[k + 1]] if k is not None and k + 1 < len(self.names) else []
        self.succ = [p for p in self.names if self.types[p].replace(' ', '') == 'bool*']
        self.data = [p for p in self.names if p not in self.err + self.cbs + self.user + self.succ]

    def ob(self, rule, ok, where, text, pa=None, sig=''):
        self.ctx.ob(rule, ok, where, '%s %s' % (self.f.qn, text), path=pa, sig=self.f.qn + ':' + sig)

    # ------------------------------------------------------------ values
    def params(self, v, seen=()):
        """parameters a value is made of, in order, through the results of calls"""
        out = []
        if not isinstance(v, tuple) or not v:
            return out
        if v in self.made and v not in seen:
            for x in self.made[v]:
                out += self.params(x, seen + (v,))
            return out
        if v[0] == 'p' and len(v) > 2 and v[1] == self.f.qn:
            return [v[2]]
        if v[0] == 'lam':
            return []
        for x in v if isinstance(v[0], tuple) else v[1:]:
            if isinstance(x, tuple):
                out += self.params(x, seen)
        return out

    def remember(self, evs):
        """what the results and objects of a path are made of"""
        self.made = {}
        for e in evs:
            if e.kind == 'call' and e.res is not None:
                a = vals(e) if e.kind == 'call' else ()
                self.made[e.res] = ((e.obj,) if e.obj and not short(e.name) == '(ctor)' else ()) + tuple(x for x in a if isinstance(x, tuple))
            if e.obj and e.obj[0] == 'obj' and (e.kind == 'write' or e.kind == 'call' and short(e.name) == '(ctor)'):
                self.made[e.obj[1]] = tuple(x for x in vals(e) if isinstance(x, tuple))

    def relevant(self, e):
        if e.kind == 'delete':
            return True
        if e.kind != 'call' or not e.name:
            return e.kind in ('icall', 'vcall')
        if e.name.rsplit('::', 1)[0] in QUIET or e.name.startswith('salticidae_cerror') or short(e.name) == 'get_cerr':
            return False
        return e.name.startswith(NS)

    def check(self):
        f, it = self.f, self.it
        ps = it.run(f)
        self.ctx.note(f.qn, ps, it)
        good = 0
        for pa in ps:
            self.remember(pa.events)
            if pa.kind == 'throw':
                can = self.err or self.succ or f.ret.endswith('*') or any(x.get('k') == 'try' for x in walk(f.body) if isinstance(x, dict))
                self.ob('contained', not can, f.where, 'lets an exception out', pa, 'out')
                continue
            caught = any(e.kind == 'catch' for e in pa.events)
            if caught:
                self.failed(pa)
                continue
            if pa.kind != 'ret':
                continue
            good += 1
            self.success(pa)
        if self.op not in ('free',):
            self.ctx.require(good > 0, 'no successful path of ' + f.qn)
        if not any(p.kind == 'throw' for p in ps) and (self.err or f.ret.endswith('*')):
            self.ob('contained', True, f.where, '', None, 'out')

    # ------------------------------------------------------------ failure
    def failed(self, pa):
        f = self.f
        i = max(i for i, e in enumerate(pa.events) if e.kind == 'catch')
        if self.err:
            code = self.errvalue(pa)
            thrown = str(pa.events[i].name or '') + str(pa.events[i].args) + str(pa.events[i].x)
            lib = 'SalticidaeError' in thrown
            self.ob('error', code == ('lib' if lib else 'unknown'), pa.events[i].where, 'reports %s for %s' % (code, 'an error of the library' if lib else 'another error'), pa, 'code')
        for s in self.succ:
            v = self.final(pa, s)
            self.ob('error', v == C(0), f.where, 'reports success for a failure', pa, 'succ')
        if f.ret.endswith('*'):
            self.ob('error', bare(pa.ret) in (('null',), C(0)), f.where, 'returns an object though it failed', pa, 'null')
        elif f.ret in ('bool', '_Bool') and not self.succ:
            self.ob('error', bare(pa.ret) == C(0), f.where, 'returns success though it failed', pa, 'false')

    def final(self, pa, p):
        loc = ('obj', ('init', ('p', self.f.qn, p)))
        for e in reversed(pa.events):
            if e.kind == 'write' and e.obj == loc and e.args:
                return bare(e.args[0])
        return bare(pa.st.cells.get(loc)) if loc in pa.st.cells else None

    def errvalue(self, pa):
        """what the error argument says at the end of the path"""
        last = None
        for e in pa.events:
            if e.kind == 'write' and e.obj and e.obj[0] == 'f' and short(e.obj[2]) == 'code' and self.params(e.obj) == self.err:
                last = e.args[0]
        if last is None:
            return 'nothing'
        for e in pa.events:
            if e.kind == 'call' and e.res is not None and any(x == e.res for x in subterms(last)):
                if e.name == 'salticidae_cerror_normal':
                    return 'success'
                if e.name == 'salticidae_cerror_unknown':
                    return 'unknown'
                if short(e.name) == 'get_cerr':
                    return 'lib'
        for x in subterms(last):
            if 'get_cerr' in str(x[:2]):
                return 'lib'
        return 'another value'

    # ------------------------------------------------------------ success
    def success(self, pa):
        f, op = self.f, self.op
        evs = pa.events
        if self.err:
            self.ob('error', self.errvalue(pa) == 'success', f.where, 'reports %s for success' % self.errvalue(pa), pa, 'ok')
        for s in self.succ:
            self.ob('error', self.final(pa, s) not in (C(0), None), f.where, 'does not report its success', pa, 'succ')
        rel_ = [e for e in evs if self.relevant(e)]
        if op == 'free':
            d = [e for e in rel_ if e.kind == 'delete']
            self.ob('free', len(d) == 1 and len(rel_) == 1 and self.params(vals(d[0])[0]) == self.names, f.where, 'does not delete exactly what it is given', pa, 'free')
            return
        self.ob('free', not any(e.kind == 'delete' for e in rel_), f.where, 'deletes an object', pa, 'keep')
        if self.pre == 'bytearray_' and op in ('data', 'size'):
            v = bare(pa.ret)
            self.ob('result', v is not None and self.params(v) == self.names and not rel_ and (op == 'size' and v[0] == 'ap' and short(v[1]) == 'size' or
                    op == 'data' and (v[0] == 'ap' and short(v[1]) == 'data' or v[0] == 'addr' and not any(x[0] == 'c' and x != C(0) for x in subterms(v)))),
                    f.where, 'does not return the %s of its array' % op, pa, 'bytes')
            return
        if op == 'get_hex':
            self.hexstring(pa, rel_)
            return
        ops = [e for e in rel_ if not self.conversion(e)]
        if '_as_' in '_' + op and not ops:
            self.ob('result', self.params(pa.ret) == self.names[:1] and bare(pa.ret)[0] in ('init', 'p'), f.where, 'does not return the object it is given', pa, 'as')
            return
        if self.pre in ('peerid_array_', 'netaddr_array_') and op.startswith('new_from'):
            self.array(pa)
            return
        want = self.members()
        if op == 'new' or op.startswith('new_') or op == 'copy':
            self.maker(pa, ops, rel_)
            return
        if want is None:
            # a plain accessor of a field
            v = bare(pa.ret) if pa.ret else None
            fn_ = op[4:] if op.startswith('get_') else op
            self.ob('result', v is not None and v[0] == 'init' and v[1][0] == 'f' and short(v[1][2]) == fn_ and self.params(v) == self.data[:1], f.where, 'does not return the %s' % fn_, pa, 'field')
            return
        self.ob('operation', len(ops) == 1 and short(ops[0].name) in want and self.params(ops[0].obj) == self.data[:1], ops[0].where if ops else f.where,
                'does %s instead of %s' % ([short(e.name) for e in ops] or 'nothing', '/'.join(sorted(want))), pa, 'op')
        if len(ops) != 1:
            return
        self.args(pa, ops[0], self.data[1:])
        if f.ret != 'void':
            self.result(pa, ops[0])

    def members(self):
        """names of the operation, by the name of the function"""
        f, op = self.f, self.op
        if f.qn in ALIAS:
            return set(ALIAS[f.qn])
        if op == 'is_eq':
            return {'operator=='}
        if self.pre == 'datastream_' and op[:4] in ('put_', 'get_') and op[4:] in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
            return {'operator<<' if op[0] == 'p' else 'operator>>'}
        for s in ('_by_move', '_unsafe'):
            if op.endswith(s):
                op = op[:-len(s)]
        if self.pre == 'netaddr_' and op in ('get_ip', 'get_port'):
            return None
        return {op, '_' + op}

    def conversion(self, e):
        """a construction of an object that is an argument or the result"""
        if e.kind != 'call':
            return False
        s = short(e.name)
        return s == '(ctor)' or s.startswith('operator ') or s == 'operator=' or 'allocator' in e.name and s.startswith('allocator') or s in ('static_pointer_cast', 'get_cerr')

    def is_moved(self, v):
        return False

    def args(self, pa, e, want):
        f = self.f
        got = []
        a = [x for x in vals(e) if isinstance(x, tuple)]
        for x in a:
            p = self.params(x)
            if lam(x):
                self.callback(pa, lam(x), e)
                continue
            got.append(p)
        if self.cbs:
            self.ob('callback', any(lam(x) for x in a), e.where, 'does not register a callback', pa, 'registered')
        flat = [p for g in got for p in g]
        if short(e.name) == 'operator>>':
            self.ob('arguments', flat == [], e.where, 'reads with unrelated arguments', pa, 'args')
            return
        self.ob('arguments', plain(flat) == want and all(self.forwarded(x) for x in a if not lam(x)), e.where, 'passes on (%s) for (%s)' % (', '.join(flat), ', '.join(want)), pa, 'args')
        self.moves(pa, want, e.where)

    def forwarded(self, v):
        """the parameter itself, what it points to, a conversion of it, or the end of a buffer it starts"""
        v = bare(v)
        if v in self.made:
            return all(self.forwarded(x) for x in self.made[v])
        if v[0] in ('init', 'addr', 'p', 'obj', 'rv', 'loc', 'f', 'ap', 's', 'null', 'str', 'cast'):
            if v[0] == 'ap' and short(v[1]) in ('+', '-', '*', '/', '%', '&', '|', '^', 'neg', 'not', '!', '~'):
                return False
            return True
        if v[0] == 'in':
            return len(v[1]) == 1 and v[1][0][1] == 1 and pred_true(v) and self.forwarded(v[1][0][0])
        if v[0] == 'lin':
            d, c = as_lin(v)
            return c == 0 and all(k == 1 for k in d.values()) if isinstance(d, dict) else c == 0 and all(k == 1 for _, k in d)
        if v[0] in ('pa', 'ptr', 'padd', 'off', 'i'):
            return True
        return v[0] not in ('c',)

    def result(self, pa, e):
        f = self.f
        r = bare(pa.ret) if pa.ret else None
        if short(e.name) == 'operator>>':
            # the value read into a local of the type returned
            self.ob('result', r is not None and any(x[0] == 's' for x in subterms(r)), f.where, 'does not return what it read', pa, 'ret')
            t = self.streamed(e)
            self.ob('result', t is None or t == f.ret, e.where, 'reads a value of type %s for one of type %s' % (t, f.ret), pa, 'type')
            return
        if short(e.name) == 'operator<<':
            self.ob('result', r == C(1), f.where, 'does not report its success', pa, 'ret')
            t, w = self.streamed(e), self.types[self.names[1]]
            self.ob('arguments', t is None or t == w, e.where, 'writes a value of type %s for one of type %s' % (t, w), pa, 'type')
            return
        direct = r is not None and any(x == bare(e.res) for x in subterms(r)) and not any(x[0] in ('in', 'lin') and not pred_true(x) for x in subterms(r))
        cell = pa.st.cells.get(('obj', r)) if r is not None else None
        direct = direct or cell is not None and any(x == bare(e.res) for x in subterms(cell))
        if r in (C(0), C(1)) and f.ret == 'bool' and e.res is not None:
            yes = truth(bare(e.res))
            direct = direct or self.it.holds(pa.st.iv, yes if r == C(1) else pred_not(yes))
        made = r is not None and r in self.made and any(y == bare(e.res) for x in self.made[r] for y in subterms(x))
        const = f.ret == 'bool' and r == C(1) and e.res is not None and self.void(e)
        self.ob('result', direct or made or const, f.where, 'does not return the result of the operation', pa, 'ret')
        if f.ret.endswith('*') and made:
            self.ob('result', True, f.where, '', pa, 'new')

    def streamed(self, e):
        g = self.ctx.prog.functions.get((e.node or {}).get('fn')) if isinstance(e.node, dict) else None
        if g is None or len(g.params) != 1:
            return None
        return g.params[0]['t'].replace('const ', '').replace('&', '').strip()

    def moves(self, pa, want, where):
        """what is moved from is what the name says"""
        mv = moved_types(self.ctx.prog, self.f)
        for p in want:
            t = self.types[p]
            if not t.endswith('*') or t.endswith('**'):
                continue
            says = not t.startswith('const ') and ('_moved' in p or 'moved' in self.f.qn or 'by_move' in self.f.qn)
            does = t[:-1].replace('const ', '').strip() in mv
            self.ob('arguments', says == does, where, 'moves from %s' % p if does else 'copies %s though it is to be moved' % p, pa, 'moved')

    def void(self, e):
        g = self.ctx.prog.functions.get((e.node or {}).get('fn')) if isinstance(e.node, dict) else None
        return g is None or g.ret == 'void'

    def maker(self, pa, ops, rel_):
        """a function that makes an object of its arguments"""
        f = self.f
        r = bare(pa.ret) if pa.ret else None
        news = [e for e in pa.events if e.kind == 'new']
        self.ob('result', r is not None and len(news) == 1 and bare(news[0].res) == r, f.where, 'does not return the new object', pa, 'new')
        if len(news) != 1:
            return
        want = self.data
        base = bare(news[0].res)
        src = []
        for e in pa.events:
            if e.obj == ('obj', base) and (e.kind == 'call' and short(e.name) == '(ctor)'):
                src = [x for x in vals(e) if isinstance(x, tuple)]
        if not src and base in self.made:
            src = list(self.made[base])
        if not src:
            src = [v for k, v in pa.st.cells.items() if k == ('obj', base) or k[0] == 'f' and k[1] == ('obj', base)][:1]
            x = news[0].x or {}
        lams = [lam(x) for x in src if lam(x)]
        for l in lams:
            self.callback(pa, l, news[0])
        if self.cbs:
            self.ob('callback', len(lams) == 1, f.where, 'does not register a callback', pa, 'registered')
        flat = [p for x in src if not lam(x) for p in self.params(x)]
        names_ = {short(e.name) for e in ops}
        op = self.op
        create = 'create_' + op[4:] if op.startswith('new_') else None
        ok = {create, 'create_' + op[8:] if op.startswith('new_privkey') else create, 'from_hex', 'get_hash'}
        if ops:
            self.ob('operation', len(ops) == 1 and (short(ops[0].name) in ok or short(ops[0].name) == 'operator bytearray' or self.pre == 'bytearray_'), ops[0].where,
                    'makes the object by %s' % ', '.join(sorted(names_)), pa, 'op')
        opt = [p for p in want if p == 'passwd']
        need = [p for p in want if p not in opt]
        got = [p for p in plain(flat) if p not in opt]
        known = bool(src) or not want
        self.ob('arguments', got == need or not known and not ops, f.where, 'makes the object of (%s) instead of (%s)' % (', '.join(flat), ', '.join(want)), pa, 'args')
        self.moves(pa, want, f.where)
        self.ob('arguments', all(self.forwarded(x) for i, x in enumerate(src) if not lam(x) and (x[0] != 'c' or i < len(want))), f.where, 'makes the object of changed arguments', pa, 'plain')
        for p in opt:
            if self.it.holds(last_facts(pa), truth(('init', ('p', f.qn, p)))):
                given = [x for e in ops for x in list(vals(e)) + list(((e.x or {}).get('behind') or {}).values()) if isinstance(x, tuple)]
                self.ob('arguments', any(p in self.params(x) for x in given), f.where, 'ignores the %s' % p, pa, 'passwd')

    def array(self, pa):
        """each element of the array given goes to its own place, once"""
        f, it = self.f, self.it
        cnt = ('init', ('p', f.qn, self.names[1]))
        rs = [e for e in pa.events if e.kind == 'call' and short(e.name) == 'resize']
        for e in rs:
            self.ob('arguments', vals(e)[0] == cnt, e.where, 'makes an array of another size', pa, 'size')

        def source(e):
            for x in vals(e):
                for y in subterms(x) if isinstance(x, tuple) else ():
                    if y[0] == 'i' and names_p(y[1], self.names[0]):
                        return y[2]
            return None

        def action(e):
            return source(e) if e.kind in ('call', 'insert') and e.obj else None
        L = Loops(it, it.run(f))
        cov = L.cover(pa, action, cnt)
        self.ob('operation', len(cov) == 1 and whole(cov), f.where, 'does not copy each of its elements once', pa, 'elem')
        for c in cov:
            if c[1] == 'bad':
                continue
            for b, p, _ in L.bodies(c[-1]) if c[-1].kind == 'loop' else ():
                for e in b:
                    k = action(e)
                    if k is None:
                        continue
                    push = e.kind == 'insert' or short(e.name) in ('push_back', 'emplace_back')
                    ok = not rs and lin_add(c[-1].x['entry'].get(self.hkey(k), C(1)), C(0), 1) == C(0) if push else any(y[0] == 'i' and y[2] == k for y in subterms(e.obj))
                    self.ob('arguments', ok, e.where, 'copies elements to other places', p, 'same')

    def hkey(self, k):
        return next((y[2] for y in subterms(k) if y[0] == 'h'), None)

    def hexstring(self, pa, rel_):
        f = self.f
        ops = [e for e in rel_ if not self.conversion(e)]
        self.ob('operation', len(ops) == 1 and short(ops[0].name) == 'get_hex' and self.params(ops[0].obj) == self.names[:1], f.where, 'does not convert its stream', pa, 'op')
        if len(ops) != 1:
            return
        hx, r = bare(ops[0].res), bare(pa.ret)
        of = lambda v, n: v[0] == 'ap' and short(v[1]) in n and bare(v[2][0]) == hx
        ln = lambda v: of(v, ('size', 'length'))
        m = [e for e in pa.events if e.kind == 'call' and e.res is not None and bare(e.res) == r]
        c = [e for e in pa.events if e.kind == 'call' and short(e.name) in ('memmove', 'memcpy') and vals(e) and bare(vals(e)[0]) == r]
        if len(m) != 1 or short(m[0].name) != 'malloc' or not c:
            return
        size = lin_add(vals(m[0])[0], C(1), -1)
        self.ob('result', ln(size), m[0].where, 'allocates another size than the string and its end', pa, 'size')
        self.ob('result', len(c) == 1 and of(bare(vals(c[0])[1]), ('c_str', 'data')) and (ln(vals(c[0])[2]) or ln(lin_add(vals(c[0])[2], C(1), -1)) and short(bare(vals(c[0])[1])[1]) == 'c_str'),
                c[0].where, 'does not copy the string', pa, 'copy')
        z = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'i' and e.args and bare(e.args[0]) == C(0) and ln(e.obj[2]) and any(y == r for y in subterms(e.obj[1]))]
        self.ob('result', bool(z) or len(c) == 1 and not ln(vals(c[0])[2]), f.where, 'does not end the string', pa, 'end')

    # ------------------------------------------------------------ callbacks
    def callback(self, pa, l, at):
        it = self.it
        cb, ud = self.cbs[:1], self.user[:1]
        if not cb:
            return
        qs = self.it.run_lambda(l)
        self.ctx.note(self.f.qn + ' (callback)', qs, it)
        for q in qs:
            if q.kind == 'throw':
                continue
            cs = [e for e in q.events if e.kind == 'icall']
            mine = [e for e in cs if (e.x or {}).get('callee') is not None and names_p(e.x['callee'], cb[0])]
            self.ob('callback', len(cs) == 1 and mine == cs, at.where, 'calls back %d times' % len(mine), q, 'times')
            for e in cs[:1]:
                a = [x for x in vals(e)]
                self.ob('callback', bool(a) and names_p(a[-1], ud[0]) if ud else True, e.where, 'calls back without the user data', q, 'user')
                self.order(q, e, l, a[:-1])
                if q.ret is not None and bare(q.ret) not in (None, ('void',)):
                    self.ob('callback', any(x == e.res for x in subterms(q.ret)), e.where, 'does not return what the callback returned', q, 'ret')
            self.reported(q, cs, at)

    def order(self, q, e, l, a):
        """the arguments given to the callback are those of the event, in order"""
        pos = []
        for x in a:
            ps = self.trace(q, x)
            if ps:
                pos.append(ps[0])
        n = len(pos)
        self.ob('callback', len(set(pos)) == n, e.where, 'calls back with an argument twice', q, 'args')
        names_ = [p['n'] for p in self.it.lams[l[3]]['params']]
        idx = [names_.index(t[2]) for t in pos if t[2] in names_]
        self.ob('callback', idx == sorted(idx), e.where, 'calls back with its arguments in another order', q, 'order')
        err = [p['n'] for p in self.it.lams[l[3]]['params'] if 'exception_ptr' in p['t']]      # (see 'reported')
        self.ob('callback', len(a) == len(names_) and n + len(err) >= len(a), e.where, 'calls back with %d of its %d arguments' % (n, len(names_)), q, 'all')

    def trace(self, q, x, deep=0):
        """parameters of the callback's wrapper a value is made of"""
        ps = [t for t in subterms(x) if t[0] == 'p'] if isinstance(x, tuple) else []
        if ps or deep > 3 or not isinstance(x, tuple):
            return ps
        for y in subterms(x):
            if y[0] in ('v', 't'):
                ps += self.trace(q, bare(self.it.read(q.st, y)), deep + 1)
        for e in q.events:
            if e.kind == 'call' and e.res is not None and any(y == e.res for y in subterms(x)):
                for z in (e.obj,) + tuple(vals(e)):
                    ps += self.trace(q, z, deep + 1)
        return ps

    def reported(self, q, cs, at):
        """an exception handed to an error callback becomes the error it is"""
        k = [e for e in q.events if e.kind == 'catch']
        rt = [e for e in q.events if e.kind == 'call' and e.name == 'std::rethrow_exception']
        if not k or not cs:
            return
        self.ob('callback', len(rt) <= 1, at.where, 'does not look at the error it is given', q, 'rethrow')
        want = 'get_cerr' if 'SalticidaeError' in str(k[-1].name) else 'salticidae_cerror_unknown'
        got = [short(e.name) for e in q.events if e.kind == 'call' and (short(e.name) == 'get_cerr' or 'salticidae_cerror' in e.name)]
        self.ob('callback', got[-1:] == [want], at.where, 'reports %s for %s' % (got, k[-1].name), q, 'error')
        res = [e.res for e in q.events if e.kind == 'call' and short(e.name) == want]
        v = bare(vals(cs[0])[0])
        c = self.it.read(q.st, ('f', v[1], 'SalticidaeCError::code')) if v[0] == 'addr' else None
        self.ob('callback', c is not None and res and any(x == res[-1] for x in subterms(c)), at.where, 'does not hand on the error', q, 'given')


def pred_true(v):
    """whether a truth value is the value itself (not its negation, nor another function of it)"""
    if v[0] == 'in':
        return v[1:] == truth(v[1][0][0])[1:] if len(v[1]) == 1 else False
    d, c = as_lin(v)
    return c == 0 and all(k == 1 for k in (d.values() if isinstance(d, dict) else [k for _, k in d]))


def plain(flat):
    """a parameter used twice in a row (a buffer and its end) counts once"""
    out = []
    for p in flat:
        if p not in out:
            out.append(p)
    return out


def lam(v):
    v = bare(v)
    return v if v and v[0] == 'lam' else None


def names_p(v, p):
    return isinstance(v, tuple) and any(x[0] == 'p' and len(x) > 2 and x[2] == p for x in subterms(v))


def moved_types(prog, f):
    """types of the objects moved from by a function and the plain functions it is written with"""
    out, todo, seen = set(), [f], set()
    while todo:
        g = todo.pop()
        if g.fn in seen:
            continue
        seen.add(g.fn)
        for n in walk(g.body):
            if not isinstance(n, dict) or n.get('k') != 'call':
                continue
            if n.get('qn') in ('std::move', 'std::forward') and str(n.get('rt')).endswith('&&'):
                out.add(n['rt'][:-2].strip())
            h = prog.functions.get(n.get('fn'))
            if h is not None and h.body is not None and not h.cls and not h.qn.startswith('std::'):
                todo.append(h)
    return out


def strings(ctx, prog):
    """one description for each code, in the order of the codes"""
    en = prog.enums.get(NS + 'SalticidaeErrorCode')
    ctx.require(en, 'error codes not found')
    codes = {c['v']: c['n'] for c in en['e']}
    fs = prog.fns(NS + 'salticidae_strerror') or prog.fns('salticidae_strerror')
    ctx.require(len(fs) == 1 and fs[0].body is not None, 'salticidae_strerror not found')
    f = fs[0]
    it = Interp(prog, Config())
    code = ('init', ('p', f.qn, f.params[0]['n']))
    tables = {}
    ps = it.run(f)
    ctx.note(f.qn, ps, it)
    for pa in ps:
        if pa.kind != 'ret':
            ctx.ob('strings', False, f.where, 'the description of an error code is not always returned', path=pa, sig='kind')
            continue
        r = bare(pa.ret)
        if r[0] == 'str':
            continue
        ok = r[0] == 'init' and r[1][0] == 'i' and r[1][2] == code and r[1][1][0] == 'g'
        ctx.ob('strings', ok, f.where, 'the description returned is not that of the error code', path=pa, sig='which')
        if not ok:
            continue
        t = r[1][1][1]
        n = tables.setdefault(t, table(prog, t))
        ctx.require(n is not None, 'table of error descriptions not found')
        ctx.ob('strings', it.holds(pa.st.iv, le(C(0), code)) and it.holds(pa.st.iv, lt(code, C(len(n)))), f.where, 'reads past the table of %d descriptions' % len(n), path=pa, sig='bounds')
    for c in codes:
        for pa in it.run(f, args=[C(c)]):
            r = bare(pa.ret) if pa.ret else None
            ctx.ob('strings', r is not None and r[0] == 'init' and r[1][0] == 'i' and r[1][2] == C(c), f.where, 'the description returned for %s is not its own' % codes[c], path=pa, sig='own:%s' % codes[c])
    g = [k for k in prog.gvars if k.endswith('ERROR_STRINGS')]
    for t in set(tables) | set(g):
        n = table(prog, t)
        if n is None:
            continue
        where = rel(prog.gvars[t]['file'])
        ctx.ob('strings', set(codes) == set(range(len(n))), where, '%d descriptions for %d error codes' % (len(n), len(codes)), sig='count')
        bad = sorted(x for x in set(n) if n.count(x) > 1)
        ctx.ob('strings', not bad, where, 'two error codes have the description "%s"' % (bad or [''])[0], sig='twice')
        for c, nm in codes.items():
            d = n[c].lower() if c < len(n) else ''
            w = [v for k, v in WORDS.items() if k in nm.split('_') or '_' in k and k in nm]
            ctx.ob('strings', c == 0 or d and (not w or any(v in d for v in w)), where, 'the description of %s is "%s"' % (nm, d), sig='text:' + nm)


def table(prog, t):
    v = (prog.gvars.get(t) or {}).get('init')
    if not v or 'a' not in v:
        return None
    out = []
    for x in v['a']:
        s_ = [y['v'] for y in walk(x) if isinstance(y, dict) and y.get('k') == 'str']
        out.append(s_[0] if s_ else '')
    return out


def helpers(ctx, prog):
    """what the error argument is set to"""
    it = Interp(prog, Config())
    en = {c['n']: c['v'] for c in prog.enums[NS + 'SalticidaeErrorCode']['e']}

    def rets(f):
        for pa in it.run(f):
            if pa.kind == 'ret':
                v = pa.ret
                yield pa, [it.read(pa.st, ('f', v[1], 'SalticidaeCError::' + k)) if v and v[0] in ('rv', 'loc') else None for k in ('code', 'oscode')]
    for nm, c in (('normal', 'SALTI_NORMAL'), ('unknown', 'SALTI_ERROR_UNKNOWN')):
        fs = prog.fns(NS + 'salticidae_cerror_' + nm) or prog.fns('salticidae_cerror_' + nm)
        ctx.require(len(fs) == 1, 'salticidae_cerror_%s not found' % nm)
        for pa, v in rets(fs[0]):
            ctx.ob('error', v == [C(en[c]), C(0)], fs[0].where, 'the %s error is not %s' % (nm, c), path=pa, sig='helper:' + nm)
    f = prog.one(LIBERR + '::get_cerr')
    for pa, v in rets(f):
        ctx.ob('error', all(x and x[0] == 'init' and x[1][0] == 'f' and short(x[1][2]) == k for x, k in zip(v, ('code', 'oscode'))), f.where, 'the error reported is not the one raised', path=pa, sig='helper:get_cerr')
    n = 0
    for f in prog.fns(LIBERR + '::(ctor)'):
        if [p['t'] for p in f.params] != ['int', 'int'] or f.body is None:
            continue
        n += 1
        it2 = Interp(prog, Config())
        for pa in it2.run(f):
            if pa.kind != 'ret':
                continue
            for k, p in zip(('code', 'oscode'), f.params):
                loc = ('f', ('obj', ('this',)), LIBERR + '::' + k)
                ctx.ob('error', it2.read(pa.st, loc) == ('init', ('p', f.qn, p['n'])), f.where, 'an error does not keep its %s' % k, path=pa, sig='ctor:' + k)
    ctx.require(n > 0, 'constructor of SalticidaeError not found')
