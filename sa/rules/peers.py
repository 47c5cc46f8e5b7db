"""The peer record of PeerNetwork: shared views of its handlers and requests."""
from .common import *
from ..system import ERRS
PN = NS + 'PeerNetwork::'
PEER = PN + 'Peer::'
PEERF = PN + 'Conn::peer'
MANUAL = PN + 'Conn::manual'
TC = (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call')
DISC, CONNECTED, RESET = C(0), C(1), C(2)
ERRC = {NS + x + '::(ctor)' for x in ('SalticidaeError', 'ConnPoolError', 'MsgNetworkError', 'PeerNetworkError', 'ClientNetworkError')}
OPAQUE = ERRS | ERRC | {NS + 'PeerId::(ctor)', NS + 'MsgNetwork::send_msg', NS + 'MsgNetwork::_send_msg', PN + 'MsgPing::(ctor)',
                 PN + 'MsgPong::(ctor)', NS + 'ConnPool::disp_terminate', NS + 'ConnPool::Conn::write', PN + 'tcall_reset_timeout',
                 NS + 'ConnPool::_connect'}


def vals(e):
    return (e.x or {}).get('vals', e.args)


def lam_of(e):
    if e.kind != 'call' or e.name not in TC:
        return None
    v = vals(e)[0]
    while v[0] == 'st':
        v = v[1]
    return v if v[0] == 'lam' else None


class Model:
    def __init__(self, ctx, opaque=OPAQUE, it=None):
        self.ctx, self.prog = ctx, ctx.prog
        self.s = ctx.system('PeerNetwork')
        self.it = it or Interp(ctx.prog, Config(resolve=self.s.resolve, extra_opaque=opaque, max_states=20000, split=True))
        self.quiet = False
        rec = ctx.prog.rec_by_qn.get(NS + 'PeerNetwork::Peer')
        ctx.require(rec is not None, 'the peer record is not found')
        for f in ('state', 'conn', 'outbound_conn', 'inbound_conn', 'nonce', 'addr', 'cur_ntry', 'ntry'):
            ctx.require(ctx.prog.field(NS + 'PeerNetwork::Peer', f) is not None, 'no field %s in the peer record' % f)

    def handler(self, msg):
        """(conn value, msg location, paths of the function posted to the dispatcher, where) of the handler of a message type"""
        fs = [f for f in self.prog.methods_of(NS + 'PeerNetwork')
              if len(f.params) == 2 and f.params[0].get('tr') == PN + msg and f.kind not in ('ctor', 'dtor')]
        self.ctx.require(len(fs) == 1, 'no single handler of ' + msg)
        f = fs[0]
        for q in self.it.run(f):
            ls = [lam_of(e) for e in q.events if lam_of(e) is not None and self.s.tcall_role(e.obj) == DISP]
            self.quiet or self.ctx.ob('posted', len(ls) == 1 and q.kind == 'ret', f.where, '%s: the message is handed to the dispatcher %d times' % (msg, len(ls)),
                        path=q, sig=msg + ':posted')
            if ls:
                l = ls[0]
        conn = self.param(f, 1)
        ps = self.it.run_lambda(l)
        self.ctx.note(f.qn, ps, self.it)
        return ('init', conn), self.param(f, 0), ps, '%s:%d' % (rel(l[6]), l[2]), l

    def param(self, f, i):
        return ('p', f.qn, f.params[i]['n'])

    def code(self, name):
        for e in self.prog.enums.values():
            for x in e['e']:
                if x['n'] == 'SALTI_ERROR_' + name:
                    return C(x['v'])
        self.ctx.require(False, 'no error code ' + name)

    def raised(self, pa):
        """codes of the errors thrown on the path"""
        out = []
        made = {}
        for e in pa.events:
            if e.kind == 'call' and e.name in ERRC:
                made['last'] = vals(e)
            elif e.kind == 'throw':
                v = made.pop('last', None)
                out.append(v[0] if v else None)
        return out

    # ------------------------------------------------------------------ facts
    def zero(self, facts, v):
        return v in (C(0), ('null',)) or self.it.holds(facts, pred_not(truth(v)))

    def nonzero(self, facts, v):
        return v[0] == 'c' and v[1] != 0 or self.it.holds(facts, truth(v))

    def same(self, facts, a, b):
        return a == b or self.it.holds(facts, eq(a, b))

    def differ(self, facts, a, b):
        return self.it.holds(facts, pred_not(eq(a, b)))

    def addr_null(self, facts, l):
        return all(self.zero(facts, ('init', ('f', l, NS + 'NetAddr::' + f))) for f in ('ip', 'port'))

    def addr_same(self, facts, a, b):
        return all(self.same(facts, ('init', ('f', a, NS + 'NetAddr::' + f)), ('init', ('f', b, NS + 'NetAddr::' + f))) for f in ('ip', 'port'))

    def cell(self, pa, loc):
        """value of a field at the end of a path"""
        return pa.st.cells.get(loc, ('init', loc))

    # ------------------------------------------------------------------ vocabulary
    def terminates(self, pa, conn=None):
        return [e for e in pa.events if e.kind in ('call', 'vcall') and e.name == NS + 'ConnPool::disp_terminate' and (conn is None or vals(e)[0] == conn)]

    def writes(self, pa, field, obj=None):
        return [(i, e) for i, e in enumerate(pa.events) if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == field and (obj is None or e.obj[1] == obj)]

    def sent(self, pa):
        """handshake and heartbeat messages sent: (index, type, constructor arguments, connection)"""
        made = {}
        out = []
        for i, e in enumerate(pa.events):
            if e.kind == 'call' and e.name in (PN + 'MsgPing::(ctor)', PN + 'MsgPong::(ctor)'):
                made[e.res] = (e.name.split('::')[-2], vals(e))
            if e.kind in ('call', 'vcall') and e.name in (NS + 'MsgNetwork::send_msg', NS + 'MsgNetwork::_send_msg'):
                v = vals(e)
                m = made.get(v[0])
                out.append((i, m[0] if m else None, m[1] if m else None, v[1] if len(v) > 1 else None))
        return out

    def user_posts(self, pa):
        """[(index, event, paths)] of what is posted to the user loop"""
        out = []
        for i, e in enumerate(pa.events):
            l = lam_of(e)
            if l is not None and self.s.tcall_role(e.obj) == USER:
                out.append((i, e, self.it.run_lambda(l)))
        return out

    def invokes(self, ps, field):
        """(most, least when set, argument tuples) of the invocations of a function-valued field per path"""
        res = []
        for q in ps:
            if q.kind == 'backedge':
                continue
            n = [e for e in q.events if e.kind == 'icall' and e.name == field]
            unset = any(len(vp) == 1 and field in repr(vp) and self.it.holds(q.st.iv, pred_not(truth(vp[0][0]))) for vp in q.st.iv)
            res.append((q, n, unset))
        return res

    def looked_up(self, facts, p, table=PN + 'known_peers'):
        """the look-up of which p is the result, known to have succeeded: its key"""
        for x in subterms(p):
            if x[0] == 'ap' and short(x[1]) in ('find', 'at', 'operator[]') and any(y[0] == 'f' and y[2] == table for y in subterms(x)):
                if short(x[1]) == 'at':
                    return x[2][1]
                if short(x[1]) == 'find':
                    m = x[2][0]
                    if self.it.holds(facts, pred_not(eq(x, ('ap', 'end', (m,))))):
                        return x[2][1]
        return None

    def not_found(self, facts):
        for vp, iv in facts.items():
            for x, _ in vp:
                if x[0] == 'ap' and short(x[1]) == 'find' and PN + 'known_peers' in repr(x[2][0]):
                    if self.it.holds(facts, eq(x, ('ap', 'end', (x[2][0],)))):
                        return x
        return None

    def id_of(self, pa, key):
        """what the id `key` was made from: ('cert', conn) or ('addr', location)"""
        for e in pa.events:
            if e.kind == 'call' and e.name == NS + 'PeerId::(ctor)' and e.res == key:
                v = vals(e)
                if len(v) == 1:
                    v = v[0]
                    if v[0] == 'init':
                        l = v[1]
                        if l[0] == 'obj' and l[1][0] == 'init' and l[1][1][0] == 'f' and l[1][1][2] == CONN + 'peer_cert':
                            return ('cert', l[1][1][1])
                        return ('addr', l)
                return ('?', v)
        return ('?', key)

    def by_address(self, facts):
        """identities are known to be address-based: True / known not to be: False / None"""
        tls = ('init', ('f', ('obj', ('this',)), NS + 'ConnPool::enable_tls'))
        mode = ('init', ('f', ('obj', ('this',)), PN + 'id_mode'))
        if self.zero(facts, tls) or self.zero(facts, mode) or self.differ(facts, mode, C(1)):
            return True
        if self.nonzero(facts, tls) and self.nonzero(facts, mode):
            return False
        return None
