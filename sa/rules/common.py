"""Vocabulary shared by the rule modules."""
from ..interp import (Interp, Config, truth, subterms, show, show_loc, as_lin, from_lin, lin_add, pred_le, pred_eq, pred_not,
                      field_of, has_prefix)
from ..program import AnalysisBroken, rel, walk
from ..system import NS, USER, DISP, WORKER, INIT, STOP, field_chain

ERR = NS + 'SalticidaeError::(ctor)'
CONN = NS + 'ConnPool::Conn::'
EAGAIN = 11


def le(a, b, k=0):
    """a + k <= b"""
    d, c = as_lin(lin_add(a, b, -1))
    return pred_le(d, c + k)


def lt(a, b):
    return le(a, b, 1)


def eq(a, b):
    d, c = as_lin(lin_add(a, b, -1))
    return pred_eq(d, c)


def C(n):
    return ('c', n)


def short(qn):
    return qn.rsplit('::', 1)[-1]


def ap(t, name):
    """arguments of an application of a method called `name`, or None"""
    if t and t[0] == 'ap' and short(t[1]) == name:
        return t[2]
    return None


def last_facts(pa):
    return pa.st.iv


def fld(e):
    """field written/called upon, unqualified"""
    return field_of(e.obj) if e.obj else None


def calls(pa, *names):
    return [e for e in pa.events if e.kind in ('call', 'vcall', 'icall') and short(e.name) in names]


def claim(e):
    """the event atomically sets the terminated flag of a connection: that connection"""
    if e.kind == 'atomic' and e.obj and e.obj[0] == 'f' and e.obj[2] == CONN + 'terminated':
        if e.name == 'exchange' and e.args[0] == C(1):
            return e.obj[1]
        if e.name == 'cas' and e.args[0] == C(0) and e.args[1] == C(1) and not (e.x or {}).get('weak'):
            return e.obj[1]
    return None


def won(it, e, facts):
    return it.holds(facts, truth(e.res)) if e.name == 'cas' else it.holds(facts, pred_not(truth(e.res)))


def lost(it, e, facts):
    return it.holds(facts, pred_not(truth(e.res))) if e.name == 'cas' else it.holds(facts, truth(e.res))


def won_before(it, evs, i, conn, facts):
    return any(claim(e) == conn and won(it, e, facts) for e in evs[:i] if e.kind == 'atomic')


class Posts:
    """what the lambda handed to a cross-thread call does (analysed once per lambda)"""

    def __init__(self, it):
        self.it = it
        self.cache = {}

    def paths(self, e):
        if e.kind != 'call' or e.name not in (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call'):
            return None
        v = (e.x or {}).get('vals', e.args)[0]
        while v[0] == 'st':
            v = v[1]
        if v[0] != 'lam':
            return None
        if v[3] not in self.cache:
            self.cache[v[3]] = self.it.run_lambda(v)
        return self.cache[v[3]]

    def terminates(self, e):
        """the event requests termination of a connection: a posted task that claims the terminated flag"""
        ps = self.paths(e)
        if not ps:
            return False
        return any(claim(x) for p in ps for x in p.events)


def io_functions(ctx, s):
    """the functions a connection's socket callbacks may be set to, by what they do"""
    res = {}
    for f in ('recv_data_func', 'send_data_func'):
        for v in s.fields.get(CONN + f, ()):
            if v[0] == 'fn':
                res.setdefault(v[1], (v[2], set()))[1].add(f)
    ctx.require(len(res) >= 5, 'socket callback functions not found')
    return {k: (n, fs) for k, (n, fs) in res.items()}


IO_ABSTRACT = {NS + 'SegBuffer', NS + 'MPSCWriteBuffer'}
RECV = {'recv', NS + 'TLS::recv'}
SEND = {'send', NS + 'TLS::send'}


def run_io(ctx):
    """abstract paths of every socket callback: [(qualified name, roles, interp, paths)]"""
    s = ctx.system('MsgNetwork')
    out = []
    for fid, (qn, roles) in sorted(io_functions(ctx, s).items(), key=lambda x: x[1][0]):
        f = ctx.prog.functions.get(fid)
        ctx.require(f is not None and f.body is not None, 'no body for ' + qn)
        it = Interp(ctx.prog, Config(abstract=IO_ABSTRACT, extra_opaque={ERR}))
        ps = it.run(f)
        ctx.note(qn, ps, it)
        out.append((qn, roles, it, ps))
    return out


def is_io(e, names):
    return e.kind == 'call' and e.name in names


def io_args(e):
    """(buffer pointer, length) of a send/recv, plain or TLS"""
    a = (e.x or {}).get('vals', e.args)
    return (a[1], a[2]) if e.name in ('send', 'recv') else (a[0], a[1])


def transient(it, facts, tls_codes):
    """the error of the last I/O call is known to be of the would-block kind"""
    for vp, iv in facts.items():
        if len(vp) != 1 or not isinstance(iv, tuple):
            continue
        t = vp[0][0]
        if t[0] in ('init', 's') and any(x[0] == 's' and x[3] == '__errno_location' for x in subterms(t)):
            if it.holds(facts, eq(t, C(EAGAIN))):
                return True
        if t[0] == 's' and t[3] == 'get_error':
            if any(it.holds(facts, eq(t, C(c))) for c in tls_codes):
                return True
    return False


def is_prefix(t, b, n):
    """term t denotes the first n bytes of buffer b"""
    a = ap(t, 'resize')
    if a and a[0] == b and a[1] == n:
        return True
    if t[0] == 'ap' and t[1].endswith('(ctor)') and len(t[2]) >= 2:
        return t[2][0] in (('ap', x, (b,)) for x in ()) or (is_at(t[2][0], b, C(0)) and is_at(t[2][1], b, n))
    return False


def is_at(t, b, k):
    """term t points k bytes into buffer b"""
    d, c = as_lin(t)
    base = [x for x in d if x[0] == 'ap' and short(x[1]) in ('begin', 'data', 'cbegin') and x[2][0] == b and d[x] == 1]
    if len(base) != 1:
        return False
    return lin_add(t, base[0], -1) == k


def is_end(t, b):
    if t[0] == 'ap' and short(t[1]) in ('end', 'cend') and t[2][0] == b:
        return True
    return any(is_at(t, b, x) for x in sizes(b))


def sizes(b):
    res = [('ap', 'size', (b,))]
    return res


def is_suffix(t, b, r):
    """term t denotes the bytes of b from offset r on"""
    if t[0] == 'ap' and t[1].endswith('(ctor)') and len(t[2]) >= 2:
        return is_at(t[2][0], b, r) and is_end(t[2][1], b)
    a = ap(t, "erase'") or ap(t, 'erase')
    if a and len(a) >= 3 and a[0] == b and is_at(a[1], b, C(0)) and is_at(a[2], b, r):
        return True
    return False


def posters(s, t):
    """all events of the system that post the lambda of task t, with the path and the captured values"""
    out = []
    for u in s.tasks:
        for pa in u.paths:
            for i, e in enumerate(pa.events):
                if e.kind == 'call' and e.name in (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call'):
                    v = e.x['vals'][0]
                    while v[0] == 'st':
                        v = v[1]
                    if v[0] == 'lam' and v[3] == t.lam[3]:
                        out.append((pa, i, e, v, u))
    return out


def callers(e):
    """functions on the call stack of an event"""
    out = [e.fn]
    for s in e.stack or ():
        out.append(s[0] if isinstance(s, tuple) else s)
    return [str(x) for x in out]
