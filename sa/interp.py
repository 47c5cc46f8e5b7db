"""Path-sensitive abstract interpretation (typestate dataflow) over the type-checked program.

The program is never run: statements are interpreted over symbolic locations and value-numbered terms.  Branch
conditions become interval facts over linear forms of terms; a path is dropped only when an interval becomes empty
(no solver).  Loops are summarised by havocking everything a fixpoint pass finds modified.  The result of analysing
a root function is a set of abstract paths, each a list of events (calls, writes, atomics, locks, throws, ...) with
the facts and lock set that hold at the event.
"""
from .program import AnalysisBroken, rel

# --------------------------------------------------------------------------- terms
INT_W = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
         'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def tnorm(t):
    t = (t or '').strip()
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    return t


def is_unsigned(t):
    t = tnorm(t)
    return t.startswith('unsigned') or t == 'bool' or t.endswith('*')


def as_lin(v):
    k = v[0]
    if k == 'c':
        return {}, v[1]
    if k == 'null':
        return {}, 0
    if k == 'lin':
        return dict(v[1]), v[2]
    return {v: 1}, 0


def from_lin(d, c):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', tuple(sorted(d.items(), key=repr)), c)


def lin_add(a, b, sb=1):
    da, ca = as_lin(a)
    db, cb = as_lin(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + sb * k
    return from_lin(da, ca + sb * cb)


def gcd_all(ks):
    from math import gcd
    g = 0
    for k in ks:
        g = gcd(g, abs(k))
    return g or 1


def vp_of(d):
    """canonical variable part and the sign/divisor applied"""
    d = {t: k for t, k in d.items() if k}
    if not d:
        return None, 1
    items = sorted(d.items(), key=repr)
    g = gcd_all(k for _, k in items)
    s = 1 if items[0][1] > 0 else -1
    return tuple((t, s * k // g) for t, k in items), s * g


def pred_le(d, c):
    """sum(d) + c <= 0"""
    vp, s = vp_of(d)
    if vp is None:
        return ('c', 1 if c <= 0 else 0)
    # s*g*vp + c <= 0
    if s > 0:
        hi = (-c) // s
        return ('in', vp, None, hi)
    else:
        # vp >= c/|s|
        lo = -((-c) // (-s))
        return ('in', vp, lo, None)


def pred_eq(d, c):
    vp, s = vp_of(d)
    if vp is None:
        return ('c', 1 if c == 0 else 0)
    if (-c) % abs(s):
        return ('c', 0)
    k = (-c) // s
    return ('in', vp, k, k)


def pred_not(p):
    k = p[0]
    if k == 'c':
        return ('c', 0 if p[1] else 1)
    if k == 'in':
        _, vp, lo, hi = p
        if lo is None:
            return ('in', vp, hi + 1, None)
        if hi is None:
            return ('in', vp, None, lo - 1)
        if lo == hi:
            return ('ne', vp, lo)
        return ('not', p)
    if k == 'ne':
        return ('in', p[1], p[2], p[2])
    if k == 'not':
        return p[1]
    return ('not', truth(p))


def truth(v):
    k = v[0]
    if k in ('in', 'ne', 'not'):
        return v
    if k == 'c':
        return ('c', 1 if v[1] else 0)
    if k == 'null':
        return ('c', 0)
    if k in ('addr', 'lam', 'fn', 'str', 'bind'):
        return ('c', 1)
    d, c = as_lin(v)
    return pred_not(pred_eq(d, c))


def show_loc(l):
    k = l[0]
    if k == 'f':
        return show_loc(l[1]) + '.' + l[2].rsplit('::', 1)[-1]
    if k == 'obj':
        return '*' + show(l[1])
    if k == 'p':
        return l[2]
    if k == 'v':
        return l[3] if len(l) > 3 and l[3] else 'v%s' % (l[2],)
    if k == 'g':
        return l[1].rsplit('::', 1)[-1]
    if k == 'i':
        return show_loc(l[1]) + '[' + show(l[2]) + ']'
    if k == 't':
        return 'tmp@%s' % l[3]
    return str(k)


def show(v):
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 'null':
        return 'null'
    if k == 'str':
        return repr(v[1])
    if k == 'init':
        return show_loc(v[1])
    if k == 'addr':
        return '&' + show_loc(v[1])
    if k == 'loc':
        return show_loc(v[1])
    if k == 's':
        return '%s@%s' % (v[3], v[4])
    if k == 'lin':
        return '(' + '+'.join(('%d*%s' % (c, show(t)) if c != 1 else show(t)) for t, c in v[1]) + ('%+d' % v[2] if v[2] else '') + ')'
    if k == 'in':
        vp = from_lin(dict(v[1]), 0)
        if v[2] == v[3]:
            return '%s==%s' % (show(vp), v[2])
        if v[2] is None:
            return '%s<=%s' % (show(vp), v[3])
        return '%s>=%s' % (show(vp), v[2])
    if k == 'ne':
        return '%s!=%s' % (show(from_lin(dict(v[1]), 0)), v[2])
    if k == 'not':
        return '!' + show(v[1])
    if k == 'ap':
        return '%s(%s)' % (v[1].rsplit('::', 1)[-1], ','.join(show(a) for a in v[2] if isinstance(a, tuple)))
    if k == 'fn':
        return v[2].rsplit('::', 1)[-1]
    if k == 'lam':
        return 'lambda@%s' % v[2]
    if k == 'h':
        return 'loop(%s)' % show_loc(v[2])
    if k == 'sel':
        return show(v[1]) + '.' + (v[2].rsplit('::', 1)[-1] if isinstance(v[2], str) else str(v[2]))
    if k == 'this':
        return 'this'
    if k == 'rv':
        return show_loc(v[1])
    if k == 'narrow':
        return 'narrow(%s)' % show(v[2])
    if k == 'op':
        return '(%s %s %s)' % (show(v[2]), v[1], show(v[3]))
    return str(k)


_root_cache = {}


def loc_root(l):
    r = _root_cache.get(l)
    if r is None:
        x = l
        while x[0] in ('f', 'i'):
            x = x[1]
        _root_cache[l] = r = x
    return r


def has_prefix(l, p):
    while True:
        if l == p:
            return True
        if l[0] in ('f', 'i'):
            l = l[1]
        else:
            return False


def rebase(l, old, new):
    if l == old:
        return new
    return (l[0], rebase(l[1], old, new)) + l[2:]


def subterms(v):
    """all tuples nested in a term"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def field_of(loc):
    """unqualified name of the last field of a location, or None"""
    if loc and loc[0] == 'f':
        return loc[2].rsplit('::', 1)[-1]
    return None


# --------------------------------------------------------------------------- state
class Ev:
    __slots__ = ('kind', 'name', 'obj', 'args', 'res', 'file', 'line', 'fn', 'stack', 'facts', 'locks', 'node', 'x', 'cells',
                 'intry')

    def __init__(self, kind, name, obj, args, res, file, line, fn, stack, facts, locks, node, x=None):
        self.kind, self.name, self.obj, self.args, self.res = kind, name, obj, args, res
        self.file, self.line, self.fn, self.stack = file, line, fn, stack
        self.facts, self.locks, self.node, self.x = facts, locks, node, x
        self.cells = None
        self.intry = 0

    @property
    def where(self):
        return '%s:%d' % (rel(self.file), self.line)

    @property
    def short(self):
        return self.name.rsplit('::', 1)[-1] if self.name else ''

    def __repr__(self):
        a = ','.join(show(x) if isinstance(x, tuple) else str(x) for x in self.args)
        return '%s %s%s(%s)%s @%s' % (self.kind, (show_loc(self.obj) + '.') if self.obj else '',
                                      self.short, a, (' -> ' + show(self.res)) if self.res else '', self.where)


class Tr:
    __slots__ = ('ev', 'prev', 'h', 'n')

    def __init__(self, ev, prev, h):
        self.ev, self.prev, self.h = ev, prev, h
        self.n = prev.n + 1 if prev else 1


class St:
    __slots__ = ('cells', 'iv', 'tr', 'locks', 'exc', 'wl', 'scope', 'cur_exc', 'ctrl')

    def __init__(self):
        self.cells, self.iv, self.tr, self.locks, self.exc = {}, {}, None, (), None
        self.wl = None
        self.scope = ()
        self.cur_exc = None
        self.ctrl = None

    def clone(self):
        s = St.__new__(St)
        s.cells, s.iv, s.tr, s.locks, s.exc = dict(self.cells), dict(self.iv), self.tr, self.locks, self.exc
        s.wl = set(self.wl) if self.wl is not None else None
        s.scope = self.scope
        s.cur_exc = self.cur_exc
        s.ctrl = self.ctrl
        return s

    def key(self):
        return (hash(frozenset(self.cells.items())), self.tr.h if self.tr else 0, self.locks, self.exc, self.scope, self.ctrl)

    def events(self):
        r = []
        t = self.tr
        while t:
            r.append(t.ev)
            t = t.prev
        r.reverse()
        return r


class Frame:
    __slots__ = ('id', 'fn', 'qn', 'file', 'this', 'parent', 'stack', 'depth', 'fnids', 'cls')

    def __init__(self, id, fn, qn, file, this, parent, cls=None):
        self.id, self.fn, self.qn, self.file, self.this, self.parent = id, fn, qn, file, this, parent
        self.cls = cls
        self.depth = parent.depth + 1 if parent else 0
        self.stack = (parent.stack if parent else ()) + (qn,)
        self.fnids = (parent.fnids if parent else frozenset()) | {fn}


HANDLES = {'salticidae::BoxObj', 'salticidae::_BoxObj', 'salticidae::RcObjBase', 'salticidae::_RcObjBase',
           'salticidae::WeakObjBase', 'salticidae::_WeakObjBase', 'salticidae::EventContext'}
LOCKS = {'std::lock_guard': 'x', 'std::unique_lock': 'x', 'std::scoped_lock': 'x', 'std::shared_lock': 's'}
OPAQUE_CLASSES = {'salticidae::FdEvent', 'salticidae::TimerEvent', 'salticidae::TimedFdEvent', 'salticidae::SigEvent',
                  'salticidae::CheckEvent', 'salticidae::ThreadCall', 'salticidae::MPSCQueueEventDriven',
                  'salticidae::MPMCQueueEventDriven', 'salticidae::MPSCQueue', 'salticidae::MPMCQueue',
                  'salticidae::FreeList', 'salticidae::ThreadCall::Handle', 'salticidae::ThreadCall::Result',
                  'salticidae::ThreadNotifier', 'salticidae::NotifyFd', 'salticidae::SHA1', 'salticidae::SHA256',
                  'salticidae::TLS', 'salticidae::TLSContext', 'salticidae::X509', 'salticidae::PKey'}
OPAQUE_FNS = {'salticidae::get_hex', 'salticidae::get_hex10', 'salticidae::gen_rand_timeout', 'salticidae::get_hash',
              'salticidae::stringprintf', 'salticidae::vstringprintf', 'salticidae::generic_bind',
              'salticidae::DataStream::get_hash', 'salticidae::DataStream::get_hex'}
PURE = {'size', 'length', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'count', 'at', 'front',
        'back', 'data', 'c_str', 'get', 'capacity', 'what', 'str', 'operator->', 'operator*', 'operator[]', 'base',
        'max_size', 'substr', 'joinable', 'get_id', 'owns_lock', 'native_handle'}


class Config:
    """what the interpretation treats as opaque for one analysis"""

    def __init__(self, opaque_classes=None, opaque_fns=None, handles=True, inline_dtors=(), inline_only=None,
                 not_opaque=(), may_throw=None, resolve=None, snap=None, max_states=6000, lambdas_inline=True,
                 inline_pred=None, write_events=True, fnptr=None, extra_opaque=(), marks=(), abstract=(), reads=None, arith=False, split=False, logs=False):
        self.split = split          # keep states with different facts apart (no merging)
        self.opaque_classes = set(OPAQUE_CLASSES if opaque_classes is None else opaque_classes) - set(not_opaque)
        self.opaque_fns = (set(OPAQUE_FNS if opaque_fns is None else opaque_fns) - set(not_opaque)) | set(extra_opaque)
        self.handles = handles
        self.inline_dtors = set(inline_dtors)
        self.may_throw = may_throw or (lambda ev: ())
        self.resolve = resolve or (lambda n, qn: None)
        self.snap = snap
        self.max_states = max_states
        self.inline_pred = inline_pred
        self.fnptr = fnptr or {}
        self.marks = set(marks)
        self.abstract = set(abstract)
        self.reads = reads
        self.logs = logs
        self.arith = arith


class Path:
    """one abstract path of a root: its events, how it ends, the final state"""

    def __init__(self, st, kind, ret):
        self.st, self.kind, self.ret = st, kind, ret
        self._evs = None

    @property
    def events(self):
        if self._evs is None:
            self._evs = self.st.events()
        return self._evs

    def value(self, loc):
        return self.st.cells.get(loc)


class Interp:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Config()
        self.frames = {}
        self.nframe = 0
        self.ty = {}
        self.steps = 0
        self.lams = prog.__dict__.setdefault("lams", {})
        self.nid = getattr(prog, '_nid', None)
        if self.nid is None:
            self._number()
        self.inlined = set()
        self.loc_cls = {}
        self.trydepth = 0
        self.fnloc = {}

    def _number(self):
        c = 0
        for f in sorted(self.p.functions.values(), key=lambda f: (f.file, f.line, f.fn)):
            stack = [f.body, f.inits]
            while stack:
                n = stack.pop()
                if isinstance(n, dict):
                    n['_i'] = c
                    c += 1
                    stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
                elif isinstance(n, list):
                    stack.extend(v for v in n if isinstance(v, (dict, list)))
        self.p._nid = self.nid = c

    # ------------------------------------------------------------- roots
    def run(self, fn, this=('obj', ('this',)), args=None, cells=None, iv=None, name=None):
        """analyse a function from an unconstrained entry state"""
        st = St()
        if cells:
            st.cells.update(cells)
        if iv:
            st.iv.update(iv)
        fr = self.frame(None, ('root', fn.fn), fn.fn, fn.qn, fn.file, this, fn.cls)
        for i, p in enumerate(fn.params):
            a = args[i] if args and i < len(args) else None
            pl = ('p', fn.qn, p['n'] or ('#%d' % i))
            v = ('v', fr.id, p['d'], p['n'])
            if a is not None:
                st.cells[v] = a
            else:
                st.cells[v] = ('alias', pl)
                self.type_loc(pl, p)
        outs = self.exec_fn(fn, st, fr)
        return self._paths(outs)

    def run_lambda(self, lam, args=None, iv=None, cells=None):
        """analyse the body of a lambda value as its own root; captured values keep their identity"""
        _, site, line, nodeid, env, this, file, encl = lam
        n = self.lams[nodeid]
        fr = self.frame(None, ('lroot', lam), n['fn'] if 'fn' in n else 'lam%d' % nodeid, encl + '::<lambda>', file, this)
        st = St()
        if cells:
            st.cells.update(cells)
        if iv:
            st.iv.update(iv)
        self.bind_env(st, fr, env)
        for i, p in enumerate(n['params']):
            pl = ('p', encl + '::<lambda@%d>' % n['l'], p['n'] or ('#%d' % i))
            if args and i < len(args) and args[i] is not None:
                st.cells[('v', fr.id, p['d'], p['n'])] = args[i]
            else:
                st.cells[('v', fr.id, p['d'], p['n'])] = ('alias', pl)
        outs = []
        for kind, s, v in self.ex(n['body'], st, fr):
            outs.append((kind, s, v))
        return self._paths(outs)

    def _paths(self, outs):
        res = []
        for kind, s, v in outs:
            if kind == 'throw':
                e = s.exc
                if e[0] == '$backedge':
                    res.append(Path(s, 'backedge', None))
                elif e[0] == '$noret':
                    res.append(Path(s, 'noret', None))
                else:
                    p = Path(s, 'throw', e)
                    res.append(p)
            else:
                res.append(Path(s, 'ret', v))
        return res

    def frame(self, parent, site, fnid, qn, file, this, cls=None):
        k = (parent.id if parent else None, site, fnid, this)
        f = self.frames.get(k)
        if f is None:
            self.nframe += 1
            f = self.frames[k] = Frame(self.nframe, fnid, qn, file, this, parent, cls)
        return f

    # ------------------------------------------------------------- facts
    def base_iv(self, st, vp):
        lo, hi, ne = None, None, ()
        x = st.iv.get(vp)
        if x:
            lo, hi, ne = x
        if len(vp) == 1:
            t = vp[0][0]
            ty = self.ty.get(t)
            if ty == 'bool':
                lo = 0 if lo is None or lo < 0 else lo
                hi = 1 if hi is None or hi > 1 else hi
            elif ty and is_unsigned(ty):
                lo = 0 if lo is None or lo < 0 else lo
            elif t[0] == 'ap' and t[1].rsplit('::', 1)[-1] in ('size', 'length', 'count', 'empty'):
                lo = 0 if lo is None or lo < 0 else lo
            elif t[0] == 'op' and t[1] == '&' and t[3][0] == 'c' and t[3][1] >= 0:
                lo = 0 if lo is None or lo < 0 else lo
                hi = t[3][1] if hi is None or hi > t[3][1] else hi
            if lo is not None and lo in ne:
                lo += 1
            if hi is not None and hi in ne:
                hi -= 1
        else:
            slo, shi = 0, 0
            for t, k in vp:
                l, h, _ = self.base_iv(st, ((t, 1),))
                if k < 0:
                    l, h = h, l
                slo = None if slo is None or l is None else slo + k * l
                shi = None if shi is None or h is None else shi + k * h
            if slo is not None and (lo is None or slo > lo):
                lo = slo
            if shi is not None and (hi is None or shi < hi):
                hi = shi
        return lo, hi, ne

    def decide(self, st, p):
        """True/False/None: is predicate p implied / refuted by the facts"""
        k = p[0]
        if k == 'c':
            return bool(p[1])
        if k == 'not':
            r = self.decide(st, truth(p[1]))
            return None if r is None else not r
        if k == 'in':
            if len(p[1]) == 1 and p[1][0][0][0] in ('in', 'ne', 'not'):
                q = p[1][0][0]
                if p[2] == p[3] == 0:
                    return self.decide(st, pred_not(q))
                if p[2] == 1 and p[3] in (1, None):
                    return self.decide(st, q)
            lo, hi, ne = self.base_iv(st, p[1])
            if (p[2] is None or (lo is not None and lo >= p[2])) and (p[3] is None or (hi is not None and hi <= p[3])):
                return True
            if p[2] is not None and hi is not None and hi < p[2]:
                return False
            if p[3] is not None and lo is not None and lo > p[3]:
                return False
            if p[2] is not None and p[2] == p[3] and p[2] in ne:
                return False
            return None
        if k == 'ne':
            r = self.decide(st, ('in', p[1], p[2], p[2]))
            return None if r is None else not r
        return self.decide(st, truth(p))

    def assume(self, st, p):
        """add fact p in place; False if contradictory"""
        r = self.decide(st, p)
        if r is not None:
            return r
        k = p[0]
        if k == 'not':
            q = pred_not(truth(p[1]))
            if q[0] == 'not':
                return True
            return self.assume(st, q)
        if k == 'in':
            vp = p[1]
            if len(vp) == 1 and vp[0][0][0] in ('in', 'ne', 'not'):
                if p[2] == p[3] == 0:
                    return self.assume(st, pred_not(vp[0][0]))
                if p[2] == 1 and p[3] in (1, None):
                    return self.assume(st, vp[0][0])
            lo, hi, ne = self.base_iv(st, vp)
            if p[2] is not None and (lo is None or p[2] > lo):
                lo = p[2]
            if p[3] is not None and (hi is None or p[3] < hi):
                hi = p[3]
            if lo is not None and hi is not None and lo > hi:
                return False
            st.iv[vp] = (lo, hi, ne)
            return True
        if k == 'ne':
            lo, hi, ne = self.base_iv(st, p[1])
            c = p[2]
            if lo is not None and lo == c:
                lo += 1
            elif hi is not None and hi == c:
                hi -= 1
            else:
                ne = tuple(sorted(set(ne) | {c}))
            if lo is not None and hi is not None and lo > hi:
                return False
            st.iv[p[1]] = (lo, hi, ne)
            return True
        return self.assume(st, truth(p))

    def split(self, v, st):
        p = truth(v)
        r = self.decide(st, p)
        if r is True:
            return [(True, st)]
        if r is False:
            return [(False, st)]
        a = st.clone()
        b = st
        res = []
        if self.assume(a, p):
            res.append((True, a))
        if self.assume(b, pred_not(p)):
            res.append((False, b))
        return res

    # query helpers for rules (facts = iv dict)
    def holds(self, facts, p):
        s = St()
        s.iv = facts
        return self.decide(s, p)

    # ------------------------------------------------------------- memory
    def type_loc(self, loc, p):
        if p.get('t') and ('init', loc) not in self.ty:
            t = tnorm(p['t'].rstrip('&').strip())
            if t in INT_W or t.endswith('*'):
                self.ty[('init', loc)] = t

    def resolve_alias(self, st, loc):
        n = 0
        while True:
            v = st.cells.get(loc)
            if v is not None and v[0] == 'alias':
                loc = v[1]
                n += 1
                if n > 50:
                    raise AnalysisBroken('alias cycle')
            else:
                return loc

    def read(self, st, loc, t=None):
        v = st.cells.get(loc)
        if v is not None:
            if v[0] == 'alias':
                return self.read(st, v[1], t)
            return v
        if loc[0] == 'f' or loc[0] == 'i':
            b = st.cells.get(loc[1])
            if b is not None and b[0] not in ('undef', 'alias'):
                if b[0] == 'init' :
                    r = ('init', (loc[0], b[1], loc[2]))
                    if b[1] != loc[1]:
                        # content copied from elsewhere: follow the original object
                        return self.read_init(st, r, t)
                    return self.settype(r, t)
                return self.settype(('sel', b, loc[2] if loc[0] == 'f' else ('idx', loc[2])), t)
            # deeper prefixes
            x = loc[1]
            suf = [(loc[0], loc[2])]
            while x[0] in ('f', 'i'):
                suf.append((x[0], x[2]))
                x = x[1]
                b = st.cells.get(x)
                if b is not None and b[0] not in ('undef', 'alias'):
                    if b[0] == 'init':
                        l = b[1]
                        for kk, s in reversed(suf):
                            l = (kk, l, s)
                        return self.settype(('init', l), t)
                    r = b
                    for kk, s in reversed(suf):
                        r = ('sel', r, s if kk == 'f' else ('idx', s))
                    return self.settype(r, t)
        if loc[0] == 'g':
            if loc[1] in self.fnloc:
                return ('fn', self.fnloc[loc[1]], loc[1])
            g = self.p.gvars.get(loc[1])
            if g is not None and 'cv' in g and isinstance(g['cv'], int):
                return ('c', g['cv'])
        return self.settype(('init', loc), t)

    def read_init(self, st, v, t):
        return self.settype(v, t)

    def settype(self, v, t):
        if t is not None and v not in self.ty:
            t = tnorm(t)
            if t in INT_W or t.endswith('*'):
                self.ty[v] = t
        return v

    def write(self, st, loc, v):
        if loc in st.cells or True:
            st.cells[loc] = v
        if st.wl is not None:
            st.wl.add(loc)

    def clear_sub(self, st, loc):
        for l in [l for l in st.cells if l != loc and l[0] in ('f', 'i') and has_prefix(l, loc)]:
            del st.cells[l]
            if st.wl is not None:
                st.wl.add(l)

    def content(self, st, loc):
        """the value of a whole object at loc"""
        loc = self.resolve_alias(st, loc)
        subs = [(l, v) for l, v in st.cells.items() if l != loc and l[0] in ('f', 'i') and has_prefix(l, loc)]
        if subs:
            items = tuple(sorted(((rebase(l, loc, ('x',)), v) for l, v in subs), key=repr))
            return ('st', self.read(st, loc), items)
        return self.read(st, loc)

    def store_obj(self, st, loc, v):
        """store value v (content or ('rv',src)) into object location loc"""
        if v[0] == 'rv':
            self.copy_obj(st, v[1], loc)
            self.drop_prefix(st, v[1])
            return
        if v[0] == 'loc':
            self.copy_obj(st, v[1], loc)
            return
        if v[0] == 'st':
            self.clear_sub(st, loc)
            self.write(st, loc, v[1])
            for l, x in v[2]:
                self.write(st, rebase(l, ('x',), loc), x)
            return
        self.clear_sub(st, loc)
        self.write(st, loc, v)

    def copy_obj(self, st, src, dst):
        src = self.resolve_alias(st, src)
        if src == dst:
            return
        subs = [(l, v) for l, v in st.cells.items() if l != src and l[0] in ('f', 'i') and has_prefix(l, src)]
        base = self.read(st, src)
        self.clear_sub(st, dst)
        self.write(st, dst, base)
        for l, v in subs:
            self.write(st, rebase(l, src, dst), v)

    def drop_prefix(self, st, loc):
        for l in [l for l in st.cells if has_prefix(l, loc)]:
            del st.cells[l]

    def drop_frame(self, st, fid):
        dead = []
        for l in st.cells:
            r = loc_root(l)
            if r[0] in ('v', 't') and r[1] == fid:
                dead.append(l)
        for l in dead:
            del st.cells[l]

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'lin' and len(v[1]) == 1 and v[1][0][0][0] == 'addr':
            pass
        return ('obj', v)

    # ------------------------------------------------------------- events
    def emit(self, st, fr, n, kind, name, obj=None, args=(), res=None, x=None):
        line = n.get('l', 0) if n else 0
        ev = Ev(kind, name, obj, args, res, fr.file, line, fr.qn, fr.stack, dict(st.iv), st.locks, n, x)
        ev.intry = self.trydepth
        if self.cfg.snap and self.cfg.snap(ev):
            ev.cells = dict(st.cells)
        h = hash((st.tr.h if st.tr else 0, kind, name, obj, args, res, line, frozenset(ev.facts.items()), st.locks,
                  repr(x) if x else None))
        st.tr = Tr(ev, st.tr, h)
        return ev

    def sym(self, fr, n, hint):
        return ('s', fr.id, n.get('_i', 0), hint, n.get('l', 0))

    def throw(self, st, typ, site=None):
        st.exc = (typ, site)
        return st

    def merge(self, outs):
        """outs: list of (value, st)"""
        if len(outs) <= 1 or self.cfg.split and len(outs) < self.cfg.max_states:
            return outs
        d = {}
        res = []
        for v, s in outs:
            k = (v, s.key())
            o = d.get(k)
            if o is None:
                d[k] = s
                res.append((v, s))
            else:
                self.join_facts(o, s)
        if len(res) > self.cfg.max_states:
            raise AnalysisBroken('state limit exceeded (%d)' % len(res))
        return res

    def merge3(self, outs):
        if len(outs) <= 1 or self.cfg.split and len(outs) < self.cfg.max_states:
            return outs
        d = {}
        res = []
        for kd, s, v in outs:
            k = (kd, v, s.key())
            o = d.get(k)
            if o is None:
                d[k] = s
                res.append((kd, s, v))
            else:
                self.join_facts(o, s)
        if len(res) > self.cfg.max_states:
            raise AnalysisBroken('state limit exceeded (%d)' % len(res))
        return res

    def join_facts(self, a, b):
        iv = {}
        for vp in set(a.iv) | set(b.iv):
            x, y = self.base_iv(a, vp), self.base_iv(b, vp)
            lo = None if x[0] is None or y[0] is None else min(x[0], y[0])
            hi = None if x[1] is None or y[1] is None else max(x[1], y[1])
            ne = tuple(c for c in x[2] if c in y[2] or (y[0] is not None and c < y[0]) or (y[1] is not None and c > y[1]))
            if lo is not None or hi is not None or ne:
                iv[vp] = (lo, hi, ne)
        a.iv = iv
        if b.wl is not None:
            a.wl = (a.wl or set()) | b.wl

    # ------------------------------------------------------------- expressions
    def isclass(self, n):
        return bool(n.get('tr'))

    def evs(self, nodes, st, fr):
        """evaluate argument nodes left to right; lvalue nodes give ('loc',L)"""
        cur = [((), st)]
        for n in nodes:
            nxt = []
            for vals, s in cur:
                if s.exc:
                    nxt.append((vals, s))
                    continue
                for v, s2 in self.arg(n, s, fr):
                    nxt.append((vals + (v,), s2))
            cur = nxt
        return cur

    def arg(self, n, st, fr):
        if n is None:
            return [(('undef',), st)]
        if n.get('lv') or n['k'] == 'mat':
            return [(('loc', l) if not s.exc else l, s) for l, s in self.lval(n, st, fr)]
        return self.ev(n, st, fr)

    def ev(self, n, st, fr):
        self.steps += 1
        if n is None:
            return [(('undef',), st)]
        if 'cv' in n and n['k'] in ('load', 'ref', 'cast', 'bin', 'un', 'cond', 'mem', 'call') and not (
                n['k'] == 'bin' and n.get('asg')):
            return [(('c', n['cv']), st)]
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise AnalysisBroken('expression kind %s at %s:%s' % (n['k'], fr.file, n.get('l')))
        return m(n, st, fr)

    def e_int(self, n, st, fr):
        v = n.get('v', 0)
        return [(('c', int(v)), st)]

    def e_null(self, n, st, fr):
        return [(('null',), st)]

    def e_float(self, n, st, fr):
        return [(('flt', n.get('v')), st)]

    def e_str(self, n, st, fr):
        return [(('str', n.get('v', '')), st)]

    def e_this(self, n, st, fr):
        return [(('addr', fr.this) if fr.this else ('this',), st)]

    def e_zero(self, n, st, fr):
        t = n.get('t', '')
        return [(('null',) if t.endswith('*') else ('c', 0), st)]

    def e_opaque(self, n, st, fr):
        outs = self.evs(n.get('kids', []), st, fr)
        return [((self.sym(fr, n, 'opaque')), s) for _, s in outs]

    def e_ref(self, n, st, fr):
        if 'fn' in n:
            return [(('fn', n['fn'], n['qn']), st)]
        # class prvalue contexts never produce a bare ref; treat as the object's content
        out = []
        for l, s in self.lval(n, st, fr):
            out.append((self.content(s, l) if not s.exc else l, s))
        return out

    def e_mem(self, n, st, fr):
        if 'fn' in n:
            return [(('fn', n['fn'], n['qn']), st)]
        return [(self.content(s, l) if not s.exc else l, s) for l, s in self.lval(n, st, fr)]

    e_idx = e_mem

    def e_load(self, n, st, fr):
        out = []
        for l, s in self.lval(n['a'], st, fr):
            if s.exc:
                out.append((l, s))
            else:
                out.append((self.read(s, l, n.get('t')), s))
        return out

    def e_mat(self, n, st, fr):
        return [(self.content(s, l) if not s.exc else l, s) for l, s in self.lval(n, st, fr)]

    def e_lambda(self, n, st, fr):
        nodeid = n['_i']
        self.lams[nodeid] = n
        cur = [((), st)]
        this = None
        for c in n['caps']:
            nxt = []
            if c.get('this'):
                this = fr.this
                continue
            for env, s in cur:
                if s.exc:
                    nxt.append((env, s))
                    continue
                if c.get('byref'):
                    for l, s2 in self.lval(c['init'], s, fr) if c.get('init') else [(self.var_loc(s, fr, c), s)]:
                        nxt.append((env + ((c['d'], c['n'], 'ref', l),), s2))
                elif c.get('init') is not None:
                    for v, s2 in self.arg(c['init'], s, fr):
                        if s2.exc:
                            nxt.append((env, s2))
                            continue
                        if v[0] in ('rv', 'loc'):
                            w = self.content(s2, v[1])
                            if v[0] == 'rv':
                                self.drop_prefix(s2, v[1])
                            v = w
                        nxt.append((env + ((c['d'], c['n'], 'val', v),), s2))
                else:
                    l = self.var_loc(s, fr, c)
                    nxt.append((env + ((c['d'], c['n'], 'val', self.content(s, l)),), s))
            cur = nxt
        out = []
        for env, s in cur:
            out.append((('lam', (fr.id, nodeid), n['l'], nodeid, env, this, fr.file, fr.qn), s))
        return out

    def var_loc(self, st, fr, c):
        return self.resolve_alias(st, ('v', fr.id, c['d'], c['n']))

    def bind_env(self, st, fr, env):
        for d, nm, kd, v in env:
            l = ('v', fr.id, d, nm)
            if kd == 'ref':
                st.cells[l] = ('alias', v)
            else:
                self.store_obj(st, l, v)

    def e_un(self, n, st, fr):
        op = n['op']
        if op == '&':
            a = n['a']
            if a['k'] == 'ref' and 'fn' in a:
                return [(('fn', a['fn'], a['qn']), st)]
            out = []
            for l, s in self.lval(a, st, fr):
                if s.exc:
                    out.append((l, s))
                elif l[0] == 'obj':
                    out.append((l[1], s))
                else:
                    out.append((('addr', l), s))
            return out
        if op in ('++', '--'):
            out = []
            for l, s in self.lval(n['a'], st, fr):
                if s.exc:
                    out.append((l, s))
                    continue
                old = self.read(s, l, n.get('t'))
                new = lin_add(old, ('c', 1 if op == '++' else -1))
                self.put(s, l, new, fr, n)
                out.append((old if n.get('post') else new, s))
            return out
        if op == '*':
            return [(self.read(s, l, n.get('t')) if not s.exc else l, s) for l, s in self.lval(n, st, fr)]
        out = []
        for v, s in self.ev(n['a'], st, fr):
            if s.exc:
                out.append((v, s))
                continue
            if op == '!':
                v = pred_not(truth(v))
            elif op == '-':
                v = lin_add(('c', 0), v, -1) if v[0] != 'flt' else ('ap', 'neg', (v,))
            elif op == '~':
                v = ('c', ~v[1]) if v[0] == 'c' else ('op', '~', v, ('c', 0))
            out.append((v, s))
        return out

    def put(self, st, l, v, fr, n):
        """assignment visible to rules: write event for non-local locations"""
        self.clear_sub(st, l)
        self.write(st, l, v)
        r = loc_root(l)
        if r[0] not in ('v', 't'):
            self.emit(st, fr, n, 'write', l[2] if l[0] == 'f' else '', l, (v,))

    def arith(self, op, a, b, t, st):
        if a[0] == 'flt' or b[0] == 'flt' or (t and ('double' in t or 'float' in t)):
            return ('ap', 'f' + op, (a, b))
        if op == '+':
            return lin_add(a, b)
        if op == '-':
            return lin_add(a, b, -1)
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c':
                    d, c = as_lin(y)
                    return from_lin({k: v * x[1] for k, v in d.items()}, c * x[1])
            return ('op', '*', a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y,
                     '>>': lambda: x >> y, '%': lambda: x % y, '/': lambda: int(x / y) if abs(x) < 2 ** 52 else x // y}[op]()
                return ('c', r)
            except Exception:
                pass
        if op == '|' and b == ('c', 0):
            return a
        if op == '|' and a == ('c', 0):
            return b
        if op == '&' and (a == ('c', 0) or b == ('c', 0)):
            return ('c', 0)
        if op in ('&', '|', '^') and a[0] == 'c':
            a, b = b, a
        return ('op', op, a, b)

    def compare(self, op, a, b, st):
        if a[0] == 'flt' or b[0] == 'flt':
            return ('ap', 'f' + op, (a, b))
        if a[0] in ('addr', 'lam', 'fn', 'str') and b[0] in ('null',) or a == ('null',) and b[0] in ('addr', 'lam', 'fn'):
            if op == '==':
                return ('c', 0)
            if op == '!=':
                return ('c', 1)
        if op in ('==', '!=') and a[0] == 'addr' and b[0] == 'addr' and a != b:
            ra, rb = loc_root(a[1]), loc_root(b[1])
            if ra[0] in ('v', 't') and rb[0] in ('v', 't'):
                return ('c', 0 if op == '==' else 1)
        if op in ('==', '!='):
            # comparison of a predicate with a boolean constant
            for x, y in ((a, b), (b, a)):
                if x[0] in ('in', 'ne', 'not') and y[0] == 'c' and y[1] in (0, 1):
                    r = x if y[1] else pred_not(x)
                    return r if op == '==' else pred_not(r)
        d, c = as_lin(lin_add(a, b, -1))
        if op == '==':
            return pred_eq(d, c)
        if op == '!=':
            return pred_not(pred_eq(d, c))
        if op == '<=':
            return pred_le(d, c)
        if op == '<':
            return pred_le(d, c + 1)
        nd = {t: -k for t, k in d.items()}
        if op == '>=':
            return pred_le(nd, -c)
        return pred_le(nd, -c + 1)

    def e_bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for v, s in self.ev(n['a'], st, fr):
                if s.exc:
                    out.append((v, s))
                    continue
                for tv, s2 in self.split(v, s):
                    if tv == (op == '||'):
                        out.append((('c', 1 if tv else 0), s2))
                    else:
                        for w, s3 in self.ev(n['b'], s2, fr):
                            out.append((truth(w) if not s3.exc else w, s3))
            return self.merge(out)
        if op == ',':
            out = []
            for v, s in self.arg(n['a'], st, fr):
                if s.exc:
                    out.append((v, s))
                else:
                    out.extend(self.ev(n['b'], s, fr))
            return out
        if n.get('asg'):
            return [(self.read(s, l, n.get('t')) if not s.exc else l, s) for l, s in self.lval(n, st, fr)]
        out = []
        for vs, s in self.evs([n['a'], n['b']], st, fr):
            if s.exc:
                out.append((('undef',), s))
                continue
            a, b = (self.content(s, x[1]) if x[0] == 'loc' else x for x in vs)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((self.compare(op, a, b, s), s))
            elif op == '<=>':
                out.append((('op', op, a, b), s))
            else:
                if self.cfg.arith and op in ('+', '-', '*', '<<'):
                    self.emit(s, fr, n, 'arith', op, None, (a, b), x={'t': tnorm(n.get('t'))})
                out.append((self.arith(op, a, b, n.get('t'), s), s))
        return out

    def is_assert(self, n):
        b = n.get('b')
        return isinstance(b, dict) and b.get('k') == 'call' and b.get('noret')

    def e_cond(self, n, st, fr):
        out = []
        if self.is_assert(n):
            # assert(): compiled out under NDEBUG, so it establishes nothing
            for v, s in self.ev(n['q'], st, fr):
                if not s.exc:
                    self.emit(s, fr, n, 'assert', n['b'].get('qn', ''), None, (truth(v),))
                out.append((('void',), s))
            return self.merge(out)
        for v, s in self.ev(n['q'], st, fr):
            if s.exc:
                out.append((v, s))
                continue
            for tv, s2 in self.split(v, s):
                out.extend(self.ev(n['a' if tv else 'b'], s2, fr))
        return self.merge(out)

    def e_throw(self, n, st, fr):
        if n.get('a') is None:
            self.emit(st, fr, n, 'throw', (st.cur_exc or ('?',))[0], None, ())
            st.exc = st.cur_exc or ('?', None)
            return [(('undef',), st)]
        out = []
        for v, s in self.arg(n['a'], st, fr):
            if not s.exc:
                a = ()
                sub = n['a']
                while sub.get('k') in ('mat', 'cast') and isinstance(sub.get('a'), dict):
                    sub = sub['a']
                if sub.get('k') == 'ctor':
                    a = tuple(('c', x['cv']) for x in sub['args'] if isinstance(x, dict) and 'cv' in x)
                self.emit(s, fr, n, 'throw', n.get('tt', ''), None, a)
                s.exc = (n.get('tt', ''), (fr.qn, n.get('l', 0)))
            out.append((('undef',), s))
        return out

    def e_cast(self, n, st, fr):
        ck = n.get('ck', '')
        a = n['a']
        t = n.get('t', '')
        if ck == 'ArrayToPointerDecay':
            if a['k'] == 'str':
                return self.e_str(a, st, fr)
            return [(('addr', l) if not s.exc else l, s) for l, s in self.lval(a, st, fr)]
        if ck == 'ToVoid':
            return [(('void',), s) for v, s in self.arg(a, st, fr)]
        if ck == 'NullToPointer':
            return [(('null',), s) for v, s in self.arg(a, st, fr)]
        if n.get('tr') and (a.get('lv')) and not n.get('lv') and ck in ('NoOp',):
            return [(self.content(s, l) if not s.exc else l, s) for l, s in self.lval(a, st, fr)]
        out = []
        for v, s in self.ev(a, st, fr):
            if s.exc:
                out.append((v, s))
                continue
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                v = truth(v)
            elif ck == 'IntegralCast':
                wt, wf = INT_W.get(tnorm(t)), INT_W.get(tnorm(n.get('ft', '')))
                if v[0] == 'c':
                    if wt and tnorm(t) != 'bool':
                        m = v[1] & ((1 << wt) - 1)
                        if not is_unsigned(t) and m >> (wt - 1):
                            m -= 1 << wt
                        v = ('c', m)
                elif v[0] in ('in', 'ne', 'not'):
                    pass
                elif wt and wf and wt < wf and v[0] != 'narrow':
                    v = ('narrow', tnorm(t), v)
            elif ck == 'FloatingToIntegral' and v[0] != 'c' or ck == 'FloatingCast' and tnorm(t) == 'float' and tnorm(n.get('ft', '')) in ('double', 'long double'):
                v = ('narrow', tnorm(t), v)
            out.append((v, s))
        return out

    def e_ilist(self, n, st, fr):
        a = n.get('a', [])
        if n.get('tr') and len(a) == 1 and isinstance(a[0], dict) and a[0].get('tr') == n.get('tr'):
            return self.ev(a[0], st, fr)
        if not n.get('tr') and len(a) == 1 and not n.get('t', '').endswith(']'):
            return self.ev(a[0], st, fr)
        out = []
        for vs, s in self.evs(a, st, fr):
            if s.exc:
                out.append((('undef',), s))
                continue
            rec = self.p.rec_by_qn.get(n.get('tr', ''))
            if rec and rec.get('fields'):
                t = ('t', fr.id, n['_i'], n.get('l', 0))
                self.drop_prefix(s, t)
                for f, v in zip(rec['fields'], vs):
                    self.store_obj(s, ('f', t, rec['qn'] + '::' + f['n']), v)
                out.append((('rv', t), s))
            else:
                out.append((('ap', 'ilist', tuple(self.content(s, v[1]) if v[0] in ('loc', 'rv') else v for v in vs)), s))
        return out

    def e_new(self, n, st, fr):
        outs = []
        pre = [n['n']] if n.get('n') else []
        pre += n.get('place', [])
        for vs, s in self.evs(pre, st, fr):
            if s.exc:
                outs.append((('undef',), s))
                continue
            place = None
            cnt = vs[0] if n.get('n') else None
            if n.get('place'):
                pv = vs[-1]
                place = pv
            val = place if place is not None and place[0] in ('addr', 'init', 's', 'lin', 'sel') else self.sym(fr, n, 'new ' + (n.get('atr') or n.get('at', '')).rsplit('::', 1)[-1])
            tgt = self.deref(val)
            if n.get('init') is not None and not n.get('array'):
                for s2 in self.construct(n['init'], s, fr, tgt, n.get('atr')):
                    if not s2.exc:
                        self.emit(s2, fr, n, 'new' if place is None else 'pnew', n.get('atr') or n.get('at', ''), tgt if place is not None else None,
                                  (cnt,) if cnt else (), val, x=None)
                    outs.append((val, s2))
            else:
                self.emit(s, fr, n, 'new' if place is None else 'pnew', n.get('atr') or n.get('at', ''), tgt if place is not None else None,
                          (cnt,) if cnt else (), val, x={'array': True} if n.get('array') else None)
                outs.append((val, s))
        return outs

    def construct(self, n, st, fr, loc, cls):
        """construct an object at loc from initializer expression n; returns states"""
        res = []
        if n['k'] == 'ctor':
            return self.do_ctor(n, st, fr, loc)
        if n.get('lv'):
            for l, s in self.lval(n, st, fr):
                if not s.exc:
                    self.copy_obj(s, l, loc)
                res.append(s)
            return res
        for v, s in self.ev(n, st, fr):
            if not s.exc:
                self.store_obj(s, loc, v)
            res.append(s)
        return res

    def e_delete(self, n, st, fr):
        out = []
        for v, s in self.ev(n['a'], st, fr):
            if not s.exc:
                dt = n.get('dtr')
                if dt in self.cfg.inline_dtors:
                    for s2 in self.run_dtor(dt, self.deref(v), s, fr, n):
                        self.emit(s2, fr, n, 'delete', dt or n.get('dt', ''), None, (v,), x={'array': True} if n.get('array') else None)
                        out.append((('void',), s2))
                    continue
                self.emit(s, fr, n, 'delete', n.get('dtr') or n.get('dt', ''), None, (v,), x={'array': True} if n.get('array') else None)
            out.append((('void',), s))
        return out

    # ------------------------------------------------------------- lvalues
    def accessed(self, l, n, s, fr):
        if self.cfg.reads and l[0] == 'f' and l[2] in self.cfg.reads:
            self.emit(s, fr, n, 'access', l[2], l, ())
        return l

    def lval(self, n, st, fr):
        k = n['k']
        if k == 'ref':
            if 'fn' in n:
                self.fnloc[n['qn']] = n['fn']
                return [(('g', n['qn']), st)]
            if n.get('glob'):
                return [(self.resolve_alias(st, ('g', n['dq'])), st)]
            l = ('v', fr.id, n['d'], n['n'])
            r = self.resolve_alias(st, l)
            if self.cfg.reads and r is not l and r[0] == 'f' and r[2] in self.cfg.reads:
                self.emit(st, fr, n, 'access', r[2], r, ())
            return [(r, st)]
        if k == 'mem':
            if n.get('glob'):
                out = []
                for _, s in self.arg(n['b'], st, fr) if n['b']['k'] not in ('this',) else [(None, st)]:
                    out.append((('g', n['dq']), s))
                return out
            out = []
            if n.get('arrow'):
                for v, s in self.ev(n['b'], st, fr):
                    if s.exc:
                        out.append((v, s))
                        continue
                    out.append((self.resolve_alias(s, self.accessed(self.fld(self.deref(v), n), n, s, fr)), s))
                return out
            for l, s in self.lval(n['b'], st, fr):
                if s.exc:
                    out.append((l, s))
                    continue
                out.append((self.resolve_alias(s, self.accessed(self.fld(l, n), n, s, fr)), s))
            return out
        if k == 'un':
            if n['op'] == '*':
                return [(self.resolve_alias(s, self.deref(v)) if not s.exc else v, s) for v, s in self.ev(n['a'], st, fr)]
            if n['op'] in ('++', '--') and not n.get('post'):
                out = []
                for l, s in self.lval(n['a'], st, fr):
                    if not s.exc:
                        self.put(s, l, lin_add(self.read(s, l, n.get('t')), ('c', 1 if n['op'] == '++' else -1)), fr, n)
                    out.append((l, s))
                return out
        if k == 'idx':
            out = []
            for vs, s in self.evs([n['a'], n['b']], st, fr):
                if s.exc:
                    out.append((('undef',), s))
                    continue
                b, i = vs
                if b[0] == 'loc':
                    bl = b[1]
                else:
                    bl = self.deref(b)
                out.append((('i', bl, i), s))
            return out
        if k == 'bin' and n.get('asg'):
            return self.assign(n, st, fr)
        if k == 'bin' and n['op'] == ',':
            out = []
            for v, s in self.arg(n['a'], st, fr):
                if s.exc:
                    out.append((v, s))
                else:
                    out.extend(self.lval(n['b'], s, fr))
            return out
        if k == 'cond':
            out = []
            for v, s in self.ev(n['q'], st, fr):
                if s.exc:
                    out.append((v, s))
                    continue
                for tv, s2 in self.split(v, s):
                    out.extend(self.lval(n['a' if tv else 'b'], s2, fr))
            return out
        if k == 'cast':
            a = n['a']
            if n.get('lv') or a.get('lv'):
                return self.lval(a, st, fr)
        if k == 'mat':
            t = ('t', fr.id, n['_i'], n.get('l', 0))
            out = []
            a = n['a']
            self.drop_prefix(st, t)
            if a['k'] == 'ctor':
                return [(t, s) for s in self.do_ctor(a, st, fr, t)]
            for v, s in self.ev(a, st, fr):
                if not s.exc:
                    self.store_obj(s, t, v)
                out.append((t, s))
            return out
        if k in ('call', 'mcall'):
            out = []
            for v, s in self.call(n, st, fr):
                if s.exc:
                    out.append((v, s))
                elif v[0] == 'loc':
                    out.append((self.resolve_alias(s, v[1]), s))
                elif n.get('lv'):
                    out.append((self.deref(v), s))
                else:
                    t = ('t', fr.id, n['_i'], n.get('l', 0))
                    if v[0] == 'rv' and v[1] == t:
                        out.append((t, s))
                    else:
                        self.drop_prefix(s, t)
                        self.store_obj(s, t, v)
                        out.append((t, s))
            return out
        if k == 'str':
            return [(('strl', n.get('v', '')), st)]
        if k == 'ilist' and n.get('lv') and len(n.get('a', [])) == 1:
            return self.lval(n['a'][0], st, fr)
        # prvalue used as an object
        t = ('t', fr.id, n.get('_i', 0), n.get('l', 0))
        out = []
        if k == 'ctor':
            self.drop_prefix(st, t)
            return [(t, s) for s in self.do_ctor(n, st, fr, t)]
        for v, s in self.ev(n, st, fr):
            if not s.exc:
                if not (v[0] == 'rv' and v[1] == t):
                    self.drop_prefix(s, t)
                    self.store_obj(s, t, v)
            out.append((t, s))
        return out

    def fld(self, base, n):
        return ('f', base, n['dq'])

    def assign(self, n, st, fr):
        op = n['op']
        out = []
        for v, s in self.arg(n['b'], st, fr):
            if s.exc:
                out.append((v, s))
                continue
            for l, s2 in self.lval(n['a'], s, fr):
                if s2.exc:
                    out.append((l, s2))
                    continue
                w = v
                if w[0] == 'loc':
                    w = self.content(s2, w[1])
                if op != '=':
                    old = self.read(s2, l, n['a'].get('t'))
                    w = self.arith(op[:-1], old, w, n.get('t'), s2)
                if w[0] == 'rv':
                    self.store_obj(s2, l, w)
                else:
                    self.put(s2, l, w, fr, n)
                out.append((l, s2))
        return out

    # ------------------------------------------------------------- constructors
    def e_ctor(self, n, st, fr):
        t = ('t', fr.id, n['_i'], n.get('l', 0))
        self.drop_prefix(st, t)
        out = []
        content_cls = self.is_content(n.get('cls') or n.get('tr'))
        for s in self.do_ctor(n, st, fr, t):
            if s.exc:
                out.append((('undef',), s))
            elif content_cls and not any(l != t and has_prefix(l, t) for l in s.cells if l[0] in ('f', 'i')):
                v = self.read(s, t)
                self.drop_prefix(s, t)
                out.append((v, s))
            else:
                out.append((('rv', t), s))
        return out

    def is_content(self, cls):
        if not cls:
            return True
        if cls in HANDLES:
            return self.cfg.handles
        if cls == 'std::pair' or cls in ('std::tuple',):
            return False
        return cls.startswith('std::') or cls.startswith('__gnu_cxx::')

    def strip(self, n):
        while isinstance(n, dict) and n.get('k') in ('mat',) and isinstance(n.get('a'), dict):
            n = n['a']
        return n

    def do_ctor(self, n, st, fr, loc):
        cls = n.get('cls') or n.get('tr', '')
        if n.get('t', '').endswith(']'):
            return [st]
        outs = []
        if (n.get('copy') or n.get('move')) and len(n['args']) >= 1 and not n.get('trivial'):
            pass
        for vs, s in self.evs(n['args'], st, fr):
            if s.exc:
                outs.append(s)
                continue
            outs.extend(self.ctor_apply(n, s, fr, loc, cls, vs))
        return outs

    def take(self, st, v, moved):
        """class value of an argument; optionally marks the source moved-from"""
        if v[0] == 'loc':
            w = self.content(st, v[1])
            if moved:
                l = self.resolve_alias(st, v[1])
                if l[0] != 't':
                    self.clear_sub(st, l)
                    self.write(st, l, ('moved', w))
            return w
        if v[0] == 'rv':
            return self.content(st, v[1])
        return v

    def ctor_apply(self, n, st, fr, loc, cls, vs):
        pf = n.get('pf', '')
        if cls in LOCKS:
            if vs and vs[0][0] == 'loc':
                st.locks = st.locks + ((LOCKS[cls], vs[0][1], loc),)
                self.emit(st, fr, n, 'lock', cls, vs[0][1], (('str', LOCKS[cls]),))
                st.scope = st.scope + (('lock', loc, cls),)
            self.write(st, loc, ('lock',))
            return [st]
        if cls in HANDLES and self.cfg.handles:
            if cls == 'salticidae::EventContext' and not vs:
                v = self.sym(fr, n, 'EventContext')
            elif not vs:
                v = ('null',)
            else:
                v = self.take(st, vs[0], pf[:1] == 'x')
            self.clear_sub(st, loc)
            self.write(st, loc, v)
            self.emit_objwrite(st, fr, n, loc, v)
            return [st]
        if cls == 'std::pair':
            if len(vs) == 2:
                self.clear_sub(st, loc)
                self.write(st, loc, ('pair',))
                for nm, v, m in (('first', vs[0], pf[:1] == 'x'), ('second', vs[1], pf[1:2] == 'x')):
                    self.store_obj(st, ('f', loc, 'std::pair::' + nm), self.take(st, v, m))
                return [st]
            if len(vs) == 1:
                if vs[0][0] in ('loc', 'rv'):
                    self.copy_obj(st, vs[0][1], loc)
                else:
                    self.store_obj(st, loc, vs[0])
                return [st]
            self.write(st, loc, ('pair0',))
            return [st]
        if cls in ('std::atomic', 'std::__atomic_base') or (cls or '').startswith('std::atomic'):
            v = self.take(st, vs[0], False) if vs else ('undef',)
            self.write(st, loc, ('atom', v))
            self.emit(st, fr, n, 'atomic', 'init', loc, (v,))
            return [st]
        if cls == 'std::function':
            v = self.take(st, vs[0], False) if vs else ('null',)
            self.clear_sub(st, loc)
            self.write(st, loc, v)
            return [st]
        if self.is_content(cls):
            if n.get('copy') or n.get('move') and vs:
                v = self.take(st, vs[0], bool(n.get('move')))
            elif not vs:
                v = ('ap', cls + '::(ctor)', ())
            else:
                a = tuple(self.take(st, x, False) for x in vs)
                if cls.endswith('iterator') and len(a) == 1:
                    v = a[0]
                else:
                    v = ('ap', cls + '::(ctor)', a)
                    if cls in ('std::thread', 'std::unique_ptr'):
                        self.emit(st, fr, n, 'call', cls + '::(ctor)', loc, a)
            self.clear_sub(st, loc)
            self.write(st, loc, v)
            return [st]
        fn = self.p.functions.get(n.get('fn'))
        deep = cls in HANDLES and fn is not None and fn.inits and fn.body is not None     # (handles analysed, not modelled)
        if (n.get('copy') or n.get('move')) and vs and not deep and (fn is None or fn.defaulted or cls in self.cfg.opaque_classes
                                                       or cls in self.cfg.abstract or cls.startswith('std::')):
            src = vs[0]
            if cls in self.cfg.opaque_classes:
                vals = tuple(self.content(st, a[1]) if a[0] in ('loc', 'rv') else a for a in vs)
                self.emit(st, fr, n, 'call', n['qn'], loc, vs, x={'copy': n.get('copy'), 'move': n.get('move'), 'vals': vals})
            if src[0] in ('loc', 'rv'):
                self.copy_obj(st, src[1], loc)
            else:
                self.store_obj(st, loc, src)
            self.emit_objwrite(st, fr, n, loc, self.read(st, loc))
            return [st]
        if cls in self.cfg.opaque_classes or cls in self.cfg.abstract or fn is None or (fn.body is None and not fn.inits) or self.is_opaque(fn):
            v = ('s', fr.id, n['_i'], cls.rsplit('::', 1)[-1], n.get('l', 0))
            self.clear_sub(st, loc)
            if cls in self.cfg.abstract:
                v = ('ap', cls + '::(ctor)', tuple(self.take(st, x, False) for x in vs))
            seen = fn is not None or not n.get('default') or cls in self.cfg.opaque_classes
            if seen:
                a = tuple(self.take(st, x, False) for x in vs)
                self.emit(st, fr, n, 'call', n['qn'], loc, a, v, x={'vals': a})
            self.write(st, loc, v)
            return self.throws(st, fr, n) if seen else [st]
        if fn.fn in fr.fnids and fr.depth > 12 or fr.depth > 60:
            self.emit(st, fr, n, 'call', n['qn'], loc, vs, x={'rec': True})
            return [st]
        res = []
        if not n.get('part'):       # (a base part is built inside an object under construction)
            self.clear_sub(st, loc)
        for v, s in self.inline(fn, n, st, fr, loc, vs):
            res.append(s)
        return res

    def emit_objwrite(self, st, fr, n, loc, v):
        if loc_root(loc)[0] not in ('v', 't'):
            self.emit(st, fr, n, 'write', loc[2] if loc[0] == 'f' else '', loc, (v,))

    def throws(self, st, fr, n):
        """states after an event that may throw according to the configuration"""
        if st.tr is None:
            return [st]
        ts = self.cfg.may_throw(st.tr.ev)
        if not ts:
            return [st]
        out = [st]
        for t in ts:
            s = st.clone()
            self.emit(s, fr, n, 'throw', t, None, (), x={'ext': True})
            s.exc = (t, (fr.qn, n.get('l', 0)))
            out.append(s)
        return out

    # ------------------------------------------------------------- calls
    def e_call(self, n, st, fr):
        out = []
        for v, s in self.call(n, st, fr):
            if not s.exc and v[0] == 'loc' and not n.get('lv'):
                v = self.content(s, v[1])
            out.append((v, s))
        return out

    e_mcall = e_call

    def call(self, n, st, fr):
        qn = n.get('qn', '')
        if qn.startswith('salticidae::Logger::') and not self.cfg.logs:
            return [(('void',), st)]
        if n.get('noret') and n['k'] == 'call':
            self.emit(st, fr, n, 'call', qn, None, ())
            st.exc = ('$noret', None)
            if qn == 'std::rethrow_exception':
                st.exc = ('?', (fr.qn, n.get('l', 0)))
            return [(('undef',), st)]
        if qn.endswith('::operator basic_string') or qn == 'std::to_string':
            return [(('ap', qn, ()), st)]
        out = []
        if n['k'] == 'mcall' and 'obj' in n:
            for o, s in self.mobj(n, st, fr):
                if s.exc:
                    out.append((('undef',), s))
                    continue
                for vs, s2 in self.evs(n['args'], s, fr):
                    if s2.exc:
                        out.append((('undef',), s2))
                        continue
                    out.extend(self.apply(n, s2, fr, o, vs))
        elif 'callee' in n and not qn:
            for vs, s in self.evs([n['callee']] + n['args'], st, fr):
                if s.exc:
                    out.append((('undef',), s))
                    continue
                out.extend(self.icall(n, s, fr, vs[0], vs[1:]))
        else:
            for vs, s in self.evs(n['args'], st, fr):
                if s.exc:
                    out.append((('undef',), s))
                    continue
                out.extend(self.apply(n, s, fr, None, vs))
        return self.merge(out)

    def mobj(self, n, st, fr):
        o = n['obj']
        if n.get('arrow'):
            return [(self.resolve_alias(s, self.deref(v)) if not s.exc else v, s) for v, s in self.ev(o, st, fr)]
        return self.lval(o, st, fr)

    def icall(self, n, st, fr, f, vs, src=None):
        """call through a function value"""
        fld = None
        cal = n.get('callee')
        if cal is not None:
            x = cal
            while x.get('k') in ('load', 'cast', 'un') and isinstance(x.get('a'), dict):
                x = x['a']
            if x.get('k') == 'mem':
                fld = x.get('dq')
            elif x.get('k') == 'ref':
                fld = x.get('n')
        if f[0] == 'loc':
            f = self.content(st, f[1])
        if f[0] == 'fn' and f[1] in self.p.functions and self.p.functions[f[1]].body is not None and not self.is_opaque(self.p.functions[f[1]]):
            g = self.p.functions[f[1]]
            if g.fn not in fr.fnids:
                return self.inline(g, n, st, fr, None, vs)
        if f[0] == 'lam':
            return self.inline_lambda(f, n, st, fr, vs)
        if f[0] == 'bind':
            r = self.call_bind(f, n, st, fr, vs)
            if r is not None:
                return r
        res = self.sym(fr, n, 'ret')
        self.emit(st, fr, n, 'icall', fld or '', src, vs, res, x={'callee': f})
        return [(res, s) for s in self.throws(st, fr, n)]

    def bind_target(self, b):
        """function and bound argument values of a std::bind value"""
        f = b[1][0]
        if f[0] == 'addr' and f[1][0] == 'g':
            f = self.read(St(), f[1])
        if f[0] != 'fn' or f[1] not in self.p.functions:
            return None, ()
        return self.p.functions[f[1]], b[1][1:]

    def call_bind(self, b, n, st, fr, vs):
        g, rest = self.bind_target(b)
        if g is None or g.body is None or self.is_opaque(g) or g.fn in fr.fnids:
            return None
        args = []
        for r in rest:
            m = [x for x in subterms(r) if x[0] == 'g' and x[1].rsplit('::', 1)[-1] in ('_1', '_2', '_3', '_4')]
            if m:
                i = int(m[0][1][-1]) - 1
                if i >= len(vs):
                    return None
                args.append(vs[i])
            else:
                args.append(r)
        obj = None
        if g.cls and not g.static:
            if not args:
                return None
            o = args.pop(0)
            obj = self.deref(self.content(st, o[1]) if o[0] in ('loc', 'rv') else o)
        return self.inline(g, n, st, fr, obj, args)

    def is_opaque(self, fn):
        if fn.cls in self.cfg.opaque_classes or fn.qn in self.cfg.opaque_fns or fn.cls in self.cfg.abstract:
            return True
        if fn.cls and any(b in self.cfg.opaque_classes for b in self.p.bases(fn.cls)) and fn.cls not in HANDLES:
            return True
        if self.cfg.inline_pred and not self.cfg.inline_pred(fn):
            return True
        return False

    def apply(self, n, st, fr, obj, vs):
        qn, cls = n.get('qn', ''), n.get('cls') or ''
        short = qn.rsplit('::', 1)[-1]
        # --- std utilities
        b = self.builtin(n, st, fr, obj, vs, qn, cls, short)
        if b is not None:
            return b
        if cls in HANDLES and self.cfg.handles:
            r = self.handle(n, st, fr, obj, vs, qn, short)
            if r is not None:
                return r
        if n.get('lam') and obj is not None:
            v = self.read(st, obj)
            if v[0] == 'lam':
                return self.inline_lambda(v, n, st, fr, vs)
            return self.icall(n, st, fr, v, vs, obj)
        if n.get('virt'):
            tgt = self.cfg.resolve(n, qn)
            if tgt is None:
                return self.opaque_call(n, st, fr, obj, vs, kind='vcall')
            fn = tgt
        else:
            fn = self.p.functions.get(n.get('fn'))
        if fn is None or (fn.body is None) or self.is_opaque(fn):
            if fn is not None and fn.defaulted and short == 'operator=' and not self.is_opaque(fn) and vs:
                return self.class_assign(n, st, fr, obj, vs)
            return self.opaque_call(n, st, fr, obj, vs)
        if fn.fn in fr.fnids or fr.depth > 60:
            return self.opaque_call(n, st, fr, obj, vs, x={'rec': True})
        return self.inline(fn, n, st, fr, obj, vs)

    def class_assign(self, n, st, fr, obj, vs):
        v = vs[0]
        pf = n.get('pf', '')
        if v[0] in ('loc', 'rv'):
            self.copy_obj(st, v[1], obj)
        else:
            self.store_obj(st, obj, v)
        self.emit_objwrite(st, fr, n, obj, self.read(st, obj))
        return [(('loc', obj), st)]

    def opaque_call(self, n, st, fr, obj, vs, kind='call', x=None):
        qn = n.get('qn', '')
        short = qn.rsplit('::', 1)[-1]
        pf = n.get('pf', '')
        rt = n.get('rt', 'void')
        args = []
        for i, v in enumerate(vs):
            m = pf[i:i + 1]
            if v[0] == 'rv':
                args.append(self.content(st, v[1]))
            elif v[0] == 'loc':
                args.append(v)
            else:
                args.append(v)
        args = tuple(args)
        isassign = short == 'operator=' and obj is not None
        res = self.sym(fr, n, short)
        # value view of the arguments
        vals = tuple(self.content(st, a[1]) if a[0] == 'loc' else a for a in args)
        newc = None
        if obj is not None and n.get('cls') in self.cfg.abstract and not isassign:
            # functional model: results and updates are terms over the object's previous content
            old = self.content(st, obj)
            res = ('ap', qn, (old,) + vals)
            self.settype(res, n.get('t'))
            if not n.get('const'):
                newc = ('ap', qn + "'", (old,) + vals)
        ex = {'vals': vals}
        if x:
            ex.update(x)
        behind = {i: self.content(st, a[1]) for i, a in enumerate(args) if a[0] == 'addr' and a[1][0] in ('v', 't')}
        if behind:
            ex['behind'] = behind       # (what the pointers to local objects point to)
        self.emit(st, fr, n, kind, qn, obj, args, res, x=ex)
        for i, v in enumerate(vs):
            m = pf[i:i + 1]
            if v[0] == 'loc' and m == 'r':
                l = self.resolve_alias(st, v[1])
                self.clear_sub(st, l)
                self.write(st, l, ('s', fr.id, n['_i'], 'out%d' % i, n.get('l', 0)))
            elif v[0] == 'loc' and m == 'x' and n.get('k') != 'ctor':
                l = self.resolve_alias(st, v[1])
                if l[0] != 't':
                    w = self.content(st, l)
                    self.clear_sub(st, l)
                    self.write(st, l, ('moved', w))
            elif v[0] == 'addr' and m == 'p':
                l = v[1]
                self.clear_sub(st, l)
                self.write(st, l, ('s', fr.id, n['_i'], 'out%d' % i, n.get('l', 0)))
        if newc is not None:
            self.clear_sub(st, obj)
            self.write(st, obj, newc)
        if isassign and vs:
            self.clear_sub(st, obj)
            self.write(st, obj, vals[0])
            self.emit_objwrite(st, fr, n, obj, vals[0])
        out = []
        for s in self.throws(st, fr, n):
            if isassign or (short in ('operator<<', 'operator>>') and n.get('lv') and obj is not None):
                out.append((('loc', obj), s))
            elif n.get('lv'):
                out.append((('loc', ('obj', res)), s))
            else:
                self.settype(res, n.get('t'))
                out.append((res, s))
        return out

    def inline_lambda(self, lam, n, st, fr, vs):
        _, site, line, nodeid, env, this, file, encl = lam
        ln = self.lams[nodeid]
        if fr.depth > 60:
            return self.opaque_call(n, st, fr, None, vs)
        f2 = self.frame(fr, ('l', n['_i'], nodeid), 'lam%d' % nodeid, encl + '::<lambda>', file, this)
        self.bind_env(st, f2, env)
        body, params = ln.get('body'), ln.get('params')
        if body is None:
            return self.opaque_call(n, st, fr, None, vs)
        self.bind_params(params, vs, st, f2, n)
        out = []
        for kind, s, v in self.ex(body, st, f2):
            out.append(self.finish_call(kind, s, v, f2, fr, n))
        return self.merge(out)

    def bind_params(self, params, vs, st, f2, n):
        for i, p in enumerate(params):
            l = ('v', f2.id, p['d'], p['n'])
            v = vs[i] if i < len(vs) else ('undef',)
            if p.get('ref'):
                if v[0] in ('loc', 'rv'):
                    st.cells[l] = ('alias', self.resolve_alias(st, v[1]))
                else:
                    self.store_obj(st, l, v)
            else:
                if v[0] == 'loc':
                    v = self.content(st, v[1])
                self.clear_sub(st, l)
                self.store_obj(st, l, v)

    def inline(self, fn, n, st, fr, obj, vs):
        self.inlined.add(fn.qn)
        if fn.qn in self.cfg.marks:
            vals = tuple(self.content(st, a[1]) if a[0] in ('loc', 'rv') else a for a in vs)
            self.emit(st, fr, n, 'enter', fn.qn, obj, vs, None, x={'vals': vals})
        f2 = self.frame(fr, n['_i'], fn.fn, fn.qn, fn.file, obj, fn.cls)
        self.drop_frame(st, f2.id)
        self.bind_params(fn.params, vs, st, f2, n)
        out = []
        for kind, s, v in self.exec_fn(fn, st, f2):
            out.append(self.finish_call(kind, s, v, f2, fr, n))
        return self.merge(out)

    def finish_call(self, kind, s, v, f2, fr, n):
        if kind == 'throw':
            if s.exc[0][0] != '$':
                self.drop_frame(s, f2.id)
            return (('undef',), s)
        if v is None:
            v = ('void',)
        if v[0] == 'rv':
            r = loc_root(v[1])
            if r[1:2] == (f2.id,):
                t = ('t', fr.id, n.get('_i', 0), n.get('l', 0))
                self.drop_prefix(s, t)
                self.store_obj(s, t, v)
                v = ('rv', t)
        self.drop_frame(s, f2.id)
        return (v, s)

    def exec_fn(self, fn, st, fr):
        outs = [('next', st, None)]
        if fn.kind == 'ctor':
            nxt = []
            for s in self.run_inits(fn, st, fr):
                nxt.append(('throw' if s.exc else 'next', s, None))
            outs = nxt
        res = []
        for kind, s, v in outs:
            if kind == 'throw':
                res.append((kind, s, v))
                continue
            if fn.body is None:
                res.append(('ret', s, None))
                continue
            for k2, s2, v2 in self.ex(fn.body, s, fr):
                res.append((k2 if k2 != 'next' else 'ret', s2, v2))
        if fn.kind == 'dtor' and fn.cls in self.cfg.inline_dtors:
            pass
        return self.merge3(res)

    def run_inits(self, fn, st, fr):
        cur = [st]
        this = fr.this
        for i in fn.inits:
            nxt = []
            for s in cur:
                if s.exc:
                    nxt.append(s)
                    continue
                e = i.get('e')
                if e is None:
                    nxt.append(s)
                    continue
                if 'm' in i:
                    loc = ('f', this, fn.cls + '::' + i['m'])
                    if e['k'] == 'ctor':
                        nxt.extend(self.do_ctor(e, s, fr, loc))
                        continue
                    if i.get('mt', '').endswith('&'):
                        for l, s2 in self.lval(e, s, fr):
                            if not s2.exc:
                                s2.cells[loc] = ('alias', l)
                            nxt.append(s2)
                        continue
                    for v, s2 in self.arg(e, s, fr):
                        if not s2.exc:
                            self.store_obj(s2, loc, v)
                            self.emit_objwrite(s2, fr, e, loc, self.read(s2, loc))
                        nxt.append(s2)
                else:
                    if e['k'] == 'ctor':
                        nxt.extend(self.do_ctor(dict(e, part=True) if 'base' in i else e, s, fr, this))
                    elif e['k'] in ('call', 'mcall') or True:
                        for v, s2 in self.arg(e, s, fr):
                            nxt.append(s2)
            cur = nxt
        return cur

    def run_dtor(self, cls, loc, st, fr, n, chain=()):
        out = [st]
        exact = [self.p.functions[x] for x in chain if x in self.p.functions]
        for c in self.p.bases(cls):
            dts = [f for f in exact if f.cls == c and f.body is not None] or \
                [f for f in self.p.functions.values() if f.cls == c and f.kind == 'dtor' and f.body is not None]
            if not dts:
                continue
            nxt = []
            for s in out:
                if s.exc:
                    nxt.append(s)
                    continue
                if c in self.cfg.inline_dtors:
                    for v, s2 in self.inline(dts[0], dict(n, _i=n.get('_i', 0)), s, fr, loc, ()):
                        nxt.append(s2)
                else:
                    self.emit(s, fr, n, 'dtor', c, loc, ())
                    nxt.append(s)
            out = nxt
        return out

    # ------------------------------------------------------------- builtins
    def handle(self, n, st, fr, obj, vs, qn, short):
        if short in ('get', 'operator->'):
            return [(self.read(st, obj), st)]
        if short == 'operator*':
            return [(('loc', self.resolve_alias(st, self.deref(self.read(st, obj)))), st)]
        if short.startswith('operator bool') or short == 'operator bool':
            return [(truth(self.read(st, obj)), st)]
        if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a = self.read(st, obj)
            b = self.content(st, vs[0][1]) if vs[0][0] in ('loc', 'rv') else vs[0]
            return [(self.compare(short[8:], a, b, st), st)]
        if short == 'unwrap':
            v = self.read(st, obj)
            self.write(st, obj, ('null',))
            self.emit(st, fr, n, 'call', qn, obj, (), v)
            return [(v, st)]
        if short == 'operator=':
            pf = n.get('pf', '')
            v = self.take(st, vs[0], pf[:1] == 'x')
            self.clear_sub(st, obj)
            self.write(st, obj, v)
            self.emit_objwrite(st, fr, n, obj, v)
            return [(('loc', obj), st)]
        if short == 'operator[]':
            return [(('loc', ('i', self.deref(self.read(st, obj)), vs[0])), st)]
        if short == 'swap':
            self.swap(st, obj, vs[0][1])
            return [(('void',), st)]
        if short == 'get_cnt':
            return [(self.sym(fr, n, 'get_cnt'), st)]
        if short.startswith('~') or short == '(dtor)':
            return [(('void',), st)]
        return None

    def swap(self, st, a, b):
        a, b = self.resolve_alias(st, a), self.resolve_alias(st, b)
        t = ('tmpswap',)
        va, vb = self.content(st, a), self.content(st, b)
        self.store_obj(st, a, vb)
        self.store_obj(st, b, va)

    def builtin(self, n, st, fr, obj, vs, qn, cls, short):
        if qn in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::as_const'):
            v = vs[0]
            return [(v, st)]
        if qn == 'std::swap' and len(vs) == 2:
            tr = None
            a0 = n['args'][0]
            rc = a0.get('tr') or ''
            if rc in self.p.rec_by_qn and rc not in HANDLES and rc not in self.cfg.opaque_classes and rc not in self.cfg.abstract \
                    and self.p.is_base(rc):
                # a base part: its own members only
                for c in self.p.bases(rc):
                    for fl in self.p.rec_by_qn[c].get('fields', ()) if c in self.p.rec_by_qn else ():
                        la, lb = [('f', self.resolve_alias(st, v[1]), c + '::' + fl['n']) for v in vs]
                        self.swap(st, la, lb)
                        for l in (la, lb):
                            self.emit_objwrite(st, fr, n, l, self.read(st, l))
                return [(('void',), st)]
            self.swap(st, vs[0][1], vs[1][1])
            for l in (vs[0][1], vs[1][1]):
                l = self.resolve_alias(st, l)
                self.emit_objwrite(st, fr, n, l, self.read(st, l))
            return [(('void',), st)]
        if qn in ('std::make_pair',):
            t = ('t', fr.id, n['_i'], n.get('l', 0))
            self.drop_prefix(st, t)
            self.write(st, t, ('pair',))
            for nm, v in (('first', vs[0]), ('second', vs[1])):
                self.store_obj(st, ('f', t, 'std::pair::' + nm), self.take(st, v, False))
            return [(('rv', t), st)]
        if qn in ('std::min', 'std::max') and len(vs) == 2:
            a, b = (self.content(st, v[1]) if v[0] in ('loc', 'rv') else v for v in vs)
            p = self.compare('<=' if qn == 'std::min' else '>=', a, b, st)
            return [((vs[0] if tv else vs[1]), s) for tv, s in self.split(p, st)]
        if qn in ('std::bind',) or short == 'generic_bind':
            return [(('bind', tuple(self.content(st, v[1]) if v[0] in ('loc', 'rv') else v for v in vs)), st)]
        if qn == 'std::current_exception':
            return [(('ap', qn, ()), st)]
        if short == 'static_pointer_cast' and qn.startswith('salticidae') and self.cfg.handles:
            return [(self.take(st, vs[0], n.get('pf', '')[:1] == 'x'), st)]
        if cls.startswith('std::atomic') or cls == 'std::__atomic_base':
            return self.atomic(n, st, fr, obj, vs, short)
        if cls in LOCKS:
            if short == 'unlock':
                m = [l for l in st.locks if l[2] == obj]
                st.locks = tuple(l for l in st.locks if l[2] != obj)
                self.emit(st, fr, n, 'unlock', qn, m[0][1] if m else None, ())
                return [(('void',), st)]
            if short == 'lock':
                self.emit(st, fr, n, 'call', qn, obj, ())
                return [(('void',), st)]
        if cls == 'std::function':
            if short == 'operator()':
                v = self.read(st, obj)
                if v[0] == 'lam':
                    return self.inline_lambda(v, n, st, fr, vs)
                if v[0] == 'bind':
                    r = self.call_bind(v, n, st, fr, vs)
                    if r is not None:
                        return r
                res = self.sym(fr, n, 'ret')
                self.settype(res, n.get('t'))
                l = obj
                nm = l[2] if l[0] == 'f' else (l[3] if l[0] == 'v' and len(l) > 3 else '')
                vals = tuple(self.content(st, a[1]) if a[0] in ('loc', 'rv') else a for a in vs)
                self.emit(st, fr, n, 'icall', nm, obj, vs, res, x={'callee': v, 'vals': vals})
                return [(res, s) for s in self.throws(st, fr, n)]
            if short == 'operator bool':
                return [(truth(self.read(st, obj)), st)]
            if short == 'operator=':
                v = self.take(st, vs[0], n.get('pf', '')[:1] == 'x')
                self.clear_sub(st, obj)
                self.write(st, obj, v)
                self.emit_objwrite(st, fr, n, obj, v)
                return [(('loc', obj), st)]
        # free comparison/arithmetic operators on std iterators, strings, ...
        if short.startswith('operator') and (qn.startswith('std::operator') or qn.startswith('__gnu_cxx::operator') or qn.startswith('std::__detail::operator')):
            op = short[8:]
            a = [self.content(st, v[1]) if v[0] in ('loc', 'rv') else v for v in vs]
            if len(a) == 2 and op in ('==', '!=', '<', '>', '<=', '>='):
                return [(self.compare(op, a[0], a[1], st), st)]
            if len(a) == 2 and op in ('+', '-') and 'string' not in n.get('t', ''):
                return [(lin_add(a[0], a[1], 1 if op == '+' else -1), st)]
            return [(('ap', qn, tuple(a)), st)]
        if (cls.startswith('std::') or cls.startswith('__gnu_cxx::')) and obj is not None:
            return self.std_method(n, st, fr, obj, vs, qn, cls, short)
        return None

    def std_method(self, n, st, fr, obj, vs, qn, cls, short):
        V = self.read(st, obj)
        a = tuple(self.content(st, v[1]) if v[0] in ('loc', 'rv') else v for v in vs)
        if 'iterator' in cls:
            if short in ('operator*', 'operator->'):
                l = self.resolve_alias(st, ('obj', V))
                return [((('loc', l) if short == 'operator*' else V), st)]
            if short in ('operator++', 'operator--', 'operator+=', 'operator-='):
                d = ('c', 1) if short in ('operator++', 'operator--') else a[0]
                nv = lin_add(V, d, -1 if '-' in short else 1)
                self.write(st, obj, nv)
                if n.get('lv'):
                    return [(('loc', obj), st)]
                return [(V, st)]
            if short in ('operator+', 'operator-'):
                return [(lin_add(V, a[0], 1 if short == 'operator+' else -1), st)]
            if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                return [(self.compare(short[8:], V, a[0], st), st)]
            if short == 'operator[]':
                return [(('loc', ('obj', lin_add(V, a[0]))), st)]
            if short == 'operator=':
                self.write(st, obj, a[0])
                return [(('loc', obj), st)]
            if short == 'base':
                return [(V, st)]
        if cls == 'std::unique_ptr' and V[0] == 'ap' and V[1] == 'std::unique_ptr::(ctor)':
            h = V[2][0] if V[2] else ('null',)
            if short in ('get', 'operator->'):
                return [(h, st)]
            if short == 'operator*':
                return [(('loc', self.resolve_alias(st, ('obj', h))), st)]
            if short == 'operator bool':
                return [(truth(h), st)]
            if short == 'release':
                self.emit(st, fr, n, 'call', qn, obj, (), h, x={'vals': (), 'pre': V})
                self.write(st, obj, ('null',))
                return [(h, st)]
        if short == 'operator=' and vs:
            v = self.take(st, vs[0], n.get('pf', '')[:1] == 'x')
            self.clear_sub(st, obj)
            self.write(st, obj, v)
            self.emit_objwrite(st, fr, n, obj, v)
            return [(('loc', obj), st)]
        if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(a) == 1:
            return [(self.compare(short[8:], V, a[0], st), st)]
        if cls == 'std::exception_ptr':
            return [(truth(V) if 'bool' in short else V, st)]
        if short in ('front', 'back'):
            return [(('loc', ('i', obj, ('ap', short, (V,)))), st)]
        if short in ('operator[]', 'at') and n.get('lv'):
            if cls in ('std::unordered_map', 'std::map') and short == 'operator[]':
                self.emit(st, fr, n, 'call', qn, obj, a, None, x={'vals': a})
            return [(('loc', ('i', obj, a[0])), st)]
        if short == 'empty' and not vs:
            p = ('in', ((('ap', 'size', (V,)), 1),), 0, 0)
            return [(p, st)]
        if short == 'length' and not vs:
            short = 'size'
        if (n.get('const') or short in PURE) and cls not in ('std::condition_variable', 'std::mutex', 'std::thread'):
            if n.get('lv'):
                return [(('loc', ('obj', ('ap', short, (V,) + a))), st)]
            t = ('ap', {'cbegin': 'begin', 'cend': 'end'}.get(short, short), (V,) + a)
            self.settype(t, n.get('t'))
            if short in ('count', 'find'):
                self.emit(st, fr, n, 'call', qn, obj, a, t, x={'vals': a})
            return [(t, s) for s in self.throws(st, fr, n)] if short in ('count', 'find', 'at') else [(t, st)]
        # mutator
        res = self.sym(fr, n, short)
        self.settype(res, n.get('t'))
        pre = V
        self.emit(st, fr, n, 'call', qn, obj, tuple(vs), res, x={'vals': a, 'pre': pre})
        if cls not in ('std::condition_variable', 'std::mutex', 'std::shared_timed_mutex', 'std::thread', 'std::exception'):
            for i, v in enumerate(vs):
                if n.get('pf', '')[i:i + 1] == 'x' and v[0] == 'loc':
                    self.take(st, v, True)
                elif n.get('pf', '')[i:i + 1] == 'r' and v[0] == 'loc':
                    l = self.resolve_alias(st, v[1])
                    self.clear_sub(st, l)
                    self.write(st, l, ('s', fr.id, n['_i'], 'out%d' % i, n.get('l', 0)))
            self.clear_sub(st, obj)
            if short == 'swap' and vs and vs[0][0] == 'loc':
                self.write(st, obj, V)
                self.swap(st, obj, vs[0][1])
            elif short == 'clear':
                self.write(st, obj, ('ap', 'clear', ()))
            else:
                self.write(st, obj, ('ap', short, (V,) + a))
        out = []
        for s in self.throws(st, fr, n):
            out.append((('loc', ('obj', res)) if n.get('lv') else res, s))
        return out

    def atomic(self, n, st, fr, obj, vs, short):
        a = tuple(self.content(st, v[1]) if v[0] in ('loc', 'rv') else v for v in vs)
        t = n.get('t')
        if short == 'load' or (short.startswith('operator ') and not vs):
            r = self.sym(fr, n, 'load')
            self.settype(r, t)
            order = a[0] if a else ('c', 5)
            self.emit(st, fr, n, 'atomic', 'load', obj, (order,), r)
            return [(r, st)]
        if short in ('store', 'operator='):
            order = a[1] if len(a) > 1 else ('c', 5)
            self.write(st, obj, ('atom', a[0]))
            self.emit(st, fr, n, 'atomic', 'store', obj, (a[0], order))
            return [((a[0] if short == 'operator=' else ('void',)), st)]
        if short == 'exchange':
            r = self.sym(fr, n, 'xchg')
            self.settype(r, t)
            self.write(st, obj, ('atom', a[0]))
            self.emit(st, fr, n, 'atomic', 'exchange', obj, (a[0], a[1] if len(a) > 1 else ('c', 5)), r)
            return [(r, st)]
        if short in ('compare_exchange_weak', 'compare_exchange_strong'):
            out = []
            exp = a[0]
            for ok in (1, 0):
                s = st.clone() if ok else st
                if ok:
                    self.write(s, obj, ('atom', a[1]))
                self.emit(s, fr, n, 'atomic', 'cas', obj, (exp, a[1]) + tuple(a[2:]), ('c', ok),
                          x={'weak': short.endswith('weak')})
                if not ok and vs[0][0] == 'loc':
                    r = self.sym(fr, n, 'casval')
                    self.write(s, self.resolve_alias(s, vs[0][1]), r)
                out.append((('c', ok), s))
            return out
        ops = {'fetch_add': 1, 'fetch_sub': -1, 'operator++': 1, 'operator--': -1, 'operator+=': 1, 'operator-=': -1}
        if short in ops:
            r = self.sym(fr, n, 'old')
            self.settype(r, t)
            if short in ('operator++', 'operator--'):
                amt, order = ('c', 1), ('c', 5)
                post = len(vs) == 1
            else:
                amt, order = a[0], (a[1] if len(a) > 1 else ('c', 5))
                post = short.startswith('fetch')
            d = amt if ops[short] > 0 else lin_add(('c', 0), amt, -1)
            self.write(st, obj, ('atom', r))
            self.emit(st, fr, n, 'atomic', 'rmw', obj, (d, order), r)
            return [((r if post else lin_add(r, d)), st)]
        r = self.sym(fr, n, short)
        self.emit(st, fr, n, 'atomic', short, obj, a, r)
        return [(r, st)]

    # ------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        """-> list of (kind, st, val); kind in next/break/continue/ret/throw"""
        self.steps += 1
        if self.steps > 3000000:
            raise AnalysisBroken('step limit exceeded in %s' % fr.stack[0])
        if n is None:
            return [('next', st, None)]
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st, fr)
        out = []
        for v, s in self.arg(n, st, fr):
            out.append(('throw' if s.exc else 'next', s, None))
        return out

    def s_nop(self, n, st, fr):
        return [('next', st, None)]

    def s_break(self, n, st, fr):
        return [('break', st, None)]

    def s_continue(self, n, st, fr):
        return [('continue', st, None)]

    def s_goto(self, n, st, fr):
        raise AnalysisBroken('goto in %s' % fr.qn)

    def s_label(self, n, st, fr):
        return self.ex(n['a'], st, fr)

    def s_blk(self, n, st, fr):
        mark = len(st.scope)
        cur = [st]
        done = []
        for x in n['s']:
            nxt = []
            for s in cur:
                for kind, s2, v in self.ex(x, s, fr):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v))
            cur = [s for _, s in self.merge([(0, s) for s in nxt])]
            if not cur:
                break
        outs = done + [('next', s, None) for s in cur]
        return self.merge3(self.leave(outs, mark, fr, n))

    def leave(self, outs, mark, fr, n):
        res = []
        for kind, s, v in outs:
            if kind == 'throw' and s.exc[0][0] == '$':
                res.append((kind, s, v))
                continue
            states = [s]
            while states and len(states[0].scope) > mark:
                nxt = []
                for s1 in states:
                    what, loc, cls = s1.scope[-1][:3]
                    chain = s1.scope[-1][3] if len(s1.scope[-1]) > 3 else ()
                    s1.scope = s1.scope[:-1]
                    if what == 'lock':
                        m = [l for l in s1.locks if l[2] == loc]
                        if m:
                            s1.locks = tuple(l for l in s1.locks if l[2] != loc)
                            self.emit(s1, fr, dict(n, l=n.get('el', n.get('l', 0))), 'unlock', cls, m[0][1], ())
                        nxt.append(s1)
                    else:
                        ex, s1.exc = s1.exc, None
                        for s2 in self.run_dtor(cls, loc, s1, fr, dict(n, l=n.get('el', n.get('l', 0))), chain):
                            if s2.exc is None:
                                s2.exc = ex
                            nxt.append(s2)
                states = nxt
            for s1 in states:
                res.append((kind, s1, v))
        return res

    def s_decl(self, n, st, fr):
        cur = [st]
        for v in n['v']:
            nxt = []
            for s in cur:
                if s.exc:
                    nxt.append(s)
                else:
                    nxt.extend(self.declare(v, s, fr))
            cur = nxt
        return [('throw' if s.exc else 'next', s, None) for s in cur]

    def declare(self, v, s, fr):
        l = ('v', fr.id, v['d'], v['n'])
        if v.get('static') or v.get('tls'):
            s.cells[l] = ('alias', ('g', '%s::%s' % (fr.qn, v['n'])))
            return [s]
        e = v.get('init')
        self.clear_sub(s, l)
        if v.get('ref'):
            out = []
            for loc, s2 in self.lval(e, s, fr):
                if not s2.exc:
                    s2.cells[l] = ('alias', loc)
                    if s2.wl is not None:
                        s2.wl.add(l)
                out.append(s2)
            return out
        s.cells.pop(l, None)
        if e is None:
            self.write(s, l, ('undef', l))
            return [s]
        out = []
        if e['k'] == 'ctor':
            if v.get('t', '').endswith(']'):
                self.write(s, l, ('undef', l))
                return [s]
            out = self.do_ctor(e, s, fr, l)
        else:
            for val, s2 in self.arg(e, s, fr):
                if not s2.exc:
                    self.store_obj(s2, l, val)
                out.append(s2)
        if v.get('tr') in self.cfg.inline_dtors:
            for s2 in out:
                if not s2.exc:
                    s2.scope = s2.scope + (('dtor', l, v['tr'], tuple(v.get('dts', ()))),)
        return out

    def s_ret(self, n, st, fr):
        if n.get('a') is None:
            return [('ret', st, None)]
        out = []
        a = n['a']
        if self.cfg.inline_dtors:
            b = a
            while b['k'] == 'mat' or b['k'] == 'ctor' and (b.get('move') or b.get('copy')) and len(b['args']) == 1:
                b = b['a'] if b['k'] == 'mat' else b['args'][0]
            if b['k'] == 'ref' and a['k'] == 'ctor':
                for l, s in self.lval(b, st, fr):
                    hit = [x for x in st.scope if x[0] == 'dtor' and x[1] == l]
                    if hit and not s.exc:       # the local itself becomes the result
                        s.scope = tuple(x for x in s.scope if x not in hit)
                        return [('ret', s, ('rv', l))]
        for v, s in self.arg(a, st, fr):
            if s.exc:
                out.append(('throw', s, None))
            else:
                out.append(('ret', s, v))
        return out

    def s_if(self, n, st, fr):
        out = []
        cur = [('next', st, None)]
        mark = len(st.scope)
        if n.get('init'):
            cur = self.ex(n['init'], st, fr)
        if n.get('cvar'):
            nxt = []
            for kind, s, v in cur:
                if kind != 'next':
                    nxt.append((kind, s, v))
                    continue
                for s2 in self.declare(n['cvar'], s, fr):
                    nxt.append(('throw' if s2.exc else 'next', s2, None))
            cur = nxt
        for kind, s, v in cur:
            if kind != 'next':
                out.append((kind, s, v))
                continue
            for c, s2 in self.cond(n['q'], s, fr):
                if s2.exc:
                    out.append(('throw', s2, None))
                    continue
                br = n['a'] if c else n.get('b')
                out.extend(self.ex(br, s2, fr))
        if n.get('init') or n.get('cvar'):
            out = self.leave(out, mark, fr, n)
        return self.merge3(out)

    def cond(self, q, st, fr):
        out = []
        for v, s in self.ev(q, st, fr):
            if s.exc:
                out.append((None, s))
            else:
                out.extend(self.split(v, s))
        # merge equal outcomes
        return self.merge(out)

    # loops -------------------------------------------------------------
    def loop(self, n, st, fr, once, hint):
        """once(st) -> list of (kind,st,val) with kind 'again' for the back edge"""
        mod = set()
        site = (fr.id, n['_i'])
        outer = st.wl
        for it in range(8):
            s0 = st.clone()
            s0.wl = set()
            entry = {l: s0.cells.get(l) for l in mod}
            self.havoc(s0, mod, site)
            self.emit(s0, fr, n, 'loop', hint, None, (), x={'entry': entry, 'site': site})
            outs = once(s0)
            new = set()
            for kind, s, v in outs:
                if s.wl:
                    new |= s.wl
            new = {l for l in new if not self.local_to(l, st)}
            if new <= mod:
                break
            mod |= new
        else:
            raise AnalysisBroken('loop fixpoint in %s' % fr.qn)
        res = []
        for kind, s, v in outs:
            if outer is not None:
                s.wl = (s.wl or set()) | outer
            else:
                s.wl = None
            if kind == 'again':
                self.emit(s, fr, n, 'backedge', hint, None, (), x={'next': {l: s.cells.get(l) for l in mod}, 'site': site})
                s.exc = ('$backedge', site)
                res.append(('throw', s, None))
            elif kind == 'break':
                res.append(('next', s, None))
            else:
                res.append((kind, s, v))
        return self.merge3(res)

    def local_to(self, l, st):
        """locations created inside the loop body (not existing before)"""
        r = loc_root(l)
        if r[0] == 't':
            return True
        if r[0] == 'v':
            return not any(loc_root(x) == r for x in st.cells)
        return False

    def havoc(self, st, mod, site):
        for l in mod:
            # a havocked whole object must not keep stale sub-cells
            v = st.cells.get(l)
            if v is not None and v[0] == 'alias':
                continue
            st.cells[l] = ('h', site, l)
            old = ('init', l)
            if old in self.ty:
                self.ty[('h', site, l)] = self.ty[old]
            elif v is not None and v in self.ty:
                self.ty[('h', site, l)] = self.ty[v]

    def s_while(self, n, st, fr):
        def once(s0):
            out = []
            cur = [s0]
            if n.get('cvar'):
                cur = self.declare(n['cvar'], s0, fr)
            for s1 in cur:
                for c, s in self.cond(n['q'], s1, fr):
                    if s.exc:
                        out.append(('throw', s, None))
                    elif not c:
                        out.append(('next', s, None))
                    else:
                        for kind, s2, v in self.ex(n['a'], s, fr):
                            out.append(('again' if kind in ('next', 'continue') else kind, s2, v))
            return self.merge3(out)
        return self.loop(n, st, fr, once, 'while')

    def s_do(self, n, st, fr):
        def once(s0):
            out = []
            for kind, s, v in self.ex(n['a'], s0, fr):
                if kind in ('next', 'continue'):
                    for c, s2 in self.cond(n['q'], s, fr):
                        if s2.exc:
                            out.append(('throw', s2, None))
                        else:
                            out.append(('again' if c else 'next', s2, None))
                else:
                    out.append((kind, s, v))
            return self.merge3(out)
        return self.loop(n, st, fr, once, 'do')

    def s_for(self, n, st, fr):
        mark = len(st.scope)
        pre = self.ex(n['init'], st, fr) if n.get('init') else [('next', st, None)]

        def once(s0):
            out = []
            conds = self.cond(n['q'], s0, fr) if n.get('q') else [(True, s0)]
            for c, s in conds:
                if s.exc:
                    out.append(('throw', s, None))
                elif not c:
                    out.append(('next', s, None))
                else:
                    for kind, s2, v in self.ex(n['a'], s, fr):
                        if kind in ('next', 'continue'):
                            if n.get('inc'):
                                for _, s3 in self.arg(n['inc'], s2, fr):
                                    out.append(('throw' if s3.exc else 'again', s3, None))
                            else:
                                out.append(('again', s2, None))
                        else:
                            out.append((kind, s2, v))
            return self.merge3(out)
        res = []
        for kind, s, v in pre:
            if kind != 'next':
                res.append((kind, s, v))
                continue
            res.extend(self.loop(n, s, fr, once, 'for'))
        return self.leave(res, mark, fr, n)

    def s_rfor(self, n, st, fr):
        out = []
        for rl, s in self.arg(n['r'], st, fr):
            if s.exc:
                out.append(('throw', s, None))
                continue
            base = rl[1] if rl[0] in ('loc', 'rv') else ('obj', rl)
            var = n['var']

            def once(s0, base=base):
                o = [('next', s0.clone(), None)]
                el = ('i', base, ('s', fr.id, n['_i'], 'elem', n.get('l', 0)))
                l = ('v', fr.id, var['d'], var['n'])
                if var.get('ref'):
                    s0.cells[l] = ('alias', el)
                else:
                    self.copy_obj(s0, el, l)
                for kind, s2, v in self.ex(n['a'], s0, fr):
                    o.append(('again' if kind in ('next', 'continue') else kind, s2, v))
                return self.merge3(o)
            out.extend(self.loop(n, s, fr, once, 'rfor'))
        return out

    def s_switch(self, n, st, fr):
        body = n['a']['s'] if n['a'] and n['a']['k'] == 'blk' else [n['a']]
        flat = []

        def add(x):
            if x['k'] in ('case', 'default'):
                flat.append((x['k'], x.get('v')))
                add(x['a'])
            else:
                flat.append(('s', x))
        for x in body:
            if x:
                add(x)
        out = []
        for q, s in self.ev(n['q'], st, fr):
            if s.exc:
                out.append(('throw', s, None))
                continue
            rest = s
            starts = []
            dead = False
            for i, (kd, v) in enumerate(flat):
                if kd == 'case':
                    p = self.compare('==', q, ('c', v), rest)
                    a = rest.clone()
                    if self.assume(a, p):
                        starts.append((i, a))
                    if not dead and not self.assume(rest, pred_not(p)):
                        dead = True
            dflt = [i for i, (kd, v) in enumerate(flat) if kd == 'default']
            if not dead:
                if dflt:
                    starts.append((dflt[0], rest))
                elif not n.get('allenum') or True:
                    out.append(('next', rest, None))
            for i, a in starts:
                cur = [a]
                for kd, x in flat[i:]:
                    if kd != 's':
                        continue
                    nxt = []
                    for c in cur:
                        for kind, s2, v in self.ex(x, c, fr):
                            if kind == 'next':
                                nxt.append(s2)
                            elif kind == 'break':
                                out.append(('next', s2, None))
                            else:
                                out.append((kind, s2, v))
                    cur = nxt
                out.extend(('next', c, None) for c in cur)
        return self.merge3(out)

    def s_try(self, n, st, fr):
        out = []
        mark = len(st.scope)
        self.trydepth += 1
        try:
            body = self.ex(n['a'], st, fr)
        finally:
            self.trydepth -= 1
        for kind, s, v in body:
            if kind != 'throw' or s.exc[0][0] == '$':
                out.append((kind, s, v))
                continue
            typ = s.exc[0]
            handled = False
            for h in n['h']:
                ct = h.get('ct')
                m = self.catches(ct, typ)
                if m is False:
                    continue
                s2 = s if m is True else s.clone()
                exc = s2.exc
                s2.exc = None
                old = s2.cur_exc
                s2.cur_exc = exc
                self.emit(s2, fr, dict(l=h['l']), 'catch', ct or '...', None, (('str', exc[0]),))
                if h.get('d') is not None:
                    s2.cells[('v', fr.id, h['d'], h.get('n', ''))] = ('alias', ('obj', ('exc', exc)))
                for k2, s3, v3 in self.ex(h['a'], s2, fr):
                    s3.cur_exc = old
                    out.append((k2, s3, v3))
                if m is True:
                    handled = True
                    break
            if not handled:
                out.append((kind, s, v))
        return self.merge3(out)

    def catches(self, ct, typ):
        if not ct:
            return True
        if typ == ct:
            return True
        if typ == '?':
            return None
        bs = self.p.bases(typ)
        if ct in bs:
            return True
        STD = {'std::runtime_error': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::logic_error': 'std::exception',
               'std::out_of_range': 'std::logic_error', 'std::ios_base::failure': 'std::exception', 'std::bad_alloc': 'std::exception',
               'std::length_error': 'std::logic_error'}
        frontier = list(bs) + [typ]
        while frontier:
            x = frontier.pop()
            if x == ct:
                return True
            if x in STD:
                frontier.append(STD[x])
            if x.startswith('std::') and x.split('::')[-1].startswith('failure') and ct == 'std::exception':
                return True
        return False
