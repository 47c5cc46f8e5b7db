"""Thread-role exploration of a network: every callback posted to a loop becomes its own analysis root.

Roles: USER (the user's event loop and API callers), DISP (the dispatcher thread), WORKER (a worker thread),
INIT (construction, before any thread exists), STOP (stopping/destroying).  Starting from the public API, each lambda
or bound function handed to a cross-thread call, event, timer or queue handler is analysed under the role of the loop
it is handed to.
"""
from .program import AnalysisBroken, rel
from .interp import Interp, Config, show, show_loc, subterms, loc_root

USER, DISP, WORKER, INIT, STOP = 'user', 'dispatcher', 'worker', 'init', 'stop'
NS = 'salticidae::'
EV_CLASSES = {NS + 'FdEvent', NS + 'TimerEvent', NS + 'TimedFdEvent', NS + 'SigEvent', NS + 'CheckEvent'}
ERRS = {NS + 'SalticidaeError::(ctor)'}


def field_chain(x):
    """field names from the innermost object outwards for a location or pointer value"""
    names = []
    while True:
        if x[0] == 'f':
            names.append(x[2])
            x = x[1]
        elif x[0] == 'i':
            names.append(('i', x[2]))
            x = x[1]
        elif x[0] == 'obj':
            x = x[1]
        elif x[0] in ('init', 'addr', 'rv', 'loc', 'alias'):
            x = x[1]
        elif x[0] == 'sel':
            names.append(x[2])
            x = x[1]
        elif x[0] == 'lin' and len(x[1]) == 1:
            x = x[1][0][0]
        else:
            return names, x


class Task:
    def __init__(self, role, label, paths, interp, where, parent=None, root=None, lam=None):
        self.role, self.label, self.paths, self.interp, self.where = role, label, paths, interp, where
        self.parent, self.root, self.lam = parent, root, lam


class System:
    """all tasks reachable in one network type"""

    def __init__(self, prog, net, config=None, may_throw='try', extra_roots=()):
        self.p = prog
        self.net = NS + net
        if self.net not in prog.rec_by_qn:
            raise AnalysisBroken('class %s not found' % self.net)
        self.chain = [b for b in prog.bases(self.net) if b.startswith(NS)]
        self.tasks = []
        self.unresolved = []
        self.queue = []
        self.cur = None
        self.proles = {}       # posting event -> role of the posting task
        self.seen = set()
        self.fields = {}        # function-valued field -> set of values assigned
        self.icalls = {}        # function-valued field -> roles invoking it
        cfg = config or Config(resolve=self.resolve, extra_opaque=ERRS, max_states=20000)
        if may_throw == 'try':
            cfg.may_throw = lambda ev: ('?',) if ev.intry and self.throwing(ev) else ()
        self.cfg = cfg
        self.interp = Interp(prog, cfg)
        self.run()

    def throwing(self, ev):
        if ev.kind in ('vcall', 'icall'):
            return True
        if ev.kind != 'call':
            return False
        n = ev.name
        if n.startswith(NS) and not n.endswith('::(ctor)') and not n.endswith('::operator bool'):
            c = n.rsplit('::', 1)[0]
            return c in (NS + 'ThreadCall', NS + 'TLS', NS + 'FdEvent', NS + 'TimerEvent', NS + 'TimedFdEvent')
        return False

    def resolve(self, n, qn):
        cls, name = qn.rsplit('::', 1)
        if cls not in self.chain:
            return None
        for c in self.chain:
            l = self.p.fns(c + '::' + name)
            if l:
                return l[0]
        return None

    # ------------------------------------------------------------------ roots
    def roots(self):
        res = []
        for c in self.chain:
            for f in self.p.methods_of(c):
                short = f.qn.rsplit('::', 1)[1]
                if f.defaulted or short == 'operator=':
                    continue
                if f.kind == 'ctor':
                    if not f.copy and not f.move and c == self.net:
                        res.append((f, INIT))
                elif f.kind == 'dtor':
                    res.append((f, STOP))
                elif f.access == 0:
                    res.append((f, USER))
            cc = c + '::Conn'
            for f in self.p.methods_of(cc):
                if f.access == 0 and f.kind not in ('ctor', 'dtor') and not f.defaulted and not f.qn.endswith('operator='):
                    res.append((f, USER))
        return res

    def run(self):
        for f, role in self.roots():
            key = ('fn', f.fn, role)
            if key in self.seen:
                continue
            self.seen.add(key)
            self.queue.append((role, ('fnroot', f), None, f.qn))
        if not self.queue:
            raise AnalysisBroken('no public entry points of %s' % self.net)
        while self.queue:
            while self.queue:
                self.do(*self.queue.pop(0))
            self.flush_fields()

    def flush_fields(self):
        for fld, vals in self.fields.items():
            for role in self.icalls.get(fld, ()):
                for v in list(vals):
                    self.post(role, v, None, 'through ' + fld.rsplit('::', 1)[-1])

    def do(self, role, target, parent, label):
        if target[0] == 'fnroot':
            f = target[1]
            paths = self.interp.run(f)
            t = Task(role, label, paths, self.interp, f.where, parent, root=f)
        elif target[0] == 'lam':
            paths = self.interp.run_lambda(target)
            t = Task(role, label, paths, self.interp, '%s:%d' % (rel(target[6]), target[2]), parent, lam=target)
        elif target[0] == 'fn':
            f = self.p.functions.get(target[1])
            if f is None or f.body is None:
                self.unresolved.append((role, label, show(target)))
                return
            paths = self.interp.run(f)
            t = Task(role, label, paths, self.interp, f.where, parent, root=f)
        else:
            self.unresolved.append((role, label, show(target)))
            return
        t.prole = self.proles.get(id(parent))
        self.tasks.append(t)
        self.cur = t
        for pa in paths:
            for e in pa.events:
                self.event(t, e)

    def post(self, role, v, parent, label):
        while v[0] == 'st' and v[1][0] in ('lam', 'bind', 'fn'):
            v = v[1]
        if v[0] == 'lam':
            consts = tuple((c[1], c[3]) for c in v[4] if c[3][0] in ('c', 'null'))
            key = ('lam', v[3], role, consts)
            tgt = v
            name = '%s::<lambda:%d>' % (v[7], v[2])
        elif v[0] == 'bind':
            f, _ = self.interp.bind_target(v)
            if f is None:
                self.unresolved.append((role, label, 'bound function'))
                return
            key = ('fn', f.fn, role)
            tgt = ('fn', f.fn, f.qn)
            name = f.qn
        elif v[0] == 'fn':
            key = ('fn', v[1], role)
            tgt = v
            name = v[2]
        else:
            if (role, label, show(v)) not in self.unresolved:
                self.unresolved.append((role, label, show(v)))
            return
        if key in self.seen:
            return
        self.seen.add(key)
        if parent is not None:
            self.proles[id(parent)] = self.cur.role if self.cur else None
        self.queue.append((role, tgt, parent, name))

    # ------------------------------------------------------------------ loops
    def tcall_role(self, loc):
        names, base = field_chain(loc)
        for i, n in enumerate(names):
            if isinstance(n, tuple):
                continue
            s = n.rsplit('::', 1)[-1]
            if s == 'user_tcall':
                return USER
            if s in ('disp_tcall', 'exit_tcall'):
                return DISP
            if s == 'tcall':
                if len(names) > i + 1 and names[i + 1] == ('i', ('c', 0)):
                    return DISP
                return WORKER
        return None

    def ec_role(self, v):
        names, base = field_chain(v)
        for n in names:
            if isinstance(n, tuple):
                continue
            if n == NS + 'ConnPool::disp_ec':
                return DISP
            if n == NS + 'ConnPool::ec':
                return USER
            if n == NS + 'ConnPool::Worker::ec':
                return WORKER
        if base and base[0] == 'p' and base[2] == 'ec':
            return USER
        return None

    def event(self, t, e):
        if e.kind in ('call',):
            nm = e.name
            vals = (e.x or {}).get('vals', e.args)
            if nm in (NS + 'ThreadCall::async_call', NS + 'ThreadCall::call'):
                r = self.tcall_role(e.obj)
                if r is None:
                    self.unresolved.append((t.role, e.where, 'thread call target ' + show_loc(e.obj)))
                    return
                self.post(r, vals[0], e, e.where)
            elif nm.endswith('::(ctor)') and nm[:-8] in EV_CLASSES and len(vals) >= 2:
                r = self.ec_role(vals[0])
                cb = vals[-1]
                if r is None:
                    self.unresolved.append((t.role, e.where, 'event loop ' + show(vals[0])))
                    return
                self.post(r, cb, e, e.where)
            elif nm.endswith('EventDriven::reg_handler'):
                r = self.ec_role(vals[0])
                if r is None:
                    self.unresolved.append((t.role, e.where, 'event loop ' + show(vals[0])))
                    return
                self.post(r, vals[1], e, e.where)
            elif nm == NS + 'MsgNetwork::reg_handler':
                pass
        elif e.kind == 'icall':
            nm = e.name
            if any(x[0] == 'f' and x[2] == NS + 'MsgNetwork::handler_map' for x in subterms(e.obj or ())):
                nm = 'handler'
            if nm == 'handler' or nm.startswith(NS):
                self.icalls.setdefault(nm, set()).add(t.role)
        elif e.kind == 'write':
            v = e.args[0]
            while v[0] == 'st':
                v = v[1]
            if v[0] in ('lam', 'bind', 'fn') and e.obj[0] == 'f':
                s = self.fields.setdefault(e.obj[2], {})
                s[v] = 1
            elif v[0] in ('lam', 'bind', 'fn') and e.obj[0] in ('i', 'obj'):
                self.fields.setdefault('handler', {})[v] = 1
