"""Shared context of a check: the loaded program, cached analyses, obligations and their outcome."""
import time
from .program import Program, AnalysisBroken, rel
from .interp import Interp, Config, show, show_loc
from .system import System


class Ctx:
    def __init__(self, pid, overrides=None):
        self.pid = pid
        self.prog = Program(overrides)
        self.overrides = overrides or {}
        self.obs = {}           # rule -> [n, failed]
        self.viol = []          # (sig, where, text, path)
        self.sites = {}         # rule -> set of sites
        self.fn_seen = set()
        self.npaths = 0
        self.roots = set()
        self._sys = {}
        self.rules = {}

    # ---- analyses
    def system(self, net, **kw):
        k = (net, tuple(sorted(kw.items(), key=repr)))
        if k not in self._sys:
            marks = kw.pop('marks', ())
            s = System.__new__(System)
            cfg = Config(resolve=lambda n, qn: s.resolve(n, qn), extra_opaque={'salticidae::SalticidaeError::(ctor)'},
                         max_states=20000, marks=marks, **{x: v for x, v in kw.items() if x not in ('may_throw',)})
            s.__init__(self.prog, net, config=cfg, may_throw=kw.get('may_throw', 'try'))
            if s.unresolved:
                raise AnalysisBroken('callback hand-off not understood in %s: %s' % (net, s.unresolved[:3]))
            self._sys[k] = s
            self.roots.update(t.label for t in s.tasks)
            self.npaths += sum(len(t.paths) for t in s.tasks)
            self.fn_seen |= s.interp.inlined
        return self._sys[k]

    def systems(self, **kw):
        return [self.system(n, **kw) for n in ('MsgNetwork', 'ClientNetwork', 'PeerNetwork')]

    def paths(self, fn, cfg=None, **kw):
        if isinstance(fn, str):
            fn = self.prog.one(fn)
        it = Interp(self.prog, cfg)
        ps = it.run(fn, **kw)
        self.note(fn.qn, ps, it)
        return it, ps

    def note(self, name, ps, it):
        self.roots.add(name)
        self.npaths += len(ps)
        self.fn_seen |= it.inlined

    # ---- obligations
    def ob(self, rule, ok, where, text, path=None, sig=None):
        o = self.obs.setdefault(rule, [0, 0])
        o[0] += 1
        self.sites.setdefault(rule, set()).add(where)
        if not ok:
            o[1] += 1
            sig = '%s:%s' % (rule, sig if sig is not None else where)
            if not any(v[0] == sig for v in self.viol):
                self.viol.append((sig, where, text, self.fmt(path) if path is not None else []))
        return ok

    def need(self, rule, n=1):
        c = self.obs.get(rule, [0])[0]
        if c < n:
            raise AnalysisBroken('rule %s matched %d site(s), expected at least %d: anchor lost' % (rule, c, n))

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def fmt(self, path):
        out = []
        evs = path.events if hasattr(path, 'events') else path
        for e in evs:
            if e.kind in ('assert',):
                continue
            try:
                out.append(repr(e)[:300])
            except Exception:
                out.append('%s %s @%s' % (e.kind, e.name, e.where))
        return out
