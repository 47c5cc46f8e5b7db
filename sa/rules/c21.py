"""Life of a network: its threads start once, stop once, and nothing they use dies before them."""
from .peers import *
TITLE = 'A network starts its threads once and outlives all of them'
RULES = {
    'start': 'starting creates one thread for every worker, and only the first time',
    'told': 'stopping tells every worker to end, over a call queue that is never paused, before waiting for it',
    'joined': 'stopping waits for the thread of every worker exactly once',
    'once': 'stopping acts only on a started network, and only once',
    'left': 'after all threads ended every connection left is taken down, marked terminated and released',
    'outlive': 'destroying a network stops its threads before any member of it is destroyed',
    'workers': 'there is at least one worker, and as many as configured, each set up before threads start',
    'assigned': 'a new connection is handed once to one existing worker of the network, the one it names',
    'state': 'nothing but starting and stopping changes whether a network runs',
}
EXPLAIN = ('start, stop, the constructors and destructors of every network class and the hand-over of connections, on all abstract paths; a loop over the '
           'workers is judged by its entry value, its step and the facts at its exit, so the obligations hold for any number of workers.')
ASSUME = ['a thread can be created', 'stop is called from a thread the network does not own']
CP = NS + 'ConnPool::'
STATE = CP + 'system_state'
WK = CP + 'workers'
HANDLE = CP + 'Worker::handle'
NW = CP + 'nworker'
POOL = CP + 'pool'


def bare(v):
    while v and v[0] == 'st':
        v = v[1]
    return v


def names(t, f):
    """whether a location or value goes through field f"""
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'f' and t[2] == f:
            return True
        return any(names(x, f) for x in t)
    return False


def windex(loc):
    """index of the worker a location lies in, or None"""
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'i' and names(loc[1], WK):
            return loc[2]
        if loc[0] == 'obj' and names(loc, WK) and loc[1][0] == 'init' and loc[1][1][0] == 'f' and loc[1][1][2] == WK:
            return C(0)
        if loc[0] in ('f', 'i'):
            loc = loc[1]
        elif loc[0] in ('obj', 'init', 'st', 'ptr', 'd'):
            loc = loc[1]
        else:
            return None
    return None


def nworker(facts, pa):
    return ('init', ('f', ('obj', ('this',)), NW))


class Loops:
    """which indices an action covers on a path, loops included"""

    def __init__(self, it, ps):
        self.it, self.ps = it, ps

    def bodies(self, lp):
        """iterations of the loop: (events of the body, facts at its end, next values)"""
        out = []
        for p in self.ps:
            if p.kind != 'backedge':
                continue
            b = p.events[-1]
            at = [i for i, e in enumerate(p.events) if e.kind == 'loop' and e.node is lp.node and e.stack == lp.stack]
            if b.kind == 'backedge' and b.node is lp.node and at:
                out.append((p.events[at[-1] + 1:-1], p, b.x['next']))
        return out

    def cover(self, pa, action, count):
        """list of (position, low, high) half-open ranges of indices on which the action occurs exactly once; ('bad', ..) if not decided.
        action(event) -> index or None; high is None for 'number of workers'"""
        out = []
        for i, e in enumerate(pa.events):
            k = action(e)
            if k is not None:
                if k[0] == 'c':
                    out.append((i, k[1], k[1] + 1, e))
                else:
                    out.append((i, 'bad', k, e))
            if e.kind != 'loop':
                continue
            bs = self.bodies(e)
            hits = [[x for x in b if action(x) is not None] for b, _, _ in bs]
            if not any(hits):
                continue
            if any(len(h) != 1 for h in hits):
                out.append((i, 'bad', 'not once in each iteration', e))
                continue
            out.append((i,) + self.span(pa, e, [(action(h[0]), p, nx) for h, (b, p, nx) in zip(hits, bs)], count) + (e,))
        return out

    def span(self, pa, lp, its, count):
        entry = lp.x['entry']
        var = so = None
        for ix, p, nx in its:
            cands = [(v, nv) for v, nv in nx.items() if v in entry and entry[v] is not None and any(y[0] == 'h' and y[2] == v for y in subterms(ix))]
            if len(cands) != 1:
                return ('bad', 'index')
            v, nv = cands[0]
            if var is not None and v != var:
                return ('bad', 'index')
            var = v
            h = [y for y in subterms(ix) if y[0] == 'h' and y[2] == v][0]
            step = lin_add(nv, h, -1)
            off = lin_add(ix, h, -1)
            if off[0] != 'c' or step not in (C(1), C(-1)):
                return ('bad', 'step')
            if so is not None and so != (step, off):
                return ('bad', 'step')
            so = (step, off)
        first = entry[var]
        up = so[0] == C(1)
        off = so[1][1]
        fx = last_facts(pa)
        if up:
            if first[0] != 'c':
                return ('bad', 'entry')
            # an iteration exactly while the index is below the count
            end = None
            for d in (0, -1, 1):
                bound = lin_add(count, C(d), 1)
                ok = all(self.it.holds(last_facts(p), lt(h, bound)) or self.it.holds(last_facts(p), pred_not(eq(h, bound))) for _, p, _ in its)
                out = self.it.holds(fx, le(bound, h)) or self.it.holds(fx, eq(h, bound))
                if ok and out:
                    end = d
                    break
            if end is None:
                return ('bad', 'exit')
            return (first[1] + off, ('n', end + off))
        d, c = as_lin(lin_add(first, count, -1))
        if d:
            return ('bad', 'entry')
        for low in (0, 1, 2):
            ok = all(self.it.holds(last_facts(p), le(C(low), h)) or self.it.holds(last_facts(p), pred_not(eq(h, C(low - 1)))) for _, p, _ in its)
            out = self.it.holds(fx, lt(h, C(low))) or self.it.holds(fx, eq(h, C(low - 1)))
            if ok and out:
                return (low + off, ('n', c + 1 + off))
        return ('bad', 'exit')


def whole(cov):
    """whether ranges cover [0, number of workers) exactly"""
    at = 0
    rs = [(c[1], c[2]) for c in cov]
    if any(r[0] == 'bad' for r in rs):
        return False
    rs.sort(key=lambda r: r[0])
    for lo, hi in rs:
        if lo != at:
            return False
        if isinstance(hi, tuple):
            return hi == ('n', 0) and (lo, hi) == rs[-1]
        at = hi
    return False


def describe(cov):
    return ', '.join('%s..%s' % (c[1], 'count%+d' % c[2][1] if isinstance(c[2], tuple) and c[2][0] == 'n' else c[2]) for c in cov) or 'none'


def check(ctx):
    prog = ctx.prog
    for fld_ in ('system_state', 'workers', 'nworker', 'pool'):
        ctx.require(prog.field(NS + 'ConnPool', fld_) is not None, 'no field %s of the network' % fld_)
    mine = [f for f in prog.functions.values() if f.body is not None and (rel(f.file).startswith('include/') or rel(f.file).startswith('src/'))]
    td = {f.qn for f in mine if short(f.qn) in ('on_worker_teardown', 'on_dispatcher_teardown', 'release_conn')}
    s = ctx.system('PeerNetwork')
    it = Interp(prog, Config(resolve=s.resolve, max_states=20000, split=True, extra_opaque=td))
    # functions that change the state or use the threads
    todo = [f for f in mine if not f.lam and f.kind != 'ctor' and any(isinstance(n, dict) and n.get('dq') == STATE for n in walk(f.body))]
    touch = []
    runs = {}
    starters, stoppers, on, off = [], [], set(), set()
    while todo:
        f = todo.pop(0)
        if f in runs:
            continue
        touch.append(f)
        runs[f] = ps = it.run(f)
        ctx.note(f.qn, ps, it)
        sets = {(e.args[0] if e.args else None, e.where) for pa in ps for e in pa.events if sets_state(e)}
        if not sets and not any(joins(x) is not None for p in ps for x in p.events):
            continue
        if any(created(x) is not None for p in ps for x in p.events):
            starters.append(f)
            on |= {v for v, _ in sets}
        elif any(joins(x) is not None for p in ps for x in p.events):
            stoppers.append(f)
            off |= {v for v, _ in sets}
        else:
            cs = [g for g in mine if not g.lam and any(isinstance(n, dict) and n.get('qn') == f.qn for n in walk(g.body))]
            if f.access == 0 or not cs:
                ctx.ob('state', False, f.where, '%s changes whether the network runs' % short(f.qn), sig=f.qn)
            todo += cs
    ctx.require(starters and stoppers, 'what starts and stops the threads is not found')
    if not off:
        ctx.ob('once', False, stoppers[0].where, 'the network is not marked as stopped', sig='never')
        return
    ctx.ob('state', len(on) == 1 and len(off) == 1 and on != off and not (on | off) & {C(0)}, starters[0].where, 'a started, a stopped and a new network are not told apart', sig='values')
    for f in touch:
        if f not in starters and f not in stoppers and f.kind != 'ctor':
            ctx.ob('state', True, f.where, 'reads the state only', sig=f.qn)
    # every other function that creates or joins the threads goes through these
    run = on.copy().pop()
    paused = pauses(ctx, it, mine)
    for f in starters:
        start(ctx, it, f, runs[f])
    for f in stoppers:
        stop(ctx, it, f, runs[f], run, paused)
    outlive(ctx, s, mine, stoppers, td)
    workers(ctx, it, mine)
    assigned(ctx, s, mine)
    for r in RULES:
        ctx.need(r)


def sets_state(e):
    return e.kind in ('write', 'atomic') and e.obj and e.obj[0] == 'f' and e.obj[2] == STATE and not (e.kind == 'atomic' and e.name == 'load')


def created(e):
    """a thread is made and kept as that of a worker: its index"""
    if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == HANDLE:
        return windex(e.obj)
    return None


def joins(e):
    if e.kind == 'call' and e.name == 'std::thread::join' and names(e.obj, HANDLE):
        return windex(e.obj)
    return None


def start(ctx, it, f, ps):
    cnt = ('init', ('f', ('obj', ('this',)), NW))
    L = Loops(it, ps)
    st = ('init', ('f', ('obj', ('this',)), STATE))
    for pa in ps:
        made = [e for e in pa.events if created(e) is not None]
        sets = [e for e in pa.events if sets_state(e)]
        for e in made + sets:
            ctx.ob('start', it.holds(e.facts, eq(st, C(0))), e.where, 'threads are started again', path=pa, sig='again')
        if pa.kind != 'ret':
            continue
        cov = L.cover(pa, created, cnt)
        if not cov and not sets:
            ctx.ob('start', it.holds(last_facts(pa), pred_not(eq(st, C(0)))), f.where, 'the first start starts nothing', path=pa, sig='first')
            continue
        ctx.ob('start', whole(cov), f.where, 'threads are started for workers %s' % describe(cov), path=pa, sig='cover')
        ctx.ob('start', len(sets) == 1, f.where, 'the network is not marked as started', path=pa, sig='mark')


def pauses(ctx, it, mine):
    """fields of the worker whose call queue is stopped somewhere"""
    out = set()
    for f in mine:
        for n in walk(f.body):
            if isinstance(n, dict) and n.get('qn') == NS + 'ThreadCall::stop' and not f.lam:
                for pa in it.run(f):
                    for e in pa.events:
                        if e.kind == 'write' and e.obj and e.obj[0] == 'f' and short(e.obj[2]) == 'stopped' or e.kind == 'call' and e.name == NS + 'ThreadCall::stop':
                            c = field_chain(e.obj)[0]
                            out |= {x for x in c if isinstance(x, str) and x.startswith(CP + 'Worker::')}
                break
    return out


def stop(ctx, it, f, ps, run, paused):
    cnt = ('init', ('f', ('obj', ('this',)), NW))
    st = ('init', ('f', ('obj', ('this',)), STATE))
    L = Loops(it, ps)
    lams = {}

    def ends(e):
        """a task that stops the event loop of the worker it is posted to"""
        l = lam_of(e)
        if l is None or windex(e.obj) is None:
            return None
        if l[3] not in lams:
            q = it.run_lambda(l)
            lams[l[3]] = bool(q) and all(p.kind == 'ret' and [x for x in p.events if x.kind == 'call' and (x.name == 'uv_stop' or x.name == NS + 'EventContext::stop')] for p in q)
        return windex(e.obj) if lams[l[3]] else None

    def tells(e):
        k = ends(e)
        if k is None:
            return None
        ch = [x for x in field_chain(e.obj)[0] if isinstance(x, str) and x.startswith(CP + 'Worker::')]
        if paused & set(ch) and k == C(0):
            return None
        return k
    full = 0
    for pa in ps:
        acts = [e for e in pa.events if joins(e) is not None or ends(e) is not None or e.kind == 'call' and short(e.name) in ('release_conn', 'on_worker_teardown')]
        sets = [e for e in pa.events if sets_state(e)]
        for e in acts + sets:
            ctx.ob('once', it.holds(e.facts, eq(st, run)), e.where, 'a network that does not run is stopped', path=pa, sig='guard')
        if acts:
            ctx.ob('once', len(sets) == 1 and pa.events.index(sets[0]) < pa.events.index(acts[0]), acts[0].where, 'the network is not marked as stopped before its threads are', path=pa, sig='mark')
        if pa.kind != 'ret':
            continue
        if it.holds(last_facts(pa), pred_not(eq(st, run))):
            continue
        full += 1
        told, join = L.cover(pa, tells, cnt), L.cover(pa, joins, cnt)
        ctx.ob('told', whole(told), f.where, 'workers %s are told to end' % describe(told), path=pa, sig='cover')
        ctx.ob('joined', whole(join), f.where, 'the threads of workers %s are waited for' % describe(join), path=pa, sig='cover')
        if not (whole(told) and whole(join)):
            continue
        for t in told:
            for j in join:
                if lapped(t, j):
                    if t[0] == j[0]:
                        ok = all(next(i for i, x in enumerate(b) if tells(x) is not None) < next(i for i, x in enumerate(b) if joins(x) is not None) for b, _, _ in L.bodies(pa.events[t[0]]))
                    else:
                        ok = t[0] < j[0]
                    ctx.ob('told', ok, j[3].where, 'a thread is waited for before it is told to end', path=pa, sig='order')
        left(ctx, it, L, pa, max(j[0] for j in join), f)
    ctx.require(full > 0, 'no path that stops a running network')


def lapped(a, b):
    big = 1 << 40
    hi = lambda c: big if isinstance(c[2], tuple) else c[2]
    return a[1] < hi(b) and b[1] < hi(a)


def left(ctx, it, L, pa, after, f):
    """the connections that are left once the threads ended"""
    found = 0
    for i, e in enumerate(pa.events):
        if e.kind != 'loop':
            continue
        bs = L.bodies(e)
        if not any(x.kind == 'call' and short(x.name) in ('release_conn', 'on_worker_teardown') for b, _, _ in bs for x in b):
            continue
        found += 1
        ctx.ob('left', i > after, e.where, 'connections are taken down while threads run', path=pa, sig='order')
        ctx.ob('left', any(names(v, POOL) for v in (e.x.get('entry') or {})) or any(names(x.args, POOL) or names(x.obj, POOL) for b, _, _ in bs for x in b),
               e.where, 'not all connections are taken down', path=pa, sig='pool')
        for b, p, nx in bs:
            rel_ = [x for x in b if x.kind == 'call' and short(x.name) == 'release_conn']
            dn = [x for x in b if x.kind == 'call' and short(x.name) == 'on_worker_teardown']
            cl = [(x, claim(x)) for x in b if claim(x)] + [(x, x.obj[1]) for x in b if x.kind == 'atomic' and x.name == 'store' and x.obj[2] == CONN + 'terminated' and x.args[0] == C(1)]
            ctx.ob('left', len(rel_) == 1 and len(dn) == 1 and len(cl) == 1, e.where, 'a connection left is taken down %d times, marked %d times, released %d times' % (len(dn), len(cl), len(rel_)),
                   path=p, sig='each')
            if len(rel_) == len(dn) == len(cl) == 1:
                ctx.ob('left', b.index(dn[0]) < b.index(rel_[0]) and b.index(cl[0][0]) < b.index(rel_[0]), rel_[0].where, 'a connection is released before it is taken down', path=p, sig='seq')
                a, c = bare(vals(rel_[0])[0]), bare(vals(dn[0])[0])
                ctx.ob('left', a == c and inpool(a, e), rel_[0].where, 'one connection is taken down and another released', path=p, sig='same')
            for x in b:
                ctx.ob('left', not (x.kind in ('insert', 'erase') and names(x.obj, POOL)), x.where, 'the table of connections changes while it is walked', path=p, sig='walk')
    ctx.ob('left', found == 1, f.where, 'connections left are taken down %d times' % found, path=pa, sig='loop')


def inpool(v, lp):
    if names(v, POOL):
        return True
    return any(y[0] == 'h' and names(lp.x['entry'].get(y[2]), POOL) for y in subterms(v))


def outlive(ctx, s, mine, stoppers, td):
    prog = ctx.prog
    names_ = {f.qn for f in stoppers}
    it = Interp(prog, Config(resolve=s.resolve, max_states=20000, extra_opaque=td | names_))
    cls = [NS + 'ConnPool', NS + 'MsgNetwork', NS + 'PeerNetwork', NS + 'ClientNetwork']
    for c in cls:
        ctx.require(c in prog.rec_by_qn, 'no class ' + c)
    n = 0
    for c in cls:
        ds = [f for f in mine if f.kind == 'dtor' and f.qn.rsplit('::', 1)[0] == c and not f.defaulted]
        ctx.ob('outlive', bool(ds), ctx_where(prog, c), '%s does not stop its threads when destroyed' % short(c), sig=c + ':dtor')
        for f in ds[:1]:
            for pa in it.run(f):
                n += 1
                at = [i for i, e in enumerate(pa.events) if e.kind == 'call' and e.name in names_]
                ctx.ob('outlive', bool(at) and pa.kind in ('ret', 'backedge'), f.where, '%s is destroyed while its threads may run' % short(c), path=pa, sig=c)
                for e in pa.events[:at[0]] if at else ():
                    ctx.ob('outlive', not (e.kind in ('write', 'erase', 'insert', 'delete', 'call', 'atomic') and e.obj and loc_field(e.obj, c)), e.where,
                           '%s changes its members before its threads ended' % short(c), path=pa, sig=c + ':early')
    # what stop() does besides: never restarts, reaches the stopper
    for f in mine:
        if short(f.qn) == 'stop' and f.qn.rsplit('::', 1)[0] in cls and not f.lam:
            for pa in it.run(f):
                k = [e for e in pa.events if e.kind == 'call' and e.name in names_]
                ctx.ob('told', bool(k) or pa.kind == 'backedge', f.where, '%s::stop does not stop the threads' % short(f.qn.rsplit('::', 1)[0]), path=pa, sig=f.qn)
    ctx.require(n >= 4, 'destructors of the networks not found')


def loc_field(l, c):
    while isinstance(l, tuple) and l:
        if l[0] == 'f' and str(l[2]).startswith(c + '::'):
            return True
        l = l[1] if len(l) > 1 else None
    return False


def ctx_where(prog, c):
    r = prog.rec_by_qn[c]
    return '%s:%s' % (rel(r.get('file') or ''), r.get('line') or 0)


def workers(ctx, it, mine):
    prog = ctx.prog
    cnt = ('init', ('f', ('obj', ('this',)), NW))
    cs = [f for f in mine if f.kind == 'ctor' and f.qn == NS + 'ConnPool::(ctor)' or f.kind == 'ctor' and f.qn.rsplit('::', 1)[0] == NS + 'ConnPool']
    cs = [f for f in cs if not f.copy and not f.move and not f.defaulted]
    ctx.require(cs, 'the constructor of the network is not found')
    ctor(ctx, it, cs)
    # the configured number is never below one
    n = 0
    CF = CP + 'Config::_nworker'
    for f in mine:
        if f.lam or f.defaulted or f.copy or f.move or not f.qn.startswith(CP + 'Config::') or short(f.qn) == 'operator=':
            continue
        for pa in it.run(f):
            for e in pa.events:
                if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == CF:
                    n += 1
                    ctx.ob('workers', atleast1(it, e), e.where, 'the number of workers may be 0', path=pa, sig=f.qn)
            if f.kind == 'ctor' and not f.copy and not f.move:
                v = pa.st.cells.get(('f', ('obj', ('this',)), CF))
                n += 1
                ctx.ob('workers', v is not None and v[0] == 'c' and v[1] >= 1, f.where, 'the number of workers is not set by default', path=pa, sig=f.qn)
    ctx.require(n >= 2, 'the configured number of workers is not found')
    for f in mine:
        if not f.lam and f.kind != 'ctor':
            for m in walk(f.body):
                if isinstance(m, dict) and (m.get('asg') or m.get('k') == 'un' and m.get('op') in ('++', '--')) and (m.get('a') or {}).get('dq') == NW:
                    ctx.ob('workers', False, f.where, 'the number of workers changes', sig=f.qn)


def atleast1(it, e):
    v = bare(vals(e)[0])
    if v[0] == 'ap' and short(v[1]) == 'max':
        return any(bare(x)[0] == 'c' and bare(x)[1] >= 1 for x in v[2])
    return it.holds(e.facts, le(C(1), v)) or v[0] == 'c' and v[1] >= 1


def ctor(ctx, it, cs):
    for f in cs:
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        L = Loops(it, ps)
        for pa in ps:
            if pa.kind != 'ret':
                continue
            cells = pa.st.cells
            nv = cells.get(('f', ('obj', ('this',)), NW))
            ctx.ob('workers', nv is not None and names(nv, CP + 'Config::_nworker') and as_lin(nv)[1] == 0, f.where, 'the number of workers is not the one configured', path=pa, sig='count')
            ctx.ob('workers', cells.get(('f', ('obj', ('this',)), STATE)) in (C(0),), f.where, 'a new network is not new', path=pa, sig='new')
            news = [e for e in pa.events if e.kind in ('new', 'newarr', 'call') and CP + 'Worker' in str(e.name) and e.kind != 'call']
            ctx.ob('workers', len(news) == 1 and nv in [bare(x) for x in vals(news[0])], f.where, 'the workers made are not as many as configured', path=pa, sig='made')
            made = [bare(v) for v in (cells.get(('f', ('obj', ('this',)), WK)),) if v]
            rep = lambda e: element(e.obj, made) if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == CP + 'Worker::on_fatal_error' else None
            cov = L.cover(pa, rep, nv)
            ctx.ob('workers', whole(cov), f.where, 'the error report is set for workers %s' % describe(cov), path=pa, sig='report')
            flags = [e for e in pa.events if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == CP + 'Worker::disp_flag' and e.args[0] != C(0)]
            dt = [bare(v) for v in (cells.get(('f', ('obj', ('this',)), CP + 'disp_tcall')),) if v]
            ctx.ob('workers', len(flags) == 1 and element(flags[0].obj, made) == C(0) and dt and element(to(dt[0]), made) == C(0), f.where,
                   'the dispatcher is not exactly one worker, the first', path=pa, sig='dispatcher')
        disp = [v for pa in ps for k, v in pa.st.cells.items() if k == ('f', ('obj', ('this',)), CP + 'disp_error_cb')]
        for pa in ps:
            for e in pa.events:
                if e.kind == 'write' and e.obj and e.obj[0] == 'f' and e.obj[2] == CP + 'Worker::on_fatal_error' and e.args[0] in disp:
                    made = [bare(v) for k, v in pa.st.cells.items() if k == ('f', ('obj', ('this',)), WK)]
                    k = element(e.obj, made)
                    ok = k == C(0) or k is not None and (it.holds(e.facts, eq(k, C(0))) or it.holds(e.facts, truth(('init', ('f', e.obj[1], CP + 'Worker::disp_flag')))))
                    ctx.ob('workers', ok, e.where, 'a worker other than the dispatcher reports errors as the dispatcher', path=pa, sig='direct')


def element(loc, made):
    """index of the worker a location lies in, for workers just made"""
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'i' and any(names_term(loc[1], m) for m in made):
            return loc[2]
        loc = loc[1] if loc[0] in ('f', 'i') else None
    return None


def names_term(t, m):
    return t == m or isinstance(t, tuple) and any(names_term(x, m) for x in t)


def assigned(ctx, s, mine):
    prog = ctx.prog
    FEED = CP + 'Worker::feed'
    it = Interp(prog, Config(resolve=s.resolve, max_states=20000, split=True, extra_opaque=ERRS | ERRC | {FEED}))
    n = 0
    for f in mine:
        if f.lam or not any(isinstance(x, dict) and x.get('qn') == FEED for x in walk(f.body)):
            continue
        ps = it.run(f)
        ctx.note(f.qn, ps, it)
        L = Loops(it, ps)
        for pa in ps:
            for i, e in enumerate(pa.events):
                if e.kind != 'call' or e.name != FEED:
                    continue
                n += 1
                c = bare(vals(e)[0])
                w = [x for x in pa.events[:i] if x.kind == 'write' and x.obj and x.obj[0] == 'f' and x.obj[2] == CONN + 'worker']
                ctx.ob('assigned', bool(w), e.where, 'a connection is handed to a worker without naming it', path=pa, sig=f.qn + ':named')
                if w:
                    ctx.ob('assigned', to(w[-1].args[0]) == e.obj and names_conn(w[-1].obj, c), e.where, 'a connection is handed to another worker than the one it names', path=pa, sig=f.qn + ':same')
                ctx.ob('assigned', bound(it, L, pa, i, windex(e.obj)), e.where, 'a connection is handed to a worker that may not exist', path=pa, sig=f.qn + ':bound')
                ctx.ob('assigned', not any(x.kind == 'call' and x.name == FEED and bare(vals(x)[0]) == c for x in pa.events[:i]), e.where, 'a connection is handed over twice', path=pa, sig=f.qn + ':twice')
    ctx.require(n > 0, 'the hand-over of connections is not found')


def to(v):
    v = bare(v)
    return v[1] if v[0] in ('addr', 'ptr') else v


def names_conn(loc, c):
    return any(x == c for x in subterms(loc)) or loc[1] == c or (c[0] == 'ptr' and loc[1] == c[1]) or str(c) in str(loc)


def bound(it, L, pa, i, k):
    """an index that always names an existing worker"""
    if k is None:
        return False
    if k == C(0):
        return True
    cnt = ('init', ('f', ('obj', ('this',)), NW))
    if it.holds(pa.events[i].facts, lt(k, cnt)):
        return True
    if k[0] != 'h':
        return False
    for lp in [e for e in pa.events[:i] if e.kind == 'loop']:
        if k[2] in (lp.x.get('entry') or {}):
            return lp.x['entry'][k[2]] == C(0) and stays(it, L, lp, k, cnt)
    return False


def stays(it, L, lp, k, cnt):
    for b, p, nx in L.bodies(lp):
        v = nx.get(k[2])
        if v is None or v == k or v[0] == 'h' and v[2] == k[2]:
            continue
        if not it.holds(last_facts(p), lt(v, cnt)):
            return False
    return True
