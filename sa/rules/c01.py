"""User callbacks run only on the user's loop."""
from ..interp import truth, subterms, show, show_loc
from ..system import USER, NS, INIT, STOP, field_chain
TITLE = "User callbacks run only on the user's event loop"
EXPLAIN = ('Thread-role dataflow: every lambda or bound function handed to a cross-thread call, event, timer, or queue '
           'handler is analysed as its own root under the role of the loop it is handed to, starting from every public '
           'entry point of the three network classes; each invocation of a user-registered callback must be in a task '
           'of the user loop, with no library lock held and with the callback known to be set.')
RULES = {'callback-role': 'each invocation of a user-registered callback is in a task that only the user loop runs',
         'callback-unlocked': 'no library lock is held while user code runs',
         'callback-set': 'a callback is invoked only where it is known to be set',
         'callback-sync': 'user code never runs inside an API call or the constructor/destructor',
         'loop-identity': 'the call channel of each loop is built on the loop that the role names'}
ASSUME = ['the event context given to the constructor is dispatched by the user thread',
          'a lambda posted on a call channel runs on the thread dispatching that channel\'s loop (decided by C13/C15)']


def user_fields(ctx, s):
    """function fields that public functions assign from their own parameters"""
    res = {}
    for t in s.tasks:
        if t.root is None or t.role != USER:
            continue
        for pa in t.paths:
            for e in pa.events:
                if e.kind == 'write' and e.obj and e.obj[0] == 'f':
                    v = e.args[0]
                    r = ctx.prog.rec_by_qn.get(e.obj[2].rsplit('::', 1)[0])
                    f = ctx.prog.field(e.obj[2].rsplit('::', 1)[0], e.obj[2].rsplit('::', 1)[1]) if r else None
                    if f and 'std::function' in str(f.get('t', '')) and v[0] in ('init', 'rv', 'moved', 'lam', 'bind', 's'):
                        res[e.obj[2]] = e.where
    return res


def check(ctx):
    for s in ctx.systems():
        uf = user_fields(ctx, s)
        ctx.require(len(uf) >= 2, 'callback registration functions not found in ' + s.net)
        for t in s.tasks:
            for pa in t.paths:
                for e in pa.events:
                    if e.kind != 'icall':
                        continue
                    handler = any(x[0] == 'f' and x[2] == NS + 'MsgNetwork::handler_map' for x in subterms(e.obj or ()))
                    if e.name not in uf and not handler:
                        # a user's message handler captured by the registration lambda
                        continue
                    what = 'message handler' if handler else e.name.rsplit('::', 1)[-1]
                    ctx.ob('callback-role', t.role == USER, e.where,
                           '%s is invoked by the %s thread (task %s)' % (what, t.role, t.label), pa, sig=e.fn + ':' + what)
                    ctx.ob('callback-unlocked', not e.locks, e.where,
                           '%s is invoked while a library lock is held' % what, pa, sig=e.fn + ':' + what)
                    ctx.ob('callback-sync', t.lam is not None, e.where,
                           '%s is invoked synchronously from %s' % (what, t.label), pa, sig=e.fn + ':' + what)
                    if not handler:
                        ctx.ob('callback-set', s.interp.holds(e.facts, truth(e.x['callee'])), e.where,
                               '%s may be empty where it is invoked' % what, pa, sig=e.fn + ':' + what)
        identity(ctx, s)
    ctx.need('callback-role', 6)
    ctx.need('callback-set', 4)
    ctx.need('loop-identity', 4)


def identity(ctx, s):
    P = ctx.prog
    # construction: which loop each call channel is built on
    for t in s.tasks:
        if t.role != INIT:
            continue
        for pa in t.paths:
            if pa.kind != 'ret':
                continue
            new_tc = {}
            seen = {}
            for e in pa.events:
                if e.kind == 'call' and e.name == NS + 'ThreadCall::(ctor)':
                    new_tc[e.obj] = e
                if e.kind == 'write' and e.obj[0] == 'f':
                    seen[e.obj[2]] = e
            e = seen.get(NS + 'ConnPool::user_tcall')
            ctx.require(e is not None, 'user call channel is not set up in the constructor')
            c = new_tc.get(('obj', e.args[0]))
            ok = c is not None and s.ec_role(c.x['vals'][0]) == USER
            ctx.ob('loop-identity', ok, e.where, "the user call channel is not built on the user's event context", pa, sig='user_tcall')
            e = seen.get(NS + 'ConnPool::disp_ec')
            ctx.require(e is not None, 'dispatcher loop is not set up in the constructor')
            ctx.ob('loop-identity', s.ec_role(e.args[0]) == 'worker', e.where, 'the dispatcher loop is not a worker loop', pa, sig='disp_ec')
            ec_names, ec_base = field_chain(e.args[0])
            e = seen.get(NS + 'ConnPool::disp_tcall')
            ctx.require(e is not None, 'dispatcher call channel is not set up in the constructor')
            names, base = field_chain(e.args[0])
            ok = names[:1] == [NS + 'ConnPool::Worker::tcall'] and names[1:] == ec_names[1:] and base == ec_base
            ctx.ob('loop-identity', ok, e.where, 'the dispatcher call channel belongs to another worker than the dispatcher loop', pa, sig='disp_tcall')
    # worker: channel built on the worker's own loop; thread dispatches it
    f = P.one(NS + 'ConnPool::Worker::(ctor)', lambda f: not f.copy and not f.move)
    it, ps = ctx.paths(f)
    for pa in ps:
        for e in pa.events:
            if e.kind == 'call' and e.name == NS + 'ThreadCall::(ctor)':
                own = pa.value(('f', e.obj[1], NS + 'ConnPool::Worker::ec')) if e.obj[0] == 'f' else None
                ok = own is not None and own == e.x['vals'][0]
                ctx.ob('loop-identity', ok, e.where, "a worker's call channel is not built on its own loop", pa, sig='worker_tcall')
